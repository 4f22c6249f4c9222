// C38: products with vectors of the Eigen library computed by several threads.
#include "omp_util.hpp"
#include <cassert>
#include "ieompp/types/number.hpp"
#include "ieompp/types/eigen/multiply_assign.hpp"

using omp::Values;
using C = std::complex<double>;

template <typename S>
void product(const char* name)
{
    using V = Eigen::Matrix<S, Eigen::Dynamic, 1>;
    for(uint64_t n : {1, 2, 3, 5, 8}) {
        const ieompp::types::FunctionMatrix<S> m(n, n, [](std::size_t i, std::size_t j) { return S(double((i * i + 2 * j) % 5) - 2); });
        omp::subject(mc::str("product of an Eigen vector with a ", name, " matrix, ", n), 4, 1e-12, [=] {
            V v(n);
            for(uint64_t i = 0; i < n; ++i) v(i) = S(double(i) - 0.5);
            Values r;
            for(int k = 0; k < 2; ++k) {
                ieompp::types::multiply_assign(m, v);
                for(uint64_t i = 0; i < n; ++i) {
                    r.push_back(std::real(v(i)));
                    r.push_back(std::imag(v(i)));
                }
            }
            return r;
        });
    }
}
void products()
{
    product<double>("real");
    product<C>("complex");
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"products", products}}); }

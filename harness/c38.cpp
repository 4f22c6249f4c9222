// C38: observables and matrix products evaluated by several threads.
#include "omp_util.hpp"
#include <memory>
#include "basis_util.hpp"
#include "ieompp/types/dot_product.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/1d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/2d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump_no.hpp"
#include "ieompp/models/hubbard_real_space/site_occupation.hpp"
#include "ieompp/types/multiply_assign.hpp"
#include "ieompp/types/blaze/multiply_assign.hpp"
#include "ieompp/types/function_matrix.hpp"

using namespace bas;
using namespace ieompp::lattices;
using namespace ieompp::models::hubbard_real_space;
using omp::Values;
using Chain  = PeriodicChain<double>;
using Square = PeriodicSquareLattice<double>;
using C      = std::complex<double>;
using Vec    = blaze::DynamicVector<C>;
using B1     = Basis1Operator<Monomial>;
using B3     = Basis3Operator<Monomial>;

const double tol = 1e-12;

// symmetric table; every value and coefficient is a small multiple of 1/4, so that sums are exact
double ev(const Operator& a, const Operator& b)
{
    const auto i = std::min(a.index1, b.index1), j = std::max(a.index1, b.index1);
    return i == j ? 0.5 : double((3 * i + j * j) % 5) / 4 - 0.25;
}
template <typename V>
V coefficients(uint64_t n, uint64_t s)
{
    V h(n);
    for(uint64_t i = 0; i < n; ++i) h[i] = C(double((i * i * s + 3 * i + s) % 7) - 3, double((i * s + 2 * i) % 5) / 2 - 1);
    return h;
}
// two evaluations, the second with other coefficients
template <typename O>
Values twice(const O& o, uint64_t n)
{
    return {o(coefficients<std::vector<C>>(n, 1)), o(coefficients<Vec>(n, 2))};
}

void occupation()
{
    for(uint64_t n : {1, 2, 3, 4, 6}) {
        auto b = std::make_shared<B1>(Chain(n, 1.));
        auto c = std::make_shared<B1>(b->get_conjugate());
        // loops handed out one iteration at a time: every assignment of iterations to threads
        omp::subject(mc::str("site occupation, one operator, ", n), n <= 3 ? 3 : 2, tol, [=] {
            const SiteOccupation<double, B1> o{ev, *b, *c};
            return Values{o(coefficients<Vec>(n, 1))};
        });
    }
    for(uint64_t n : {1, 2, 3})
        for(bool shortcut : {true, false}) {
            auto b = std::make_shared<B3>(Chain(n, 1.));
            auto c = std::make_shared<B3>(b->get_conjugate());
            omp::subject(mc::str("site occupation, three operators, ", n, shortcut ? "" : ", without shortcut"), n < 3 ? 3 : 2, tol, [=] {
                SiteOccupation<double, B3> o{ev, *b, *c};
                o.exploit_inversion_symmetry = shortcut;
                return twice(o, b->size());
            });
        }
}
void jump()
{
    for(uint64_t n : {1, 2, 3, 4, 6, 9}) {
        auto b = std::make_shared<B1>(Chain(n, 1.));
        auto j = std::make_shared<FermiJump1D<double, B1>>(Chain(n, 1.), ev, 0.75);
        omp::subject(mc::str("Fermi jump, one operator, ", n), 4, tol, [=] {
            return twice([&](const auto& h) { return (*j)(*b, h); }, n);
        });
        auto k = std::make_shared<FermiJump1D_NO<double, B1>>(Chain(n, 1.), ev);
        omp::subject(mc::str("normal-ordered Fermi jump, one operator, ", n), 4, tol, [=] { return twice(*k, n); });
    }
    for(uint64_t n : {1, 2, 3, 4}) {
        auto b = std::make_shared<B3>(Chain(n, 1.));
        auto j = std::make_shared<FermiJump1D<double, B3>>(*b, Chain(n, 1.), ev, 0.75);
        omp::subject(mc::str("Fermi jump, three operators, ", n), 3, tol, [=] { return twice(*j, b->size()); });
        auto k = std::make_shared<FermiJump1D_NO<double, B3>>(Chain(n, 1.), ev);
        omp::subject(mc::str("normal-ordered Fermi jump, three operators, ", n), 4, tol, [=] { return twice(*k, b->size()); });
    }
    for(auto s : std::vector<std::pair<uint64_t, uint64_t>>{{1, 1}, {2, 1}, {1, 3}, {2, 2}}) {
        const Square l(s.first, s.second, 1., 0.5);
        auto b = std::make_shared<B3>(l);
        auto j = std::make_shared<FermiJump2D<double, B3>>(*b, l, ev, Square::Vector{0.5, 0.75});
        omp::subject(mc::str("Fermi jump in two dimensions, ", s.first, 'x', s.second), 3, tol, [=] { return twice(*j, b->size()); });
    }
}
template <typename S>
void product(const char* name)
{
    using V = blaze::DynamicVector<S, blaze::columnVector>;
    for(uint64_t n : {1, 2, 3, 5, 8}) {
        const ieompp::types::FunctionMatrix<S> m(n, n, [](std::size_t i, std::size_t j) { return S(double((i * i + 2 * j) % 5) - 2); });
        omp::subject(mc::str("product with a ", name, " matrix, ", n), 4, tol, [=] {
            V v(n);
            for(uint64_t i = 0; i < n; ++i) v[i] = S(double(i) - 0.5);
            Values r;
            for(int k = 0; k < 2; ++k) {
                ieompp::types::multiply_assign(m, v);
                for(uint64_t i = 0; i < n; ++i) {
                    r.push_back(std::real(v[i]));
                    r.push_back(std::imag(v[i]));
                }
            }
            return r;
        });
    }
}
void products()
{
    product<double>("real");
    product<C>("complex");
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"occupation", occupation}, {"jump", jump}, {"products", products}});
}

// C52 with matrices of the Eigen library: set up, read and written by several threads, on separate matrices.
#include "omp_util.hpp"
#include "seen_input.hpp"
#include <cassert>
#include <functional>
#include <memory>
#include <omp.h>
#include <sstream>
#include "ieompp/types/number.hpp"
#include "ieompp/types/dot_product.hpp"
#include "ieompp/types/eigen.hpp"
#include "ieompp/types/matrix_check.hpp"
#include "ieompp/io/eigen/sparse.hpp"

using namespace ieompp;
using omp::Values;
using C = std::complex<double>;
using Dense  = Eigen::MatrixXd;
using Sparse = Eigen::SparseMatrix<double>;
using Rows   = Eigen::SparseMatrix<C, Eigen::RowMajor>;
using Query  = std::function<Values(int)>;

// make() builds the objects, fresh in every execution; the query it returns is called by every member of the team
void shared(const std::string& what, int most, const std::function<Query()>& make)
{
    for(int t = 2; t <= most; ++t)
        MC_CASE(what, " shared by ", t, " threads")
        {
            mc::distinct(mc::hash_str(mc::str(what, '/', t)));
            std::vector<Values> got, first;
            bool same = true;
            auto run  = [&] {
                const Query q = make();
                got.assign(t, Values());
#pragma omp parallel
                {
                    const int me = omp_get_thread_num();
                    Values v     = q(me);
                    got[me]      = std::move(v);
                }
            };
            const auto st = mcomp::explore(t, mc::pick(2, 3), mc::pick(2000, 20000), run, [&] {
                if(first.empty()) first = got;
                for(int m = 0; m < t; ++m) same = same && omp::same(got[m], first[m], 1e-12);
                return same;
            });
            mcomp::set_threads(1);
            MC_CHECK(same, "the results depend on the schedule");
            for(int m = 0; m < t; ++m) {
                const Values want = make()(m);
                MC_CHECK(omp::same(first[m], want, 1e-12), "thread ", m, " gets ", omp::show(first[m]), " instead of ", omp::show(want));
            }
            MC_CHECK(st.races == 0, st.races, " pairs of unordered accesses: ", st.race_text);
            MC_COUNT("traces", st.schedules);
            MC_COUNT("states", st.points + st.schedules);
            MC_COUNT("transitions", st.schedules * (st.regions * t) + st.worksharing + st.locks);
            MC_COUNT("accesses", st.accesses);
        }
}


template <typename M>
void elements(const M& m, Values& v)
{
    v.push_back(double(m.rows()) + 100. * double(m.cols()));
    for(int i = 0; i < m.rows(); ++i)
        for(int j = 0; j < m.cols(); ++j) v.push_back(std::real(C(m.coeff(i, j))) + 10. * std::imag(C(m.coeff(i, j))));
}
template <typename M>
void set_up(const char* name)
{
    shared(mc::str("set up of ", name), 3, [] {
        auto table = std::make_shared<const std::vector<double>>(std::vector<double>{0., 1., 2.5, 0., -1., 0.5});
        return Query([=](int me) {
            using S = typename M::Scalar;
            auto f  = [&](int i, int j) { return S((*table)[(i * j + me) % 6]); };
            Values v;
            M m, k;
            types::init<M>(m, 2 + me, 3, f);
            types::init_symmetric<M>(k, 3, f);
            elements(m, v);
            elements(k, v);
            v.push_back(types::is_quadratic(m));
            return v;
        });
    });
}
template <typename M>
void text(const char* name)
{
    shared(mc::str("text of ", name), 3, [] {
        auto given = std::make_shared<const std::string>("3x2\n# comment\n2\n0 1 1.5\n\n2 0 -2\n2x2\n0\n");
        return Query([=](int me) {
            std::istringstream in(mc::str("# ", me, "\n1x", me + 1, "\n1\n0 ", me, ' ', me + 2, '\n') + *given);
            Values v;
            for(int k = 0; k < 3; ++k) {
                M m;
                io::read_matrix(in, m, 1);
                elements(m, v);
                std::ostringstream o;
                io::write_matrix(o, m);
                for(char c : o.str()) v.push_back(double(c));
            }
            return v;
        });
    });
}
void set_ups()
{
    set_up<Dense>("a dense matrix");
    set_up<Sparse>("a sparse matrix");
    set_up<Rows>("a sparse complex matrix by rows");
}
void texts()
{
    text<Sparse>("a sparse matrix");
    text<Rows>("a sparse complex matrix by rows");
}
void vectors()
{
    shared("vectors", 3, [] {
        auto a = std::make_shared<Eigen::VectorXcd>(3);
        *a << C(1., 2.), C(0., -1.), C(0.5, 0.25);
        std::shared_ptr<const Eigen::VectorXcd> c = a;
        return Query([=](int me) {
            const auto d = types::dot_product(*c, *c);
            Eigen::VectorXcd own = *c * double(me);
            const auto e = types::dot_product(own, *c);
            return Values{std::real(d), std::imag(d), std::real(e), std::imag(e)};
        });
    });
}

int main(int argc, char** argv)
{
    SeenInput::use();
    return mc::run(argc, argv, {{"set_ups", set_ups}, {"texts", texts}, {"vectors", vectors}});
}

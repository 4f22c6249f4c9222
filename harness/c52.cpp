// C52: objects that are only read, used by several threads at once; computations on separate objects.
#include "omp_util.hpp"
#include "seen_input.hpp"
#include <deque>
#include <functional>
#include <iterator>
#include <memory>
#include <omp.h>
#include "basis_util.hpp"
#include "sea_util.hpp"
#include "ieompp/types/number.hpp"
#include "ieompp/types/dot_product.hpp"
#include "ieompp/types/matrix_check.hpp"
#include "ieompp/types/triplet.hpp"
#include "ieompp/types/function_matrix.hpp"
#include "ieompp/algebra/commutator.hpp"
#include "ieompp/algebra/kronecker.hpp"
#include "ieompp/algebra/monomial/io.hpp"
#include "ieompp/algebra/operator/order.hpp"
#include "ieompp/algebra/term/checks.hpp"
#include "ieompp/algebra/term/io.hpp"
#include "ieompp/algebra/term/list.hpp"
#include "ieompp/algebra/term/order.hpp"
#include "ieompp/algebra/term/term.hpp"
#include "ieompp/symbolic/prefactor.hpp"
#include "ieompp/io/line.hpp"
#include "ieompp/tuple.hpp"
#include "ieompp/string.hpp"
#include "ieompp/models/hubbard/dispersion.hpp"
#include "ieompp/models/hubbard_momentum_space/basis.hpp"
#include "ieompp/models/hubbard_momentum_space/blaze_sparse.hpp"
#include "ieompp/models/hubbard_momentum_space/excited_fermi_sea.hpp"
#include "ieompp/models/hubbard_momentum_space/particle_number.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/blaze_sparse.hpp"
#include "ieompp/models/hubbard_real_space/blaze_sparse_no.hpp"
#include "ieompp/models/hubbard_real_space/expectation_value.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/1d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/2d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump_no.hpp"
#include "ieompp/models/hubbard_real_space/site_occupation.hpp"

using namespace bas;
using namespace ieompp;
using namespace ieompp::lattices;
using namespace ieompp::models;
namespace real = hubbard_real_space;
namespace mom  = hubbard_momentum_space;
using omp::Values;
using Chain  = PeriodicChain<double>;
using Square = PeriodicSquareLattice<double>;
using C      = std::complex<double>;
using Vec    = blaze::DynamicVector<C>;
using Matrix = blaze::CompressedMatrix<double, blaze::rowMajor>;
using CMatrix = blaze::CompressedMatrix<C, blaze::rowMajor>;
using Query  = std::function<Values(int)>;

// make() builds the objects, fresh in every execution; the query it returns is called by every member of the team
void shared(const std::string& what, int most, const std::function<Query()>& make)
{
    for(int t = 2; t <= most; ++t)
        MC_CASE(what, " shared by ", t, " threads")
        {
            mc::distinct(mc::hash_str(mc::str(what, '/', t)));
            std::vector<Values> got, first;
            bool same = true;
            auto run  = [&] {
                const Query q = make();
                got.assign(t, Values());
#pragma omp parallel
                {
                    const int me = omp_get_thread_num();
                    Values v     = q(me);
                    got[me]      = std::move(v);
                }
            };
            const auto st = mcomp::explore(t, mc::pick(2, 3), mc::pick(2000, 20000), run, [&] {
                if(first.empty()) first = got;
                for(int m = 0; m < t; ++m) same = same && omp::same(got[m], first[m], 1e-12);
                return same;
            });
            mcomp::set_threads(1);
            MC_CHECK(same, "the results depend on the schedule");
            for(int m = 0; m < t; ++m) {
                const Values want = make()(m);
                MC_CHECK(omp::same(first[m], want, 1e-12), "thread ", m, " gets ", omp::show(first[m]), " instead of ", omp::show(want));
            }
            MC_CHECK(st.races == 0, st.races, " pairs of unordered accesses: ", st.race_text);
            MC_COUNT("traces", st.schedules);
            MC_COUNT("states", st.points + st.schedules);
            MC_COUNT("transitions", st.schedules * (st.regions * t) + st.worksharing + st.locks);
            MC_COUNT("accesses", st.accesses);
        }
}

template <typename L>
void lattice_queries(const L& l, int me, Values& v)
{
    const uint64_t n = l.size();
    for(uint64_t k = 0; k < n; ++k) {
        const uint64_t i = (k * (me + 1) + me) % n, j = (i + 1 + me) % n;
        for(auto x : l.neighbors(i)) v.push_back(double(x));
        for(auto x : l.unique_neighbors(i)) v.push_back(double(x));
        v.push_back(l.neighboring(i, j));
        v.push_back(double(l.first() + l.last()));
    }
    for(auto i : l) v.push_back(double(i) + me);
}
void part_lattices()
{
    for(uint64_t n : {1, 2, 3, 5, 8})
        shared(mc::str("chain of ", n), 4, [=] {
            auto l = std::make_shared<const Chain>(n, 0.5);
            return Query([=](int me) {
                Values v;
                lattice_queries(*l, me, v);
                for(uint64_t i = 0; i < n; ++i) {
                    v.push_back((*l)[(i + me) % n]);
                    v.push_back(double(l->lattice_distance(i, (i + me) % n)));
                    v.push_back(double((*l)(0.5 * double(i + 3 * me))));
                    v.push_back(double(l->closest(0.125 * double(i) - 0.375 * me)));
                }
                v.push_back(l->dx() * me + double(l->size()));
                return v;
            });
        });
    for(auto s : std::vector<std::pair<uint64_t, uint64_t>>{{1, 1}, {2, 3}, {3, 3}, {4, 2}})
        shared(mc::str("square lattice ", s.first, 'x', s.second), 4, [=] {
            auto l = std::make_shared<const Square>(s.first, s.second, 1., 0.5);
            return Query([=](int me) {
                Values v;
                lattice_queries(*l, me, v);
                const uint64_t n = l->size();
                for(uint64_t k = 0; k < n; ++k) {
                    const uint64_t i = (k + me) % n;
                    const auto p     = (*l)[i];
                    v.push_back(p[0]);
                    v.push_back(p[1]);
                    v.push_back(double(l->lattice_distance_x(i, k)));
                    v.push_back(double(l->lattice_distance_y(i, k)));
                    v.push_back(double((*l)(p)));
                    Square::Vector q = p;
                    q[0] += 0.25 - me;
                    v.push_back(double(l->closest(q)));
                    v.push_back(double(l->index(l->x_index(i), l->y_index(i))));
                }
                v.push_back(l->lattice_vectors()[me % 2][me / 2 % 2]);
                return v;
            });
        });
}

template <typename B>
Values flatten(const B& b)
{
    Values v{double(b.size())};
    for(const auto& m : b)
        for(const auto& o : m) {
            v.push_back(o.creator);
            v.push_back(double(o.index1));
            v.push_back(o.index2);
        }
    return v;
}
void part_models()
{
    for(uint64_t n : {1, 2, 3, 4, 7}) {
        shared(mc::str("dispersion of ", n), 4, [=] {
            auto d = std::make_shared<const hubbard::Dispersion<double>>(hubbard::make_dispersion(Chain(n), Chain(n, 1.), 0.5));
            return Query([=](int me) {
                Values v;
                for(uint64_t i = 0; i < n; ++i) v.push_back((*d)((i + me) % n));
                return v;
            });
        });
        shared(mc::str("expectation values of ", n), 4, [=] {
            auto l = std::make_shared<const Chain>(n, 1.);
            auto e = std::make_shared<const real::ExpectationValue1DHalfFilled<double, Chain>>(*l, 0.5, 1.5);
            return Query([=](int me) {
                Values v{double(l->size())};
                for(uint64_t i = 0; i < n; ++i)
                    for(uint64_t j = 0; j < n; ++j) {
                        v.push_back((*e)((i + me) % n, j));
                        v.push_back(double(e->lattice_distance(j, (i + me) % n)));
                    }
                return v;
            });
        });
        shared(mc::str("basis of ", n), 3, [=] {
            auto l = std::make_shared<const Chain>(n, 1.);
            auto b = std::make_shared<const real::Basis1Operator<Monomial>>(*l);
            auto k = std::make_shared<const real::Basis3Operator<Monomial>>(Chain(std::min<uint64_t>(n, 3), 1.));
            auto q = std::make_shared<const mom::Basis3Operator<Monomial>>(n / 2, Chain(n));
            return Query([=](int me) {
                Values v = flatten(me % 2 ? b->get_conjugate() : *b);
                for(auto x : flatten(me % 3 ? k->get_conjugate() : *k)) v.push_back(x);
                for(auto x : flatten(me == 1 ? *q : q->get_conjugate())) v.push_back(x);
                v.push_back(double(k->get_3op_index(me % 2, 0, 0) + q->get_3op_index(0, n - 1)));
                return v;
            });
        });
    }
    for(auto s : std::vector<std::pair<uint64_t, uint64_t>>{{1, 1}, {2, 3}, {4, 4}})
        shared(mc::str("expectation values of ", s.first, 'x', s.second), 4, [=] {
            auto l = std::make_shared<const Square>(s.first, s.second, 1., 1.);
            auto e = std::make_shared<const real::ExpectationValue2DHalfFilled<double, Square>>(*l);
            auto d = std::make_shared<const hubbard::Dispersion<double>>(Square(s.first, s.second), *l, 0.5);
            return Query([=](int me) {
                Values v{double(l->size())};
                for(uint64_t i = 0; i < l->size(); ++i) {
                    v.push_back((*d)((i + me) % l->size()));
                    for(uint64_t j = 0; j < l->size(); ++j) v.push_back((*e)((i + me) % l->size(), j));
                }
                return v;
            });
        });
    // matrices of their own from a shared basis and lattice
    auto rows = [](const auto& m, Values& v) {
        v.push_back(double(m.rows()));
        for(std::size_t i = 0; i < m.rows(); ++i)
            for(std::size_t j = 0; j < m.columns(); ++j) v.push_back(std::real(m(i, j)));
    };
    for(uint64_t n : {1, 2, 3}) {
        shared(mc::str("matrices of ", n), 3, [=] {
            auto l = std::make_shared<const Chain>(n, 1.);
            auto b = std::make_shared<const real::Basis3Operator<Monomial>>(*l);
            auto e = std::make_shared<const real::ExpectationValue1DHalfFilled<double, Chain>>(*l, 0.5, 1.5);
            auto z = std::make_shared<const Chain>(n);
            auto q = std::make_shared<const mom::Basis3Operator<Monomial>>(n - 1, *z);
            auto d = std::make_shared<const decltype(mom::make_liouvillian(*z, *l, 0.5, 2.))>(mom::make_liouvillian(*z, *l, 0.5, 2.));
            return Query([=](int me) {
                Values v;
                CMatrix m;
                real::init_matrix(real::make_liouvillian(1. + me, 2. - me), m, *b, *l);
                rows(m, v);
                mom::init_matrix(*d, m, *q, *z);
                rows(m, v);
                if(n > 1) {
                    real::init_matrix_no(real::make_liouvillian(1. + me, 2. - me), m, *b, *l, *e);
                    rows(m, v);
                }
                return v;
            });
        });
    }
}

double ev(const Operator& a, const Operator& b)
{
    const auto i = std::min(a.index1, b.index1), j = std::max(a.index1, b.index1);
    return i == j ? 0.5 : double((3 * i + j * j) % 5) / 4 - 0.25;
}
template <typename V>
V coefficients(uint64_t n, uint64_t s)
{
    V h(n);
    for(uint64_t i = 0; i < n; ++i) h[i] = C(double((i * i * s + 3 * i + s) % 7) - 3, double((i * s + 2 * i) % 5) / 2 - 1);
    return h;
}
void observables()
{
    using B1 = real::Basis1Operator<Monomial>;
    using B3 = real::Basis3Operator<Monomial>;
    using M3 = mom::Basis3Operator<Monomial>;
    for(uint64_t n : {1, 2, 3}) {
        for(bool shortcut : {true, false})
            shared(mc::str("site occupation of ", n, shortcut), n < 3 ? 4 : 3, [=] {
                auto b = std::make_shared<const B1>(Chain(n, 1.));
                auto c = std::make_shared<const B1>(b->get_conjugate());
                auto d = std::make_shared<const B3>(Chain(n, 1.));
                auto e = std::make_shared<const B3>(d->get_conjugate());
                auto o = std::make_shared<const real::SiteOccupation<double, B1>>(real::SiteOccupation<double, B1>{ev, *b, *c});
                auto p = std::make_shared<real::SiteOccupation<double, B3>>(real::SiteOccupation<double, B3>{ev, *d, *e});
                p->exploit_inversion_symmetry = shortcut;
                std::shared_ptr<const real::SiteOccupation<double, B3>> q = p;
                return Query([=](int me) {
                    return Values{(*o)(coefficients<Vec>(n, me)), (*q)(coefficients<Vec>(d->size(), me)), (*q)(coefficients<std::vector<C>>(e->size(), me + 2)), double(b->size() + c->size())};
                });
            });
        shared(mc::str("Fermi jump of ", n), 4, [=] {
            const Chain l(n, 1.);
            auto b = std::make_shared<const B1>(l);
            auto d = std::make_shared<const B3>(l);
            auto i = std::make_shared<const real::FermiJump1D<double, B1>>(l, ev, 0.75);
            auto j = std::make_shared<const real::FermiJump1D<double, B3>>(*d, l, ev, 0.75);
            auto k = std::make_shared<const real::FermiJump1D_NO<double, B1>>(l, ev);
            auto m = std::make_shared<const real::FermiJump1D_NO<double, B3>>(l, ev);
            return Query([=](int me) {
                const auto h = coefficients<Vec>(d->size(), me);
                return Values{(*i)(*b, h), (*j)(h), (*j)(coefficients<Vec>(d->size(), me + 2)), (*k)(h), (*m)(h), i->fourier_coefficient(me % n).real()};
            });
        });
        shared(mc::str("particle number of ", n), 4, [=] {
            const Chain z(n), l(n, 1.);
            const M3 b(n - 1, z);
            auto d = std::make_shared<const hubbard::Dispersion<double>>(z, l, 1.);
            auto p = std::make_shared<const mom::ParticleNumber<double, M3>>(b, b.get_conjugate(), *d, 0.25);
            auto s = std::make_shared<const M3>(b);
            return Query([=](int me) {
                Values v{(*p)(coefficients<Vec>(s->size(), me)), (*p)(coefficients<std::vector<C>>(s->size(), me + 1))};
                // a table and seas of their own
                const mom::NonVanishingExpectationValues<uint64_t, double> t(*s, s->get_conjugate(), *d, me % 2 ? -0.25 : 0.25);
                for(auto& x : t) v.push_back(double(x.left_index * 100 + x.right_index) + x.value);
                mom::ExcitedFermiSea<Monomial> sea;
                for(auto& m : *s) {
                    auto copy = sea;
                    copy.apply_monomial(m, *d, 0.25);
                    v.push_back(copy.vanishes ? -1. : double(copy.created_particles.size() * 10 + copy.annihilated_particles.size()));
                    copy.apply_operator(m.front(), *d, 0.25);
                    v.push_back(copy.is_initial_fermi_sea());
                }
                return v;
            });
        });
    }
    for(auto s : std::vector<std::pair<uint64_t, uint64_t>>{{1, 1}, {1, 2}, {2, 1}})
        shared(mc::str("Fermi jump of ", s.first, 'x', s.second), 3, [=] {
            const Square l(s.first, s.second, 1., 0.5);
            auto d = std::make_shared<const B3>(l);
            auto j = std::make_shared<const real::FermiJump2D<double, B3>>(*d, l, ev, Square::Vector{0.5, 0.75});
            return Query([=](int me) { return Values{(*j)(coefficients<Vec>(d->size(), me)), (*j)(coefficients<Vec>(d->size(), me + 3))}; });
        });
}

template <typename T>
double code(const T& x)
{
    std::ostringstream o;
    o << x;
    double h = 0;
    for(unsigned char c : o.str()) h = std::fmod(h * 31 + c, 1e9 + 7);
    return h;
}
void computations()
{
    using Term = algebra::Term<double, Operator>;
    auto list  = [](int s) {
        std::vector<Term> v;
        for(int k = 0; k < 3; ++k) {
            Term t;
            t.prefactor = 1. + k + s;
            for(int i = 0; i < 2; ++i) t.operators.push_back(Operator{i == 0, uint64_t((k + i * s) % 3), k % 2 == 0});
            v.push_back(t);
        }
        return v;
    };
    for(int s : {0, 1, 2})
        shared(mc::str("terms ", s), 3, [=] {
            auto a = std::make_shared<const std::vector<Term>>(list(s)), b = std::make_shared<const std::vector<Term>>(list(s + 1));
            return Query([=](int me) {
                Values v;
                std::vector<Term> all;
                for(std::size_t i = 0; i < a->size(); ++i) {
                    const auto& x = (*a)[(i + me) % a->size()];
                    const auto& y = (*b)[i];
                    algebra::commutate(x, y, all);
                    const auto c = x.get_conjugate();
                    v.push_back(code(x.operators.front()) + code(c.operators.back()));
                    v.push_back(x.have_same_operators(y) + 4 * (x.operators == c.operators));
                    v.push_back(algebra::total_creations(x) + 10 * algebra::total_spin<1>(x));
                    v.push_back(algebra::OperatorSmaller<Operator>()(x.operators.front(), y.operators.front()));
                    const Monomial mx(x.operators.begin(), x.operators.end()), my(y.operators.begin(), y.operators.end()), mc(c.operators.begin(), c.operators.end());
                    auto product = mx * my;
                    product.conjugate();
                    v.push_back(code(product) + product.size());
                    v.push_back(mx.is_conjugate(mc));
                }
                std::vector<Term> sum;
                algebra::copy_as_unique_terms(all, sum);
                for(auto& t : sum) v.push_back(t.prefactor + code(t));
                return v;
            });
        });
    shared("symbols", 3, [] {
        using P = symbolic::Prefactor<double>;
        auto p  = std::make_shared<P>();
        p->value      = 2.;
        p->kroneckers = {algebra::Kronecker{"b", "a"}, algebra::Kronecker{"a", "b"}, algebra::make_kronecker(3, 4)};
        std::shared_ptr<const P> q = p;
        return Query([=](int me) {
            P x = *q * *q;
            x *= double(me);
            x.order_kroneckers();
            return Values{code(x), x.value, double(x.kroneckers.size()), code(*q), double(q->kroneckers[0] == q->kroneckers[1])};
        });
    });
    shared("text", 3, [] {
        auto t = std::make_shared<const std::string>("# comment\n\n 1 2\nrest\n");
        return Query([=](int me) {
            std::istringstream in(*t + compose(me, '/', *t));
            Values v;
            for(int k = 0; k < 3 + me; ++k) v.push_back(code(io::next_line(in)));
            std::ostringstream o;
            print_tuple(o, std::make_tuple(me, 2.5, "x"), ";");
            v.push_back(code(o.str()));
            return v;
        });
    });
    shared("matrices and numbers", 3, [] {
        auto m = std::make_shared<const types::FunctionMatrix<double>>(4, 4, [](std::size_t i, std::size_t j) { return double(i * j) + 0.5; });
        auto t = std::make_shared<types::TripletList<double, uint64_t>>();
        for(uint64_t k = 0; k < 6; ++k) t->emplace_back(0, (k * 5) % 4, 1. + double(k));
        std::shared_ptr<const types::TripletList<double, uint64_t>> c = t;
        auto z = std::make_shared<Vec>(coefficients<Vec>(3, 1));
        std::shared_ptr<const Vec> w = z;
        return Query([=](int me) {
            Values v{(*m)(me, 3), double(types::is_symmetric(*m)), double(types::is_hermitian(*m)), double(types::is_quadratic(*m))};
            auto own = *c;
            own.sort();
            for(auto& x : own.make_columns_unique()) v.push_back(double(x.column) + x.value);
            v.push_back(c->has_unique_columns());
            v.push_back(std::real(types::dot_product(*w, *w)) + me);
            v.push_back(std::imag(types::multiply_with_conjugate((*w)[0], (*w)[1])));
            v.push_back(types::IsEqual((*w)[0], (*w)[me % 3]));
            return v;
        });
    });
}

int main(int argc, char** argv)
{
    SeenInput::use();
    return mc::run(argc, argv, {{"lattices", part_lattices}, {"models", part_models}, {"observables", observables}, {"computations", computations}});
}

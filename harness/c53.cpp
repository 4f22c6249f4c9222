// C53: computations that are aborted half way: by a caller's function that throws, by memory that cannot be had.
#include "mc.hpp"
#include <cstdlib>
#include <functional>
#include <iterator>
#include <memory>
#include <new>
#include <sstream>
#ifndef ODE_EIGEN
#include "basis_util.hpp"
#include "sea_util.hpp"
#endif
#include "ode_util.hpp"
#include "ieompp/types/number.hpp"
#include "ieompp/types/dot_product.hpp"
#include "ieompp/types/matrix_check.hpp"
#ifdef ODE_EIGEN
#include "ieompp/types/eigen.hpp"
#else
#include "ieompp/types/triplet.hpp"
#include "ieompp/algebra/anticommutator.hpp"
#include "ieompp/algebra/commutator.hpp"
#include "ieompp/algebra/kronecker.hpp"
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/term.hpp"
#include "ieompp/symbolic/prefactor.hpp"
#include "ieompp/models/hubbard/dispersion.hpp"
#include "ieompp/models/hubbard_momentum_space/basis.hpp"
#include "ieompp/models/hubbard_momentum_space/blaze_sparse.hpp"
#include "ieompp/models/hubbard_momentum_space/excited_fermi_sea.hpp"
#include "ieompp/models/hubbard_momentum_space/particle_number.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/blaze_sparse.hpp"
#include "ieompp/models/hubbard_real_space/blaze_sparse_no.hpp"
#include "ieompp/models/hubbard_real_space/expectation_value.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/1d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/2d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump_no.hpp"
#include "ieompp/models/hubbard_real_space/site_occupation.hpp"
#endif

// ---- faults
enum Kind { none, memory, caller };
static Kind kind       = none;   // what fails
static bool counting   = false;  // inside the computation
static uint64_t left_  = 0;      // calls until the fault
static uint64_t seen[3];         // calls so far
static bool thrown     = false;  // the fault happened and was an exception
static int64_t blocks  = 0;      // allocated and not yet freed

static void* take(std::size_t n, bool nothrow)
{
    if(counting) {
        ++seen[memory];
        if(kind == memory && left_-- == 0) {
            if(nothrow) return nullptr;
            thrown = true;
            throw std::bad_alloc();
        }
    }
    void* p = std::malloc(n ? n : 1);
    if(!p) std::abort();
    ++blocks;
    return p;
}
static void drop(void* p) noexcept
{
    if(p) --blocks;
    std::free(p);
}
void* operator new(std::size_t n) { return take(n, false); }
void* operator new[](std::size_t n) { return take(n, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return take(n, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return take(n, true); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, std::size_t) noexcept { drop(p); }
void operator delete[](void* p, std::size_t) noexcept { drop(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { drop(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { drop(p); }

struct Stop {
};
// every function of the caller calls this first
void tick()
{
    if(!counting) return;
    ++seen[caller];
    if(kind == caller && left_-- == 0) {
        thrown = true;
        throw Stop();
    }
}

using Values = std::vector<double>;
struct Job {
    std::function<void()> run;       // the computation
    std::function<Values()> inputs;  // what must not change when it is aborted
    std::function<Values()> result;
    std::function<void()> other = {}; // another computation of the kind, with another dimension
    bool in_place = false;            // the inputs are where the result goes
};
using Make = std::function<Job()>;

enum Ended { finished, aborted };
Ended attempt(const Job& j, Kind k, uint64_t at)
{
    kind  = k;
    left_ = at;
    seen[memory] = seen[caller] = 0;
    Ended e = finished;
    thrown  = false;
    counting = true;
    try {
        j.run();
    } catch(const std::bad_alloc&) {
        e = aborted;
    } catch(const Stop&) {
        e = aborted;
    }
    counting = false;
    kind     = none;
    MC_CHECK(thrown == (e == aborted), "the exception was swallowed, call ", at);
    return e;
}
// every point at which the computation can be aborted
void scenario(const std::string& what, const Make& make)
{
    for(Kind k : {memory, caller})
        MC_CASE(what, k == memory ? ", memory runs out" : ", the caller's function throws")
        {
            mc::distinct(mc::hash_str(mc::str(what, '/', int(k))));
            Values want, given;
            uint64_t calls;
            {
                const Job j = make();
                given       = j.inputs();
                MC_CHECK(attempt(j, none, 0) == finished, "aborted without a reason");
                want  = j.result();
                calls = 0;
                for(int mode = 0; mode < 2; ++mode) { // buffers that are kept may be grown already or not
                    const Job i = make();
                    if(mode && i.other) i.other();
                    attempt(i, none, 0);
                    calls = std::max(calls, seen[k]);
                    MC_CHECK(i.result() == want, "the result depends on the history");
                }
            }
            const uint64_t step = std::max<uint64_t>(1, calls / mc::pick(3000, 100000));
            for(uint64_t at = 0; at < calls && !mc::S().stop; at += step) {
                for(int mode = 0; mode < 4; ++mode) {
                    int64_t grown[3] = {};
                    for(int round = 0; round < 3; ++round) {
                        const int64_t before = blocks;
                        {
                            Job j = make();
                            if(mode && !j.other) break;
                            if(mode & 1) j.other();
                            const Ended e = attempt(j, k, at);
                            if(e == aborted) {
                                // the stand-in for the Blaze library needs memory where Blaze needs none: a sum written in
                                // several statements may be half done. Only later computations are compared then.
                                if(k == memory && j.in_place) j = make();
                                if(j.inputs() != given) MC_CHECK(false, "aborted at ", at, " of ", calls, ": what was given changed");
                                if(mode & 2) j.other();
                                if(attempt(j, none, 0) != finished) MC_CHECK(false, "aborted at ", at, " of ", calls, ": cannot be repeated");
                                MC_COUNT("states", 1);
                            }
                            if(j.result() != want) MC_CHECK(false, e == aborted ? "repeated after it was aborted at " : "not aborted at ", at, " of ", calls, ": another result");
                            MC_COUNT("traces", 1);
                            MC_COUNT("transitions", calls);
                        }
                        grown[round] = blocks - before;
                    }
                    if(mode && grown[2] == 0 && grown[1] == 0 && grown[0] == 0) continue;
                    MC_CHECK(grown[1] <= 0 || grown[2] <= 0, "aborted at ", at, " of ", calls, ": ", grown[2], " blocks of memory are lost");
                }
            }
            MC_CHECK(true, "");
        }
}

using C = std::complex<double>;
#ifdef ODE_EIGEN
template <typename S>
using Vec_ = Eigen::Matrix<S, Eigen::Dynamic, 1>;
#else
template <typename S>
using Vec_ = blaze::DynamicVector<S>;
#endif
template <typename V>
Values numbers(const V& v)
{
    Values r{double(v.size())};
    for(std::size_t i = 0; i < std::size_t(v.size()); ++i) {
        r.push_back(std::real(C(v[i])));
        r.push_back(std::imag(C(v[i])));
    }
    return r;
}
template <typename S>
S number(int k);
template <> double number(int k) { return (k * 5 % 7) * 0.25 - 0.5; }
template <> C number(int k) { return C((k * 5 % 7) * 0.25 - 0.5, (k * 3 % 5) * 0.5 - 1.); }
template <typename S>
Vec_<S> vec(int n, int s)
{
    Vec_<S> v(n);
    for(int i = 0; i < n; ++i) v[i] = number<S>(i + s);
    return v;
}
template <typename S>
ieompp::types::FunctionMatrix<S> function(int n, int s)
{
    return ieompp::types::FunctionMatrix<S>(n, n, [=](std::size_t i, std::size_t j) {
        tick();
        return number<S>(int(2 * i + 3 * j) + s);
    });
}
// integration steps and products
template <typename S>
void steps_of(const char* name)
{
    for(int n = 1; n <= int(mc::pick(5, 8)); ++n)
        for(int s = 0; s < 3; ++s) {
            scenario(mc::str(name, " step of a function, dimension ", n, " ", s), [=] {
                auto u = std::make_shared<Vec_<S>>(vec<S>(n, s));
                auto m = std::make_shared<const ieompp::types::FunctionMatrix<S>>(function<S>(n, s));
                return Job{[=] { ieompp::ode::RK4<double>(n, 0.5).step(*m, *u); }, [=] { return numbers(*u); }, [=] { return numbers(*u); },
                           [=] {
                               auto w = vec<S>(s ? n + 2 : 1, s);
                               ieompp::ode::RK4<double>(w.size(), 0.25).step(function<S>(int(w.size()), 1), w);
                           }, true};
            });
            scenario(mc::str(name, " product with a function, dimension ", n, " ", s), [=] {
                auto u = std::make_shared<Vec_<S>>(vec<S>(n, s));
                auto m = std::make_shared<const ieompp::types::FunctionMatrix<S>>(function<S>(n, s));
                return Job{[=] { ieompp::types::multiply_assign(*m, *u); }, [=] { return numbers(*u); }, [=] { return numbers(*u); },
                           [=] {
                               auto w = vec<S>(s ? n + 1 : 1, s);
                               ieompp::types::multiply_assign(function<S>(int(w.size()), 2), w);
                           }, true};
            });
#ifdef ODE_EIGEN
            using Dense  = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
            using Sparse = Eigen::SparseMatrix<S>;
            scenario(mc::str(name, " set up, dimension ", n, " ", s), [=] {
                auto d = std::make_shared<Dense>();
                auto p = std::make_shared<Sparse>();
                auto t = std::make_shared<std::vector<double>>();
                return Job{[=] {
                               auto f = [=](int i, int j) {
                                   tick();
                                   return number<S>(i * j + s);
                               };
                               ieompp::types::init<Dense>(*d, n, n, f);
                               ieompp::types::init_symmetric<Sparse>(*p, n, f);
                               Dense e;
                               Sparse q;
                               ieompp::types::init_symmetric<Dense>(e, n, f);
                               ieompp::types::init<Sparse>(q, n, n, f);
                               *t = {std::real(C(e.sum())), std::real(C(q.sum()))};
                           },
                           [=] { return Values(); },
                           [=] {
                               Values v = *t;
                               for(int i = 0; i < n; ++i)
                                   for(int j = 0; j < n; ++j) {
                                       v.push_back(std::real(C((*d)(i, j))));
                                       v.push_back(std::imag(C(p->coeff(i, j))));
                                   }
                               return v;
                           }};
            });
#else
            using Dense  = blaze::DynamicMatrix<S>;
            using Sparse = blaze::CompressedMatrix<S>;
            auto filled  = [=](auto& m) {
                for(int i = 0; i < n; ++i)
                    for(int j = 0; j < n; ++j) m(i, j) = number<S>(2 * i + 3 * j + s);
            };
            scenario(mc::str(name, " step of a matrix, dimension ", n, " ", s), [=] {
                auto u = std::make_shared<Vec_<S>>(vec<S>(n, s));
                auto m = std::make_shared<Dense>(n, n);
                filled(*m);
                return Job{[=] { ieompp::ode::RK4<double>(n, 0.5).step(*m, *u); }, [=] { return numbers(*u); }, [=] { return numbers(*u); }, {}, true};
            });
            scenario(mc::str(name, " step of a sparse matrix, dimension ", n, " ", s), [=] {
                auto u = std::make_shared<Vec_<S>>(vec<S>(n, s));
                auto m = std::make_shared<Sparse>(n, n);
                filled(*m);
                return Job{[=] { ieompp::ode::RK4<double>(n, 0.5).step(*m, *u); }, [=] { return numbers(*u); }, [=] { return numbers(*u); }, {}, true};
            });
#endif
            scenario(mc::str(name, " printing of a function, dimension ", n, " ", s), [=] {
                auto m   = std::make_shared<const ieompp::types::FunctionMatrix<S>>(function<S>(n, s));
                auto out = std::make_shared<std::ostringstream>();
                out->precision(4);
                out->setf(std::ios::uppercase);
                out->str(std::string(4096, ' ')); // the text needs no memory
                return Job{[=] {
                               const bool armed = counting;
                               out->seekp(0);
                               counting = armed && kind != memory;
                               try {
                                   *out << *m;
                               } catch(...) {
                                   counting = armed;
                                   throw;
                               }
                               counting = armed;
                           },
                           [=] { return Values{double(out->flags()), double(out->precision()), double(out->width()), double(out->fill()), double(out->good())}; },
                           [=] {
                               Values v;
                               for(char x : out->str().substr(0, 200)) v.push_back(x);
                               return v;
                           }};
            });
            scenario(mc::str(name, " predicates of a function, dimension ", n, " ", s), [=] {
                auto m = std::make_shared<const ieompp::types::FunctionMatrix<S>>(function<S>(n, s));
                auto k = std::make_shared<const ieompp::types::FunctionMatrix<S>>(function<S>(n, s));
                auto r = std::make_shared<Values>();
                return Job{[=] { *r = {double(*m == *k), double(*m != *k), double(is_symmetric(*m)), double(is_hermitian(*m)), double(is_quadratic(*m))}; }, [=] { return Values(); }, [=] { return *r; }};
            });
        }
}
void steps()
{
    steps_of<double>("real");
    steps_of<C>("complex");
}

#ifndef ODE_EIGEN
using namespace bas;
using namespace ieompp;
using namespace ieompp::lattices;
using namespace ieompp::models;
namespace real_ = hubbard_real_space;
namespace mom   = hubbard_momentum_space;
using Chain   = PeriodicChain<double>;
using Square  = PeriodicSquareLattice<double>;
using Term    = algebra::Term<double, Operator>;
using Terms   = std::vector<Term>;
using SymOp   = algebra::Operator<uint64_t, std::string>;
using CMatrix = blaze::CompressedMatrix<C, blaze::rowMajor>;

double code(const Operator& o) { return double(o.creator) + 2. * double(o.index2) + 4. * double(o.index1); }
template <typename M>
void put(Values& v, const M& ops)
{
    v.push_back(double(ops.size()));
    for(auto& o : ops) v.push_back(code(o));
}
template <typename B>
Values flatten(const B& b)
{
    Values v{double(b.size())};
    for(std::size_t i = 0; i < b.size(); ++i) put(v, b[i]);
    return v;
}
Values digest(const Terms& t)
{
    Values v{double(t.size())};
    for(auto& x : t) {
        v.push_back(x.prefactor);
        put(v, x.operators);
    }
    return v;
}
Terms terms(int s, int count, int length)
{
    Terms v;
    for(int k = 0; k < count; ++k) {
        Term t;
        t.prefactor = 1. + k + s;
        for(int i = 0; i < length; ++i) t.operators.push_back(Operator{(i + s) % 2 == 0, uint64_t((k + i * s + i) % 2), (k + i) % 2 == 0});
        v.push_back(t);
    }
    return v;
}
void algebra_()
{
    for(int s = 0; s < 4; ++s)
        for(int la = 1; la <= int(mc::pick(4, 5)); ++la)
            for(int lb = 1; lb <= int(mc::pick(4, 5)); ++lb) {
                if(la * lb % 2) continue;
                scenario(mc::str("commutator of terms with ", la, " and ", lb, " operators ", s), [=] {
                    auto a = std::make_shared<const Terms>(terms(s, 2, la)), b = std::make_shared<const Terms>(terms(s + 1, 2, lb));
                    auto r = std::make_shared<Terms>();
                    return Job{[=] {
                                   Terms all, sum;
                                   for(auto& x : *a)
                                       for(auto& y : *b) algebra::commutate(x, y, all);
                                   algebra::copy_as_unique_terms(all, sum);
                                   r->swap(sum);
                               },
                               [=] {
                                   Values v = digest(*a);
                                   for(auto x : digest(*b)) v.push_back(x);
                                   return v;
                               },
                               [=] { return digest(*r); }};
                });
            }
    for(int s = 0; s < 4; ++s)
        for(int l = 1; l <= 5; ++l)
            scenario(mc::str("products of ", l, " operators ", s), [=] {
                auto t = std::make_shared<const Terms>(terms(s, 3, l));
                auto r = std::make_shared<Values>();
                return Job{[=] {
                               Values v;
                               for(auto& x : *t) {
                                   const Monomial m(x.operators.begin(), x.operators.end());
                                   auto p = m * m.get_conjugate();
                                   p *= m;
                                   put(v, p);
                                   const auto c = x.get_conjugate();
                                   auto q       = c * x;
                                   q *= x;
                                   put(v, q.operators);
                                   v.push_back(q.prefactor + double(m.is_conjugate(p)) + double(x.have_same_operators(q)));
                               }
                               r->swap(v);
                           },
                           [=] { return digest(*t); }, [=] { return *r; }};
            });
    for(int l = 0; l <= 5; ++l)
        scenario(mc::str("prefactors with ", l, " Kronecker deltas"), [=] {
            using P = symbolic::Prefactor<double>;
            P p;
            p.value = 2.;
            for(int k = 0; k < l; ++k) p.kroneckers.push_back(k % 2 ? algebra::Kronecker{"b" + std::to_string(k), "a very long name of an index indeed"} : algebra::make_kronecker(k, 3));
            auto q = std::make_shared<const P>(p);
            auto r = std::make_shared<Values>();
            return Job{[=] {
                           P x = *q * *q;
                           x *= 3.;
                           x.order_kroneckers();
                           Values v{x.value, double(x.kroneckers.size())};
                           for(auto& k : x.kroneckers) {
                               v.push_back(double(k.a.size() * 100 + k.b.size()));
                               v.push_back(double(k.a.empty() ? 0 : k.a[0]));
                           }
                           r->swap(v);
                       },
                       [=] { return Values{q->value, double(q->kroneckers.size())}; }, [=] { return *r; }};
        });
    for(int n = 0; n <= 8; ++n)
        scenario(mc::str("list of ", n, " entries"), [=] {
            auto t = std::make_shared<types::TripletList<double, uint64_t>>();
            for(int k = 0; k < n; ++k) t->emplace_back(0, (k * 5) % 3, 1. + double(k));
            std::shared_ptr<const types::TripletList<double, uint64_t>> c = t;
            auto r     = std::make_shared<Values>();
            auto given = [=] {
                Values v;
                for(auto& x : *c) v.push_back(double(x.column) + 10. * x.value);
                return v;
            };
            return Job{[=] {
                           auto own = *c;
                           own.sort();
                           Values v;
                           for(auto& x : own.make_columns_unique()) v.push_back(double(x.column) + 10. * x.value);
                           r->swap(v);
                       },
                       given, [=] { return *r; }};
        });
}

template <typename M>
Values rows(const M& m)
{
    Values v{double(m.rows())};
    for(std::size_t i = 0; i < m.rows(); ++i)
        for(std::size_t j = 0; j < m.columns(); ++j) v.push_back(std::real(m(i, j)));
    return v;
}
double ev(const Operator& a, const Operator& b)
{
    tick();
    const auto i = std::min(a.index1, b.index1), j = std::max(a.index1, b.index1);
    return i == j ? 0.5 : double((3 * i + j * j) % 5) / 4 - 0.25;
}
struct Table {
    double operator()(uint64_t a, uint64_t b) const
    {
        tick();
        return a == b ? 0.5 : double((a + b) % 3) / 4;
    }
};
struct Energies {
    using Float = double;
    double operator()(uint64_t i) const
    {
        tick();
        return double((i * 3) % 4) - 1.5;
    }
};
void models_()
{
    for(uint64_t n : {1, 2, 3}) {
        scenario(mc::str("bases of ", n), [=] {
            auto r = std::make_shared<Values>();
            return Job{[=] {
                           const Chain l(n, 1.);
                           const real_::Basis1Operator<Monomial> a(l);
                           const real_::Basis3Operator<Monomial> b(l);
                           const mom::Basis3Operator<Monomial> c(n - 1, Chain(n));
                           const auto d = a.get_conjugate();
                           const auto e = b.get_conjugate();
                           const auto f = c.get_conjugate();
                           const bool armed = counting;
                           counting         = false;
                           Values v;
                           for(auto& w : std::vector<Values>{flatten(a), flatten(b), flatten(c), flatten(d), flatten(e), flatten(f)}) v.insert(v.end(), w.begin(), w.end());
                           r->swap(v);
                           counting = armed;
                       },
                       [=] { return Values(); }, [=] { return *r; }};
        });
        scenario(mc::str("tables of ", n), [=] {
            auto r = std::make_shared<Values>();
            return Job{[=] {
                           const Chain l(n, 1.), z(n);
                           const hubbard::Dispersion<double> d(z, l, 0.5);
                           const real_::ExpectationValue1DHalfFilled<double, Chain> e(l, 0.5, 1.5);
                           const Square s(n, 2, 1., 1.);
                           const real_::ExpectationValue2DHalfFilled<double, Square> f(s);
                           Values v{d(0), d(n - 1), e(0, n - 1), f(0, 2 * n - 1)};
                           r->swap(v);
                       },
                       [=] { return Values(); }, [=] { return *r; }};
        });
    }
    for(uint64_t n : {1, 2, 3}) {
        if(n == 3 && !mc::thorough()) continue;
        scenario(mc::str("matrices of ", n), [=] {
            auto l = std::make_shared<const Chain>(n, 1.);
            auto b = std::make_shared<const real_::Basis3Operator<Monomial>>(*l);
            auto z = std::make_shared<const Chain>(n);
            auto q = std::make_shared<const mom::Basis3Operator<Monomial>>(n - 1, *z);
            auto m = std::make_shared<CMatrix>(), k = std::make_shared<CMatrix>(), o = std::make_shared<CMatrix>();
            return Job{[=] {
                           real_::init_matrix(real_::make_liouvillian(1., 2.), *m, *b, *l);
                           mom::init_matrix(mom::make_liouvillian(*z, *l, 0.5, 2.), *k, *q, *z);
                           real_::init_matrix_no(real_::make_liouvillian(1., 2.), *o, *b, *l, Table());
                       },
                       [=] { return Values{double(b->size()), double(q->size()), double(b->N)}; },
                       [=] {
                           Values v = rows(*m);
                           for(auto& w : std::vector<Values>{rows(*k), rows(*o)}) v.insert(v.end(), w.begin(), w.end());
                           return v;
                       }};
        });
    }
}
template <typename V>
V coefficients(uint64_t n, uint64_t s)
{
    V h(n);
    for(uint64_t i = 0; i < n; ++i) h[i] = C(double((i * i * s + 3 * i + s) % 7) - 3, double((i * s + 2 * i) % 5) / 2 - 1);
    return h;
}
void observables()
{
    using B1  = real_::Basis1Operator<Monomial>;
    using B3  = real_::Basis3Operator<Monomial>;
    using M3  = mom::Basis3Operator<Monomial>;
    using Vec = blaze::DynamicVector<C>;
    for(uint64_t n : {1, 2}) {
        for(bool shortcut : {true, false})
            scenario(mc::str("site occupation of ", n, shortcut), [=] {
                auto b = std::make_shared<const B1>(Chain(n, 1.));
                auto c = std::make_shared<const B1>(b->get_conjugate());
                auto d = std::make_shared<const B3>(Chain(n, 1.));
                auto e = std::make_shared<const B3>(d->get_conjugate());
                auto o = std::make_shared<const real_::SiteOccupation<double, B1>>(real_::SiteOccupation<double, B1>{ev, *b, *c});
                auto p = std::make_shared<real_::SiteOccupation<double, B3>>(real_::SiteOccupation<double, B3>{ev, *d, *e});
                p->exploit_inversion_symmetry = shortcut;
                auto g = std::make_shared<const Vec>(coefficients<Vec>(n, 1)), h = std::make_shared<const Vec>(coefficients<Vec>(d->size(), 2));
                auto r = std::make_shared<Values>();
                return Job{[=] { *r = {(*o)(*g), (*p)(*h), double(b->size() + c->size() + d->size() + e->size())}; }, [=] { return numbers(*h); }, [=] { return *r; }};
            });
        scenario(mc::str("Fermi jump of ", n), [=] {
            auto l = std::make_shared<const Square>(n, 1, 1., 0.5);
            auto d = std::make_shared<const B3>(*l);
            auto h = std::make_shared<const Vec>(coefficients<Vec>(d->size(), 2));
            auto r = std::make_shared<Values>();
            return Job{[=] {
                           const Chain c(n, 1.);
                           const B1 b(c);
                           const real_::FermiJump1D<double, B1> i(c, ev, 0.75);
                           const real_::FermiJump1D<double, B3> j(*d, c, ev, 0.75);
                           const real_::FermiJump1D_NO<double, B3> k(c, ev);
                           const real_::FermiJump2D<double, B3> m(*d, *l, ev, Square::Vector{0.5, 0.75});
                           Values v{i(b, *h), j(*h), k(*h), m(*h)};
                           r->swap(v);
                       },
                       [=] { return numbers(*h); }, [=] { return *r; }};
        });
    }
    for(uint64_t n : {1, 2, 3})
        scenario(mc::str("particle number of ", n), [=] {
            auto b = std::make_shared<const M3>(n - 1, Chain(n));
            auto c = std::make_shared<const M3>(b->get_conjugate());
            auto h = std::make_shared<const Vec>(coefficients<Vec>(b->size(), 2));
            auto r = std::make_shared<Values>();
            return Job{[=] {
                           const mom::ParticleNumber<double, M3> p(*b, *c, Energies(), 0.25);
                           const mom::NonVanishingExpectationValues<uint64_t, double> t(*b, *c, Energies(), -0.25);
                           Values v{p(*h), double(t.size())};
                           for(auto& m : *b) {
                               mom::ExcitedFermiSea<Monomial> sea;
                               sea.apply_monomial(m, Energies(), 0.25);
                               v.push_back(sea.vanishes ? -1. : double(sea.created_particles.size() * 10 + sea.annihilated_particles.size()));
                           }
                           r->swap(v);
                       },
                       [=] { return numbers(*h); }, [=] { return *r; }};
        });
}
#endif

int main(int argc, char** argv)
{
#ifdef ODE_EIGEN
    return mc::run(argc, argv, {{"steps", steps}});
#else
    return mc::run(argc, argv, {{"steps", steps}, {"algebra", algebra_}, {"models", models_}, {"observables", observables}});
#endif
}

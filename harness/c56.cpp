// C56: objects own what they need. Every sequence of making, copying, moving, swapping, changing and destroying objects
// of a class, in lockstep with a model; what an object was made from is gone (and overwritten) before it is used.
#include "mc.hpp"

#include <cassert>
#include <cmath>
#include <complex>
#include <exception>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <sstream>
#include <type_traits>

#include <blaze/Math.h>
#include "ieompp/types/blaze.hpp"
#include "ieompp/types/blaze/dot_product.hpp"
#include "ieompp/types/number.hpp"
#include "ieompp/types/dot_product.hpp"
#include "ieompp/types/function_matrix.hpp"
#include "ieompp/types/blaze/multiply_assign.hpp"
#include "ieompp/types/triplet.hpp"
#include "ieompp/exception.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/term.hpp"
#include "ieompp/algebra/commutator.hpp"
#include "ieompp/iterators/integer_iterator.hpp"
#include "ieompp/symbolic/index.hpp"
#include "ieompp/symbolic/prefactor.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/liouvillian.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/1d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/2d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump_no.hpp"
#include "ieompp/models/hubbard_real_space/site_occupation.hpp"
#include "ieompp/models/hubbard_real_space/expectation_value.hpp"
#include "ieompp/models/hubbard_momentum_space.hpp"
#include "ieompp/models/hubbard_momentum_space/excited_fermi_sea.hpp"
#include "ieompp/models/hubbard_momentum_space/particle_number.hpp"
#include "ieompp/ode/rk4.hpp"

using namespace ieompp;
using namespace ieompp::lattices;
namespace rs = models::hubbard_real_space;
namespace ms = models::hubbard_momentum_space;
namespace hb = models::hubbard;
using Op     = algebra::Operator<uint64_t, bool>;
using SOp    = algebra::Operator<std::string, bool>;
using Mono   = algebra::Monomial<Op>;
using B1     = rs::Basis1Operator<Mono>;
using B3     = rs::Basis3Operator<Mono>;
using MB     = ms::Basis3Operator<Mono>;
using Chain  = PeriodicChain<double>;
using Square = PeriodicSquareLattice<double>;
using C      = std::complex<double>;
using EvFunction = std::function<double(const Op&, const Op&)>;

// a member of which an object was made: on the heap, overwritten and given back when it goes
template <typename T>
struct Gone {
    std::unique_ptr<T> p;
    template <typename... A>
    explicit Gone(A&&... a) : p(new T(std::forward<A>(a)...)) {}
    operator const T&() const { return *p; }
    const T& operator*() const { return *p; }
    T& get() { return *p; }
};

std::string num(double x)
{
    char b[40];
    std::snprintf(b, sizeof b, "%a,", x);
    return b;
}
std::string num(const C& x) { return num(x.real()) + num(x.imag()); }
std::vector<C> vec(std::size_t n)
{
    std::vector<C> v(n);
    for(std::size_t i = 0; i < n; ++i) v[i] = C(double(i * i % 5) - 2, 0);
    return v;
}

template <typename T>
struct Class {
    std::string name;
    std::function<std::unique_ptr<T>(int)> make;
    std::function<std::string(const T&)> show;
    std::function<void(T&)> change; // may be empty
};

struct Slot {
    int which   = -1; // nothing to be observed: destroyed or moved from
    int changes = 0;
};

// operations that not every class has
template <typename T>
bool copy_assign(T& a, const T& b, std::true_type) { a = b; return true; }
template <typename T>
bool copy_assign(T&, const T&, std::false_type) { return false; }
template <typename T>
bool move_assign(T& a, T& b, std::true_type) { a = std::move(b); return true; }
template <typename T>
bool move_assign(T&, T&, std::false_type) { return false; }
template <typename T>
bool exchange(T& a, T& b, std::true_type) { using std::swap; swap(a, b); return true; }
template <typename T>
bool exchange(T&, T&, std::false_type) { return false; }

enum { MAKE0, MAKE1, COPY, MOVE, COPY_ASSIGN, MOVE_ASSIGN, SELF, SWAP, CHANGE, DESTROY, VECTOR, FUNCTION, OPS };
const char* const ops[] = {"make first", "make second", "copy", "move", "copy-assign", "move-assign", "assign to itself", "swap", "change", "destroy", "through a vector", "through a closure"};

template <typename T>
bool apply(const Class<T>& k, std::unique_ptr<T>* s, Slot* m, int op, int a)
{
    using CA = std::is_copy_assignable<T>;
    using MA = std::is_move_assignable<T>;
    const int b = 1 - a;
    switch(op) {
    case MAKE0:
    case MAKE1:
        s[a].reset();
        s[a] = k.make(op);
        m[a] = {op, 0};
        return true;
    case COPY: // into b
        if(m[a].which < 0) return false;
        s[b].reset(new T(*s[a]));
        m[b] = m[a];
        return true;
    case MOVE:
        if(m[a].which < 0) return false;
        s[b].reset(new T(std::move(*s[a])));
        m[b]       = m[a];
        m[a].which = -1;
        return true;
    case COPY_ASSIGN:
        if(m[a].which < 0 || !s[b] || !copy_assign(*s[b], *s[a], CA())) return false;
        m[b] = m[a];
        return true;
    case MOVE_ASSIGN:
        if(m[a].which < 0 || !s[b] || !move_assign(*s[b], *s[a], MA())) return false;
        m[b]       = m[a];
        m[a].which = -1;
        return true;
    case SELF: {
        if(m[a].which < 0) return false;
        const T& self = *s[a];
        return copy_assign(*s[a], self, CA());
    }
    case SWAP:
        if(a || m[0].which < 0 || m[1].which < 0 || !exchange(*s[0], *s[1], MA())) return false;
        std::swap(m[0], m[1]);
        return true;
    case CHANGE:
        if(m[a].which < 0 || !k.change) return false;
        k.change(*s[a]);
        ++m[a].changes;
        return true;
    case DESTROY:
        if(!s[a]) return false;
        s[a].reset();
        m[a].which = -1;
        return true;
    case VECTOR: {
        if(m[a].which < 0) return false;
        std::vector<T> v;
        for(int i = 0; i < 5; ++i) v.push_back(*s[a]);
        s[a].reset();
        v.emplace_back(v.front());
        s[a].reset(new T(v[2]));
        return true;
    }
    case FUNCTION: {
        if(m[a].which < 0) return false;
        const T copy              = *s[a];
        std::function<const T*()> f = [copy] { return &copy; };
        std::function<const T*()> g = f;
        f                           = nullptr;
        s[a].reset(new T(*g()));
        return true;
    }
    }
    return false;
}

template <typename T>
void explore(const Class<T>& k)
{
    std::map<std::pair<int, int>, std::string> known;
    auto want = [&](const Slot& m) -> const std::string& {
        auto& x = known[{m.which, m.changes}];
        if(x.empty()) {
            auto o = k.make(m.which);
            for(int i = 0; i < m.changes; ++i) k.change(*o);
            x = "<" + k.show(*o) + ">";
        }
        return x;
    };
    const int depth = mc::pick(3, 4);
    for(int first = 0; first < 2 * OPS; ++first)
        MC_CASE(k.name, ": ", ops[first % OPS], ' ', first / OPS)
        {
            mc::distinct(mc::hash_str(mc::str(k.name, first)));
            MC_CHECK(want({0, 0}) != want({1, 0}), k.name, ": the two objects look the same");
            std::vector<int> seq{first};
            while(!seq.empty()) {
                // replay the sequence on new objects
                std::unique_ptr<T> s[2] = {k.make(0), k.make(1)};
                Slot m[2]               = {{0, 0}, {1, 0}};
                bool valid              = true;
                std::string done;
                for(std::size_t i = 0; valid && i < seq.size(); ++i) {
                    valid = apply(k, s, m, seq[i] % OPS, seq[i] / OPS);
                    done += mc::str(ops[seq[i] % OPS], ' ', seq[i] / OPS, "; ");
                    MC_COUNT("transitions", 1);
                }
                if(valid) {
                    MC_COUNT("traces", 1);
                    for(int i = 0; i < 2; ++i)
                        if(m[i].which >= 0) {
                            const auto got = "<" + k.show(*s[i]) + ">";
                            MC_COUNT("states", 1);
                            MC_CHECK(got == want(m[i]), k.name, " after ", done, "object ", i, " is ", got.substr(0, 300), " expected ", want(m[i]).substr(0, 300));
                        }
                }
                if(mc::S().stop) break;
                if(valid && int(seq.size()) < depth) {
                    seq.push_back(0);
                    continue;
                }
                while(seq.size() > 1 && seq.back() + 1 == 2 * OPS) seq.pop_back();
                if(seq.size() == 1) break;
                ++seq.back();
            }
        }
}
template <typename T>
Class<T> cls(const std::string& name, std::function<std::unique_ptr<T>(int)> make, std::function<std::string(const T&)> show, std::function<void(T&)> change = nullptr)
{
    return {name, make, show, change};
}
template <typename T, typename... A>
std::unique_ptr<T> neu(A&&... a) { return std::unique_ptr<T>(new T(std::forward<A>(a)...)); }
template <typename T>
std::unique_ptr<T> made(T t) { return std::unique_ptr<T>(new T(std::move(t))); }

std::string show(const Op& o) { return mc::str(o.creator, o.index1, o.index2, ' '); }
std::string show(const Mono& m)
{
    std::string s;
    for(auto& o : m) s += show(o);
    return s + "|";
}
template <typename B>
std::string show_all(const B& b)
{
    std::string s = mc::str(b.N, ':');
    for(auto& m : b) s += show(m);
    return s;
}

void algebraic()
{
    explore(cls<SOp>("operator with names", [](int w) {
        Gone<std::string> n(w ? "a name that is longer than most" : "k");
        return made(algebra::make_creator(*n, w == 1));
    }, [](const SOp& o) { return mc::str(o.creator, o.index1, o.index2); }, [](SOp& o) { o.conjugate(); }));
    explore(cls<Mono>("product", [](int w) {
        std::vector<Op> ops;
        for(int i = 0; i < 2 + w; ++i) ops.push_back(Op{i % 2 == 0, uint64_t(i), w == 1});
        return w ? made(Mono{{ops[0], ops[1], ops[2]}}) : made(Mono{{ops[0], ops[1]}});
    }, [](const Mono& m) { return show(m); }, [](Mono& m) { m.conjugate(); m *= m; }));
    using T = algebra::Term<C, Op>;
    explore(cls<T>("term", [](int w) {
        Gone<C> p(w + 1., 2.);
        return made(w ? algebra::make_term(C(*p), {Op{true, 3, true}, Op{false, 1, true}}) : algebra::make_term(C(*p), {Op{false, 7, false}}));
    }, [](const T& t) { return num(t.prefactor) + show(Mono(t.operators.begin(), t.operators.end())); }, [](T& t) { t.conjugate(); t *= t; }));
    using P = symbolic::Prefactor<double>;
    explore(cls<P>("prefactor", [](int w) {
        Gone<std::string> a(w ? "another long name of an index" : "b"), b("a");
        return made(symbolic::make_prefactor(w + 0.5, {algebra::make_kronecker(*a, *b)}));
    }, [](const P& p) { return mc::str(num(p.value), p); }, [](P& p) { p *= p; p.order_kroneckers(); }));
    using I = symbolic::Index<symbolic::IndexTypeMomentum>;
    explore(cls<I>("symbolic index", [](int w) {
        Gone<std::string> a(w ? "another long name of an index" : "b");
        return made(I(*a));
    }, [](const I& i) { return i.index; }));
    using It = iterators::IntegerIterator<int64_t, false>;
    explore(cls<It>("iterator", [](int w) { Gone<int64_t> x(w * 7); return made(It(*x)); }, [](const It& i) { It c(i); return mc::str(*c); }, [](It& i) { ++i; }));
    using Tr = types::TripletList<double, uint64_t>;
    explore(cls<Tr>("list of entries", [](int w) {
        Gone<Tr> l;
        for(int i = 0; i < 4 + w; ++i) l.get().emplace_back(0, uint64_t(i * 3 % 4), i + 0.5);
        l.get().sort();
        return made(l.get().make_columns_unique());
    }, [](const Tr& l) { std::string s; for(auto& t : l) s += mc::str(t.row, ',', t.column, ',', num(t.value)); return s; }, [](Tr& l) { l.emplace_back(0, l.back().column, 1.); l = l.make_columns_unique(); }));
    using S = ms::ExcitedFermiSea<Mono>;
    struct Disp { using Float = double; double operator()(uint64_t i) const { return double(i) - 2.5; } };
    explore(cls<S>("excited sea", [](int w) {
        auto s = neu<S>();
        s->apply_operator(Op{false, 1, true}, Disp{}, 0.);
        if(w) s->apply_operator(Op{true, 4, false}, Disp{}, 0.);
        return s;
    }, [](const S& s) {
        std::string r = mc::str(s.vanishes, s.is_initial_fermi_sea(), ' ');
        for(auto& l : {s.created_particles, s.annihilated_particles}) {
            for(auto& i : l) r += mc::str(std::get<0>(i), std::get<1>(i), ' ');
            r += '|';
        }
        return r;
    }, [](S& s) { s.apply_operator(Op{true, 5, true}, Disp{}, 0.); }));
    explore(cls<Exception>("exception", [](int w) { Gone<std::string> m(w ? "a message that is longer than most" : "x"); return neu<Exception>(*m); }, [](const Exception& e) { return std::string(e.what()); }));
    explore(cls<Exception>("exception of a literal", [](int w) {
        std::vector<char> m;
        for(char c : std::string(w ? "a message that is longer than most" : "x")) m.push_back(c);
        m.push_back(0);
        return neu<Exception>(m.data());
    }, [](const Exception& e) { return std::string(e.what()); }));
    explore(cls<NotImplemented>("thrown exception", [](int w) {
        std::exception_ptr p;
        try {
            Gone<std::string> f("file"), m(w ? "a message that is longer than most" : "x");
            throw create_exception<NotImplemented>(*f, 3, *m);
        } catch(const Exception&) {
            p = std::current_exception();
        }
        try {
            std::rethrow_exception(p);
        } catch(const NotImplemented& e) {
            return neu<NotImplemented>(e);
        }
    }, [](const NotImplemented& e) { return std::string(e.what()); }));
}

template <typename L>
std::string show_chain(const L& l)
{
    std::string s = mc::str(l.size(), ',', num(l.dx()), num(l.x_min()), num(l.x_max()), num(l.x_length()));
    for(auto i : l) {
        s += num(l[i]) + mc::str(l(l[i]), ' ');
        for(auto n : l.neighbors(i)) s += mc::str(n, ' ');
        for(auto n : l.unique_neighbors(i)) s += mc::str(n, ' ');
        for(auto j : l) s += mc::str(l.lattice_distance(i, j), l.neighboring(i, j));
    }
    for(auto& v : l.lattice_vectors()) s += num(v);
    return s;
}
std::string show_square(const Square& l)
{
    std::string s = mc::str(l.size(), ',', l.size_x(), num(l.dx()), num(l.dy()), num(l.x_length()), num(l.y_length()));
    for(auto i : l) {
        const auto r = l[i];
        s += num(r[0]) + num(r[1]) + mc::str(l(r), ' ');
        for(auto n : l.neighbors(i)) s += mc::str(n, ' ');
        for(auto j : l) s += mc::str(l.lattice_distance_x(i, j), l.lattice_distance_y(i, j));
    }
    for(auto& v : l.lattice_vectors()) s += num(v[0]) + num(v[1]);
    return s;
}
void lattices_and_bases()
{
    explore(cls<Chain>("chain", [](int w) { Gone<double> dx(0.5 + w); return neu<Chain>(3 + w, *dx); }, [](const Chain& l) { return show_chain(l); }));
    explore(cls<Chain>("Brillouin zone", [](int w) { return neu<Chain>(4 - w); }, [](const Chain& l) { return show_chain(l); }));
    explore(cls<Square>("square lattice", [](int w) { Gone<double> dx(0.5 + w), dy(2.); return neu<Square>(2 + w, 2, *dx, *dy); }, [](const Square& l) { return show_square(l); }));
    explore(cls<B1>("one-operator basis", [](int w) { Gone<Chain> l(2 + w, 1.); return neu<B1>(*l); }, [](const B1& b) { return show_all(b); }, [](B1& b) { for(auto& m : b) m.conjugate(); }));
    explore(cls<B3>("three-operator basis", [](int w) { Gone<Chain> l(1 + w, 1.); return neu<B3>(*l); }, [](const B3& b) { return show_all(b) + mc::str(b.get_3op_index(b.N - 1, 0, b.N - 1)); }, [](B3& b) { for(auto& m : b) m.conjugate(); }));
    explore(cls<B3>("conjugate basis", [](int w) { Gone<Chain> l(1 + w, 1.); Gone<B3> b(*l); return made((*b).get_conjugate()); }, [](const B3& b) { return show_all(b); }, [](B3& b) { for(auto& m : b) m.conjugate(); }));
    explore(cls<MB>("momentum basis", [](int w) { Gone<Chain> l(2); return neu<MB>(w, *l); }, [](const MB& b) { return show_all(b) + mc::str(b.get_3op_index(1, 0)); }, [](MB& b) { b.conjugate(); }));
    explore(cls<MB>("conjugate momentum basis", [](int w) { Gone<Chain> l(2); Gone<MB> b(w, *l); return made((*b).get_conjugate()); }, [](const MB& b) { return show_all(b); }, [](MB& b) { b.conjugate(); }));
    using D = hb::Dispersion<double>;
    auto energies = [](const D& d) { return num(d(0)) + num(d(1)) + num(d(2)); };
    explore(cls<D>("dispersion", [](int w) { Gone<Chain> z(4), l(4, 1.); Gone<double> J(w + 0.5); return neu<D>(*z, *l, *J); }, energies));
    explore(cls<D>("dispersion in two dimensions", [](int w) { Gone<Square> z(2, 3), l(2, 3, 1., 1.); Gone<double> J(w + 0.5); return made(hb::make_dispersion(*z, *l, *J)); }, energies));
    using LM = ms::Liouvillian<double, D>;
    explore(cls<LM>("Liouvillian in momentum space", [](int w) { Gone<Chain> z(4), l(4, 1.); Gone<double> J(w + 0.5), U(3.); return made(ms::make_liouvillian(*z, *l, *J, *U)); }, [=](const LM& l) { return energies(l.dispersion) + num(l.U); }));
    using LR = rs::Liouvillian<double>;
    explore(cls<LR>("Liouvillian in real space", [](int w) { Gone<double> J(w + 0.5), U(3.); return made(rs::make_liouvillian(*J, *U)); }, [](const LR& l) { return num(l.J) + num(l.U); }, [](LR& l) { l.U *= 2; }));
}

// what observables may refer to
struct Kept {
    Chain chain{2, 1.}, chain3{3, 1.};
    Square square{2, 1, 1., 1.};
    B1 one{chain}, one3{chain3}, cone{one.get_conjugate()}, cone3{one3.get_conjugate()};
    B3 b{chain}, b3{chain3}, cb{b.get_conjugate()}, cb3{b3.get_conjugate()}, sb{square};
    Square long4{4, 1, 1., 1.}, two2{2, 2, 1., 1.};
};
const Kept& kept()
{
    static const Kept k;
    return k;
}
// an expectation value function that keeps a table of its own
EvFunction table(int w)
{
    std::vector<double> t{0.5, 0.25 + w, -0.125, 0.0625};
    return [t](const Op& a, const Op& b) { return t[a.index1 < b.index1 ? b.index1 - a.index1 : a.index1 - b.index1]; };
}
void observables()
{
    const auto& k = kept();
    using J1 = rs::FermiJump1D<double, B1>;
    using J3 = rs::FermiJump1D<double, B3>;
    using J2 = rs::FermiJump2D<double, B3>;
    using N1 = rs::FermiJump1D_NO<double, B1>;
    using N3 = rs::FermiJump1D_NO<double, B3>;
    using S1 = rs::SiteOccupation<double, B1>;
    using S3 = rs::SiteOccupation<double, B3>;
    const Op x{true, 0, true}, y{false, 1, true};
    explore(cls<J1>("one-operator jump", [](int w) { Gone<Chain> l(3, 1.); Gone<double> kf(w + 0.5); Gone<EvFunction> f(table(w)); return neu<J1>(*l, *f, *kf); },
                    [&](const J1& j) { J1 c(j); return num(j(k.one3, vec(3))) + num(j.fourier_coefficient(1)) + num(c.expectation_value(x, y)); }));
    explore(cls<J3>("three-operator jump", [&](int w) { Gone<Chain> l(2, 1.); Gone<double> kf(w + 0.5); Gone<EvFunction> f(table(w)); return neu<J3>(k.b, *l, *f, *kf); },
                    [](const J3& j) { return num(j(vec(10))) + num(j.fourier_coefficients()[1]); }, [](J3& j) { j.fourier_coefficients()[0] *= 2.; }));
    explore(cls<J2>("jump in two dimensions", [&](int w) { Gone<Square> l(2, 1, 1., 1.); Square::Vector kf((*l)[uint64_t(0)]); kf[0] = w + 0.5; kf[1] = 1.; Gone<Square::Vector> q(kf); Gone<EvFunction> f(table(w)); return neu<J2>(k.sb, *l, *f, *q); },
                    [](const J2& j) { return num(j(vec(10))) + num(j.fourier_coefficients()[1]); }, [](J2& j) { j.fourier_coefficients()[0] *= 2.; }));
    explore(cls<N1>("normal-ordered one-operator jump", [](int w) { Gone<Chain> l(2 + w, 1.); Gone<EvFunction> f(table(w)); return neu<N1>(*l, *f); },
                    [&](const N1& j) { N1 c(j); return num(j(vec(3))) + num(j.fourier_coefficient(1)) + num(c.expectation_value(x, y)); }));
    explore(cls<N3>("normal-ordered three-operator jump", [](int w) { Gone<Chain> l(2 + w, 1.); Gone<EvFunction> f(table(w)); return neu<N3>(*l, *f); },
                    [&](const N3& j) { N3 c(j); return num(j(vec(3))) + num(j.fourier_coefficient(1)) + num(c.expectation_value(x, y)); }));
    explore(cls<S1>("one-operator occupation", [&](int w) { Gone<EvFunction> f(table(w)); return made(w ? S1{*f, k.one3, k.cone3} : S1{*f, k.one, k.cone}); },
                    [&](const S1& s) { return num(s(vec(s.basis_ref.get().size()))) + num(s.expectation_value(k.one[0], k.cone[1])); }));
    explore(cls<S3>("three-operator occupation", [&](int w) { Gone<EvFunction> f(table(w)); return made(S3{*f, k.b, k.cb, w == 0}); },
                    [&](const S3& s) { return num(s(vec(10))) + num(s.expectation_value(k.b[0], k.cb[5])); }, [](S3& s) { s.exploit_inversion_symmetry = !s.exploit_inversion_symmetry; }));
    using E1 = rs::ExpectationValue1DHalfFilled<double, Chain>;
    using E2 = rs::ExpectationValue2DHalfFilled<double, Square>;
    explore(cls<E1>("table of a chain", [&](int w) { Gone<double> n(0.5), kf(w + 0.5); return neu<E1>(w ? k.chain3 : k.chain, *n, *kf); }, [](const E1& e) { return num(e(0, 0)) + num(e(0, 1)) + mc::str(e.lattice_distance(1, 0)); }));
    explore(cls<E2>("table of a square lattice", [&](int w) { return neu<E2>(w ? k.two2 : k.long4); }, [](const E2& e) { return num(e(0, 0)) + num(e(0, 1)) + num(e(0, 2)) + num(e(3, 1)); }));
    using V = ms::NonVanishingExpectationValues<uint64_t, double>;
    struct Disp { using Float = double; double operator()(uint64_t i) const { return i ? 1. : -1.; } };
    auto entries = [](const V& v) { std::string s; for(auto& e : v) s += mc::str(e.left_index, ',', e.right_index, ',', num(e.value)); return s; };
    explore(cls<V>("non-vanishing expectation values", [](int w) { Gone<Chain> z(2); Gone<MB> b(w, *z), c((*b).get_conjugate()); Gone<Disp> d; Gone<double> e(0.); return neu<V>(*b, *c, *d, *e); }, entries, [](V& v) { if(!v.empty()) v.pop_back(); v.sort(); }));
    using P = ms::ParticleNumber<double, MB>;
    explore(cls<P>("particle number", [](int w) { Gone<Chain> z(2); Gone<MB> b(w, *z), c((*b).get_conjugate()); Gone<Disp> d; Gone<double> e(0.); return neu<P>(*b, *c, *d, *e); }, [=](const P& p) { return entries(p.non_vanishing_expectation_values) + num(p(vec(5))); }));
    explore(cls<P>("particle number of make_particle_number", [](int w) { Gone<Chain> z(2); Gone<MB> b(w, *z), c((*b).get_conjugate()); Gone<Disp> d; Gone<double> e(0.); return made(ms::make_particle_number(*b, *c, *d, *e)); }, [=](const P& p) { return entries(p.non_vanishing_expectation_values) + num(p(vec(5))); }));
    using R = ode::RK4<double>;
    explore(cls<R>("integrator", [](int w) { Gone<double> h(w + 0.5); Gone<std::size_t> n(std::size_t(2)); return neu<R>(*n, *h); }, [](const R& r) {
        blaze::DynamicMatrix<double> m(2, 2);
        m(0, 1) = 1.;
        m(1, 0) = -2.;
        blaze::DynamicVector<double> v(2);
        v[0] = 1.;
        v[1] = 3.;
        r.step(m, v);
        return num(r.step_size()) + mc::str(r.dimension(), ',') + num(v[0]) + num(v[1]);
    }));
    using F = types::FunctionMatrix<double, uint64_t>;
    explore(cls<F>("function matrix", [](int w) {
        std::vector<double> t{1.5, 2.5, w + 0., -1.};
        Gone<std::function<double(uint64_t, uint64_t)>> f([t](uint64_t r, uint64_t c) { return t[2 * r + c]; });
        Gone<uint64_t> n(uint64_t(2));
        return neu<F>(*n, *n, *f);
    }, [](const F& m) { return mc::str(m.rows(), m.cols(), ' ') + num(m(0, 0)) + num(m(0, 1)) + num(m(1, 0)) + num(m(1, 1)); }));
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"algebra", algebraic}, {"bases", lattices_and_bases}, {"observables", observables}});
}

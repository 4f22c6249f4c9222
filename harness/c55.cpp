// C55: results have the precision of the number type they are computed in. The reference is calculated with 113 bits.
#include "mc.hpp"

#include <cassert>
#include <cmath>
#include <complex>
#include <iterator>
#include <limits>
#include <map>

#include <quadmath.h>

#include <blaze/Math.h>
#include "ieompp/types/blaze.hpp"
#include "ieompp/types/blaze/dot_product.hpp"
#include "ieompp/types/number.hpp"
#include "ieompp/types/dot_product.hpp"
#include "ieompp/types/function_matrix.hpp"
#include "ieompp/types/blaze/multiply_assign.hpp"
#include "ieompp/types/triplet.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/term.hpp"
#include "ieompp/algebra/commutator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/blaze_sparse.hpp"
#include "ieompp/models/hubbard_real_space/blaze_sparse_no.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/1d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/2d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump_no.hpp"
#include "ieompp/models/hubbard_real_space/expectation_value.hpp"
#include "ieompp/models/hubbard_momentum_space.hpp"
#include "ieompp/models/hubbard_momentum_space/blaze_sparse.hpp"
#include "ieompp/models/hubbard_momentum_space/particle_number.hpp"
#include "ieompp/ode/rk4.hpp"

using namespace ieompp;
using namespace ieompp::lattices;
namespace rs = models::hubbard_real_space;
namespace ms = models::hubbard_momentum_space;
namespace hb = models::hubbard;
using Op   = algebra::Operator<uint64_t, bool>;
using Mono = algebra::Monomial<Op>;
using B1   = rs::Basis1Operator<Mono>;
using B3   = rs::Basis3Operator<Mono>;
using MB   = ms::Basis3Operator<Mono>;
using Q    = __float128;
using std::complex;

template <typename F>
const char* name();
template <>
const char* name<float>() { return "float"; }
template <>
const char* name<double>() { return "double"; }
template <>
const char* name<long double>() { return "long double"; }

Q mag(Q x) { return x < 0 ? -x : x; }
const Q PI = 2 * acosq(0);
template <typename F>
bool ok(F got, Q want, Q size, int units = 8)
{
    const Q d = mag(Q(got) - want);
    return d <= units * Q(std::numeric_limits<F>::epsilon()) * size;
}
std::string show(Q x)
{
    char b[64];
    quadmath_snprintf(b, sizeof b, "%.24Qg", x);
    return b;
}
// numbers without a finite binary expansion, rounded to F
template <typename F>
std::vector<std::pair<F, F>> couplings()
{
    return {{F(1) / 3, F(2) / 7}, {F(-5) / 3, F(1) / 10}, {F(22) / 7, F(-100) / 3}, {F(0), F(1) / 3}, {F(1) / 9, F(0)}};
}

template <typename F>
Q re(const F& x) { return Q(x); }
template <typename F>
Q re(const complex<F>& x) { return Q(x.real()); }
template <typename F>
Q im(const F&) { return 0; }
template <typename F>
Q im(const complex<F>& x) { return Q(x.imag()); }

using Entries = std::map<std::pair<uint64_t, uint64_t>, double>;
template <typename M>
Entries entries(const M& m)
{
    Entries e;
    for(uint64_t r = 0; r < m.rows(); ++r)
        for(auto it = m.cbegin(r); it != m.cend(r); ++it) e[{r, it->index()}] += double(re(it->value()));
    return e;
}
// every entry of m is the sum of weight * coefficient over the parts
template <typename F, typename M>
void compare(const M& m, const std::vector<std::pair<Q, Entries>>& parts, const std::string& what)
{
    std::map<std::pair<uint64_t, uint64_t>, std::pair<Q, Q>> want; // value, size
    for(auto& p : parts)
        for(auto& e : p.second) {
            auto& w = want[e.first];
            w.first += p.first * Q(e.second);
            w.second += mag(p.first * Q(e.second));
        }
    for(uint64_t r = 0; r < m.rows(); ++r)
        for(auto it = m.cbegin(r); it != m.cend(r); ++it) {
            const auto w = want[{r, it->index()}];
            MC_COUNT("transitions", 1);
            MC_CHECK(im(it->value()) == 0 && ok<F>(F(re(it->value())), w.first, w.second), what, " of ", name<F>(), ": element ", r, ',', it->index(), " is ",
                     show(re(it->value())), " expected ", show(w.first));
            want.erase({r, it->index()});
        }
    for(auto& w : want)
        MC_CHECK(ok<F>(F(0), w.second.first, w.second.second), what, " of ", name<F>(), ": element ", w.first.first, ',', w.first.second, " is missing, expected ", show(w.second.first));
    MC_COUNT("traces", 1);
}



template <typename F>
uint64_t distance(const PeriodicChain<F>& l, uint64_t x, uint64_t y) { return l.lattice_distance(x, y); }
template <typename F>
uint64_t distance(const PeriodicSquareLattice<F>& l, uint64_t x, uint64_t y) { return l.lattice_distance_x(x, y) + 2 * l.lattice_distance_y(x, y); }
template <typename Lat, typename F, typename S>
void real_matrix(const Lat& l, const std::string& what)
{
    using M  = blaze::CompressedMatrix<S, blaze::rowMajor>;
    using MD = blaze::CompressedMatrix<double, blaze::rowMajor>;
    const B1 b1(l);
    const B3 b3(l);
    MD jk, jn, J3, U3;
    rs::init_kinetic_matrix(rs::Liouvillian<double>{1, 0}, jk, b1, l);
    rs::init_kinetic_matrix_no(rs::Liouvillian<double>{1, 0}, jn, b1, l);
    rs::init_matrix(rs::Liouvillian<double>{1, 0}, J3, b3, l);
    rs::init_matrix(rs::Liouvillian<double>{0, 1}, U3, b3, l);
    // normal ordering: of second order in the expectation values a + d * b, a and b dyadic
    auto dist = [&](uint64_t x, uint64_t y) { return distance(l, x, y); };
    auto a = [&](uint64_t x, uint64_t y) { return x == y ? 0.5 : dist(x, y) % 2 ? 0.25 : -0.125; };
    auto b = [&](uint64_t x, uint64_t y) { return x == y ? 0. : dist(x, y) % 2 ? -0.5 : 0.75; };
    auto no = [&](double d) {
        MD m;
        rs::init_matrix_no(rs::Liouvillian<double>{0, 1}, m, b3, l, [&](uint64_t x, uint64_t y) { return a(x, y) + d * b(x, y); });
        return entries(m);
    };
    MD n0;
    rs::init_matrix_no(rs::Liouvillian<double>{1, 0}, n0, b3, l, a);
    const auto f0 = no(0), fp = no(1), fm = no(-1);
    Entries first, second;
    for(auto* e : {&f0, &fp, &fm})
        for(auto& x : *e) first[x.first], second[x.first];
    auto at = [](const Entries& e, const std::pair<uint64_t, uint64_t>& k) { const auto it = e.find(k); return it == e.end() ? 0. : it->second; };
    for(auto& x : first) x.second = (at(fp, x.first) - at(fm, x.first)) / 2;
    for(auto& x : second) x.second = (at(fp, x.first) + at(fm, x.first) - 2 * at(f0, x.first)) / 2;

    for(auto& c : couplings<F>()) {
        const auto made = rs::make_liouvillian<F>(c.first, c.second);
        MC_CHECK(made.J == c.first && made.U == c.second, what, " of ", name<F>(), ": couplings of make_liouvillian");
        M m;
        rs::init_kinetic_matrix(made, m, b1, l);
        compare<F>(m, {{c.first, entries(jk)}}, what + " kinetic matrix");
        rs::init_kinetic_matrix_no(made, m, b1, l);
        compare<F>(m, {{c.first, entries(jn)}}, what + " normal-ordered kinetic matrix");
        rs::init_matrix(made, m, b3, l);
        compare<F>(m, {{c.first, entries(J3)}, {c.second, entries(U3)}}, what + " matrix");
        for(F d : {F(1) / 3, F(-2) / 11}) {
            rs::init_matrix_no(made, m, b3, l, [&](uint64_t x, uint64_t y) -> F { return F(a(x, y)) + d * F(b(x, y)); });
            // the table itself is rounded: its error counts with the size of a + d * b
            compare<F>(m, {{c.first, entries(n0)}, {c.second, f0}, {Q(c.second) * d, first}, {Q(c.second) * d * d, second}}, what + " normal-ordered matrix");
        }
    }
}
template <typename F>
void real_matrices()
{
    for(uint64_t n = 2; n <= mc::pick(6, 8); ++n)
        MC_CASE(name<F>(), " chain ", n)
        {
            mc::distinct(mc::hash_str(mc::str("chain", name<F>(), n)));
            real_matrix<PeriodicChain<F>, F, F>(PeriodicChain<F>(n, F(1)), mc::str("chain ", n));
            real_matrix<PeriodicChain<F>, F, complex<F>>(PeriodicChain<F>(n, F(1)), mc::str("chain, complex, ", n));
        }
    for(auto xy : {std::make_pair(2, 2), {2, 3}, {3, 2}})
        MC_CASE(name<F>(), " torus ", xy.first, 'x', xy.second)
        {
            mc::distinct(mc::hash_str(mc::str("torus", name<F>(), xy.first, xy.second)));
            using L = PeriodicSquareLattice<F>;
            real_matrix<L, F, F>(L(xy.first, xy.second, F(1), F(1)), mc::str("torus ", xy.first, 'x', xy.second));
        }
}

// ---- momentum space
template <typename F>
Q energy(const PeriodicChain<F>&, uint64_t n, uint64_t i) { return 2 * cosq(-PI + 2 * PI * i / n); }
template <typename F, typename S>
void momentum_matrix(uint64_t n)
{
    using M = blaze::CompressedMatrix<S, blaze::rowMajor>;
    const PeriodicChain<F> bz(n), l(n, F(1));
    for(auto& c : couplings<F>())
        for(uint64_t q = 0; q < n; ++q) {
            const MB b(q, bz);
            const auto L = ms::make_liouvillian(bz, l, c.first, c.second);
            MC_CHECK(L.U == c.second, "coupling of make_liouvillian");
            const Q J = c.first, U = c.second;
            for(uint64_t i = 0; i < n; ++i)
                MC_CHECK(ok<F>(L.dispersion(i), -J * energy(bz, n, i), 8 * mag(J)), name<F>(), ": energy ", i, " of ", n, " is ", show(L.dispersion(i)), " expected ", show(-J * energy(bz, n, i)));
            M m;
            ms::init_matrix(L, m, b, l);
            auto e = [&](const Op& o) { return -J * energy(bz, n, o.index1); };
            for(uint64_t r = 0; r < m.rows(); ++r)
                for(auto it = m.cbegin(r); it != m.cend(r); ++it) {
                    Q want = U / (2 * Q(n)), size = mag(want);
                    if(it->index() == r) {
                        want = e(b[r][0]) + U / 2;
                        if(r) want += e(b[r][1]) - e(b[r][2]);
                        size = 24 * mag(J) + mag(U);
                    }
                    MC_COUNT("transitions", 1);
                    MC_CHECK(im(it->value()) == 0 && ok<F>(F(re(it->value())), want, size), name<F>(), " momentum matrix ", n, " q=", q, ": element ", r, ',', it->index(), " is ", show(re(it->value())), " expected ", show(want));
                }
            MC_COUNT("traces", 1);
        }
}
template <typename F>
void numbers(uint64_t n)
{
    using D = double;
    const PeriodicChain<F> bz(n), l(n, F(1));
    const PeriodicChain<D> bzd(n), ld(n, 1.);
    for(uint64_t q = 0; q < n; ++q) {
        const MB b(q, bz), c = b.get_conjugate();
        const F fermi = F(-0.3);
        const auto d   = hb::make_dispersion(bz, l, F(1));
        const auto dd  = hb::make_dispersion(bzd, ld, 1.);
        const ms::ParticleNumber<F, MB> p(b, c, d, fermi);
        const ms::ParticleNumber<D, MB> pd(b, c, dd, -0.3);
        const auto& t  = p.non_vanishing_expectation_values;
        const auto& td = pd.non_vanishing_expectation_values;
        bool same      = t.size() == td.size();
        for(std::size_t i = 0; same && i < t.size(); ++i) same = t[i].left_index == td[i].left_index && t[i].right_index == td[i].right_index && Q(t[i].value) == Q(td[i].value);
        MC_CHECK(same, "the table of ", name<F>(), " differs from that of double");
        for(uint64_t s = 1; s < 6; ++s) {
            std::vector<complex<F>> h(b.size());
            for(uint64_t i = 0; i < h.size(); ++i) h[i] = complex<F>(F(double((i * s * s + 3 * i + s) % 7) - 3) / 3, F(double((i * i * s + s) % 5) - 2) / 7);
            Q want = 0, size = 0;
            for(auto& e : td) {
                const auto x = h[e.left_index], y = h[e.right_index];
                want += Q(e.value) * (re(x) * re(y) + im(x) * im(y));
                size += mag(Q(e.value)) * (mag(re(x)) + mag(im(x))) * (mag(re(y)) + mag(im(y)));
            }
            const F got = p(h);
            MC_COUNT("traces", 1);
            MC_CHECK(ok<F>(got, want, size), "particle number of ", name<F>(), ' ', show(got), " expected ", show(want));
            blaze::DynamicVector<complex<F>> v(h.size());
            for(uint64_t i = 0; i < h.size(); ++i) v[i] = h[i];
            const F made = ms::make_particle_number(b, c, d, fermi)(v);
            MC_CHECK(ok<F>(made, want, size), "particle number of a vector of ", name<F>(), ' ', show(made), " expected ", show(want));
        }
    }
}
template <typename F>
void momentum()
{
    for(uint64_t n = 3; n <= mc::pick(8, 14); ++n)
        MC_CASE(name<F>(), " momenta ", n)
        {
            mc::distinct(mc::hash_str(mc::str("momenta", name<F>(), n)));
            momentum_matrix<F, F>(n);
            momentum_matrix<F, complex<F>>(n);
            if(n < 9 && n % 4) numbers<F>(n);
        }
}

// ---- Fermi jumps
struct QC {
    Q re, im;
};
template <typename F>
F pos(const PeriodicChain<F>& l, uint64_t i, int) { return l[i]; }
template <typename F>
F pos(const PeriodicSquareLattice<F>& l, uint64_t i, int k) { return l[typename PeriodicSquareLattice<F>::SiteIndex(i)][k]; }

template <typename F, typename Lat, typename J>
void jump(const Lat& l, const std::vector<Q>& k, const std::function<F(const Op&, const Op&)>& ev, uint64_t dim, const std::function<complex<F>(uint64_t)>& coef, const J& eval, const std::string& what)
{
    const uint64_t n = l.size();
    std::vector<QC> ph(n);
    Q size = 1;
    for(uint64_t i = 0; i < n; ++i) {
        Q x = 0;
        for(std::size_t d = 0; d < k.size(); ++d) x += k[d] * pos(l, i, int(d)), size = std::max(size, mag(k[d] * pos(l, i, int(d))));
        ph[i] = {cosq(x), sinq(x)};
    }
    for(uint64_t i = 0; i < n; ++i) {
        const auto c = coef(i);
        MC_CHECK(ok<F>(c.real(), ph[i].re, size) && ok<F>(c.imag(), ph[i].im, size), what, " of ", name<F>(), ": Fourier coefficient ", i, " is ", show(c.real()), " + i ", show(c.imag()), " expected ", show(ph[i].re), " + i ", show(ph[i].im));
    }
    const bool three = dim > n;
    for(uint64_t s = 1; s < 8; ++s) {
        blaze::DynamicVector<complex<F>> h(dim);
        for(uint64_t i = 0; i < dim; ++i) h[i] = complex<F>(F(double((i * s * s + 3 * i + s) % 7) - 3) / 3, F(double((i * i * s + s) % 5) - 2) / 7);
        Q sr = 0, si = 0, total = 0;
        for(uint64_t i = 0; i < n; ++i) {
            Q xr = re(h[i]), xi = im(h[i]), t = mag(xr) + mag(xi);
            if(three)
                for(uint64_t a = 0; a < n; ++a)
                    for(uint64_t b = 0; b < n; ++b) {
                        const Q w = 2 * Q(ev(Op{true, a, true}, Op{true, b, true})) - (a == b ? 1 : 0);
                        const auto& x = h[n + n * n * i + n * a + b];
                        xr += w * re(x);
                        xi += w * im(x);
                        t += (mag(w) + (a == b ? 1 : 0)) * (mag(re(x)) + mag(im(x)));
                    }
            sr += ph[i].re * xr - ph[i].im * xi;
            si += ph[i].re * xi + ph[i].im * xr;
            total += t;
        }
        const Q want = sr * sr + si * si;
        const F got  = eval(h);
        MC_COUNT("traces", 1);
        MC_COUNT("transitions", dim);
        MC_CHECK(ok<F>(got, want, size * total * total), what, " of ", name<F>(), ": jump ", show(got), " expected ", show(want));
    }
}
template <typename F>
void jumps()
{
    using V = blaze::DynamicVector<complex<F>>;
    const std::function<F(const Op&, const Op&)> ev = [](const Op& a, const Op& b) {
        const uint64_t d = a.index1 < b.index1 ? b.index1 - a.index1 : a.index1 - b.index1;
        return d == 0 ? F(1) / 3 : F(1) / F(3 * d + 7);
    };
    for(uint64_t n = 1; n <= mc::pick(6, 8); ++n)
        for(int dx : {1, 2, 3})
            MC_CASE(name<F>(), " jumps on a chain of ", n, " sites a distance of 1/", dx)
            {
                mc::distinct(mc::hash_str(mc::str("jump", name<F>(), n, '/', dx)));
                const PeriodicChain<F> l(n, F(1) / dx);
                const B1 b1(l);
                const B3 b3(l);
                for(F kf : {Pi<F>::value / 2, F(1) / 3, Pi<F>::value / 4, F(-7) / 5}) {
                    using J1 = rs::FermiJump1D<F, B1>;
                    using J3 = rs::FermiJump1D<F, B3>;
                    const J1 j1(l, ev, kf);
                    const J3 j3(b3, l, ev, kf);
                    jump<F>(l, {Q(kf)}, ev, n, [&](uint64_t i) { return j1.fourier_coefficient(i); }, [&](const V& h) { return j1(b1, h); }, "one-operator jump");
                    jump<F>(l, {Q(kf)}, ev, n + n * n * n, [&](uint64_t i) { return j3.fourier_coefficients()[i]; }, [&](const V& h) { return j3(h); }, "three-operator jump");
                }
                using N1 = rs::FermiJump1D_NO<F, B1>;
                using N3 = rs::FermiJump1D_NO<F, B3>;
                const N1 n1(l, ev);
                const N3 n3(l, ev);
                jump<F>(l, {PI / 2}, ev, n, [&](uint64_t i) { return n1.fourier_coefficient(i); }, [&](const V& h) { return n1(h); }, "normal-ordered one-operator jump");
                jump<F>(l, {PI / 2}, ev, n, [&](uint64_t i) { return n3.fourier_coefficient(i); }, [&](const V& h) { return n3(h); }, "normal-ordered three-operator jump");
                N1 e1(l, ev);
                N3 e3(l, ev);
                rs::FermiJump1D<F, B1> e(l, ev, F(1));
                const Op x{true, 0, true}, y{false, n - 1, true};
                MC_CHECK(e1.expectation_value(x, y) == ev(x, y) && e3.expectation_value(x, y) == ev(x, y) && e.expectation_value(x, y) == ev(x, y), "expectation value of ", name<F>());
            }
    using L = PeriodicSquareLattice<F>;
    for(auto xy : {std::make_pair(1, 1), {1, 3}, {2, 2}, {2, 3}, {3, 2}, {3, 3}})
        MC_CASE(name<F>(), " jumps on a torus of ", xy.first, 'x', xy.second)
        {
            mc::distinct(mc::hash_str(mc::str("jump2", name<F>(), xy.first, '/', xy.second)));
            const L l(xy.first, xy.second, F(1), F(1) / 3);
            const B3 b(l);
            const uint64_t n = b.N;
            for(auto k : {std::make_pair(Pi<F>::value / 2, Pi<F>::value / 2), {F(1) / 3, F(-2) / 7}, {F(0), F(9) / 7}}) {
                typename L::Vector v(l[uint64_t(0)]);
                v[0] = k.first;
                v[1] = k.second;
                using J = rs::FermiJump2D<F, B3>;
                const J j(b, l, ev, v);
                jump<F>(l, {Q(k.first), Q(k.second)}, ev, n + n * n * n, [&](uint64_t i) { return j.fourier_coefficients()[i]; }, [&](const V& h) { return j(h); }, "jump in two dimensions");
            }
        }
}

// ---- algebra
template <typename P>
struct Real {
    using Type = P;
};
template <typename F>
struct Real<complex<F>> {
    using Type = F;
};
template <typename P, typename F>
P number(F a, F, std::false_type) { return a; }
template <typename P, typename F>
P number(F a, F b, std::true_type) { return P(a, b); }
template <typename P>
void words(const std::string& what)
{
    using F  = typename Real<P>::Type;
    using T  = algebra::Term<P, Op>;
    using TD = algebra::Term<double, Op>;
    const std::integral_constant<bool, !std::is_same<P, F>::value> cplx{};
    std::vector<Op> ops;
    for(bool c : {true, false})
        for(uint64_t i : {0, 1}) ops.push_back(Op{c, i, true});
    std::vector<std::vector<Op>> w;
    for(auto& a : ops) w.push_back({a});
    for(auto& a : ops)
        for(auto& b : ops) w.push_back({a, b});
    for(auto& a : ops)
        for(auto& b : ops) w.push_back({a, b, ops[0]}), w.push_back({ops[3], a, b});
    for(std::size_t i = 0; i < w.size(); ++i)
        MC_CASE(what, " word ", i)
        {
            mc::distinct(mc::hash_str(mc::str(what, i)));
            for(std::size_t j = 0; j < w.size(); ++j) {
                const P p = number<P>(F(1) / 3, F(2) / 7, cplx), q = number<P>(F(-5) / 9, F(1) / 10, cplx);
                const Q pr = re(p) * re(q) - im(p) * im(q), pi = re(p) * im(q) + im(p) * re(q);
                const Q size = (mag(re(p)) + mag(im(p))) * (mag(re(q)) + mag(im(q)));
                const T a{p, w[i]}, b{q, w[j]};
                const TD ad{1., w[i]}, bd{1., w[j]};
                auto close = [&](const P& x, double weight) { return ok<F>(F(re(x)), weight * pr, mag(weight) * size) && (!cplx || ok<F>(F(im(x)), weight * pi, mag(weight) * size)); };
                auto prod = a * b;
                auto own  = a;
                own *= b;
                MC_CHECK(close(prod.prefactor, 1) && close(own.prefactor, 1), what, ": prefactor of a product ", show(re(prod.prefactor)), " expected ", show(pr));
                const auto conj = a.get_conjugate();
                MC_CHECK(re(conj.prefactor) == re(p) && im(conj.prefactor) == -im(p), what, ": prefactor of a conjugate");
                auto in_place = a;
                in_place.conjugate();
                MC_CHECK(re(in_place.prefactor) == re(p) && im(in_place.prefactor) == -im(p), what, ": prefactor of a conjugate in place");
                MC_COUNT("transitions", 4);
                if(w[i].size() * w[j].size() % 2) continue;
                std::vector<T> c, u;
                std::vector<TD> cd, ud;
                algebra::commutate(a, b, c);
                algebra::commutate(ad, bd, cd);
                MC_COUNT("traces", 1);
                MC_CHECK(c.size() == cd.size(), what, ": a commutator of ", c.size(), " terms, of ", cd.size(), " with double");
                for(std::size_t k = 0; k < c.size() && k < cd.size(); ++k)
                    MC_CHECK(c[k].operators == cd[k].operators && close(c[k].prefactor, cd[k].prefactor), what, ": term ", k, " of the commutator has the prefactor ", show(re(c[k].prefactor)), " expected ", cd[k].prefactor, " times ", show(pr));
                algebra::copy_as_unique_terms(c, u);
                algebra::copy_as_unique_terms(cd, ud);
                MC_CHECK(u.size() == ud.size(), what, ": ", u.size(), " collected terms, ", ud.size(), " with double");
                for(std::size_t k = 0; k < u.size() && k < ud.size(); ++k) {
                    const double weight = ud[k].prefactor;
                    MC_CHECK(u[k].operators == ud[k].operators && ok<F>(F(re(u[k].prefactor)), weight * pr, 4 * size) && ok<F>(F(im(u[k].prefactor)), weight * pi, 4 * size), what, ": collected term ", k);
                }
            }
        }
}
template <typename F>
void collect()
{
    using T = algebra::Term<F, Op>;
    for(uint64_t n = 1; n <= 24; ++n)
        MC_CASE(name<F>(), " collecting ", n)
        {
            mc::distinct(mc::hash_str(mc::str("collect", name<F>(), n)));
            std::vector<T> in, out;
            std::vector<Q> want(3, 0);
            types::TripletList<F, uint64_t> t;
            for(uint64_t i = 0; i < n; ++i) {
                const F x = F(double(i * i % 7) + 1) / 3;
                in.push_back(T{x, {Op{true, i % 3, true}}});
                t.emplace_back(0, i % 3, x);
                want[i % 3] += x;
            }
            algebra::copy_as_unique_terms(in, out);
            t.sort();
            const auto u = t.make_columns_unique();
            MC_COUNT("traces", 2);
            MC_CHECK(out.size() == std::min<uint64_t>(n, 3) && u.size() == out.size(), "collected ", out.size(), " and ", u.size());
            for(auto& x : out) MC_CHECK(ok<F>(x.prefactor, want[x.operators[0].index1], 8 * want[x.operators[0].index1]), "sum of ", name<F>(), ' ', show(x.prefactor), " expected ", show(want[x.operators[0].index1]));
            for(auto& x : u) MC_CHECK(ok<F>(x.value, want[x.column], 8 * want[x.column]), "sum of entries of ", name<F>(), ' ', show(x.value), " expected ", show(want[x.column]));
        }
}
template <typename F>
void terms()
{
    words<F>(mc::str("terms of ", name<F>()));
    words<complex<F>>(mc::str("terms of complex ", name<F>()));
    collect<F>();
}

// ---- integration, with real numbers
template <typename F>
void steps()
{
    using V = blaze::DynamicVector<F>;
    for(uint64_t n = 1; n <= mc::pick(6, 12); ++n)
        for(int kind = 0; kind < 4; ++kind)
            MC_CASE(name<F>(), " steps of dimension ", n, " kind ", kind)
            {
                mc::distinct(mc::hash_str(mc::str("steps", name<F>(), n, kind)));
                auto a = [&](uint64_t r, uint64_t c) -> F { return kind == 0 ? (r == c ? F(1) / 3 : F(0)) : F(double((r * r * kind + 3 * c + r * c) % 7) - 3) / F(3 + kind); };
                for(F h : {F(1) / 10, F(-1) / 3, F(1)}) {
                    std::vector<Q> u(n), sum, x, size(n), s;
                    for(uint64_t i = 0; i < n; ++i) u[i] = F(double(i % 3) - F(1) / 3);
                    V v0(n);
                    for(uint64_t i = 0; i < n; ++i) v0[i] = F(u[i]);
                    sum = x = u;
                    for(uint64_t i = 0; i < n; ++i) size[i] = mag(u[i]);
                    s = size;
                    for(int order = 1; order <= 4; ++order) {
                        std::vector<Q> y(n), t(n);
                        for(uint64_t r = 0; r < n; ++r)
                            for(uint64_t c = 0; c < n; ++c) y[r] += Q(a(r, c)) * x[c] * h / order, t[r] += mag(Q(a(r, c)) * h / order) * s[c];
                        x = y;
                        s = t;
                        for(uint64_t r = 0; r < n; ++r) sum[r] += x[r], size[r] += s[r];
                    }
                    blaze::DynamicMatrix<F> d(n, n);
                    blaze::CompressedMatrix<F, blaze::rowMajor> m(n, n);
                    m.reserve(n * n);
                    for(uint64_t r = 0; r < n; ++r) {
                        for(uint64_t c = 0; c < n; ++c) {
                            d(r, c) = a(r, c);
                            if(a(r, c) != 0) m.append(r, c, a(r, c));
                        }
                        m.finalize(r);
                    }
                    const types::FunctionMatrix<F, uint64_t> f(n, n, a);
                    const ode::RK4<F> rk(n, h);
                    MC_CHECK(rk.step_size() == h, "step size of ", name<F>(), ' ', show(rk.step_size()));
                    V vd = v0, vm = v0, vf = v0, p = v0;
                    rk.step(d, vd);
                    rk.step(m, vm);
                    rk.step(f, vf);
                    types::multiply_assign(f, p);
                    MC_COUNT("traces", 4);
                    for(uint64_t i = 0; i < n; ++i) {
                        MC_CHECK(ok<F>(vd[i], sum[i], size[i] * n) && ok<F>(vm[i], sum[i], size[i] * n) && ok<F>(vf[i], sum[i], size[i] * n), "step of ", name<F>(), ": component ", i, " is ", show(vd[i]), ", ", show(vm[i]), " and ", show(vf[i]), " expected ", show(sum[i]));
                        Q w = 0, z = 0;
                        for(uint64_t c = 0; c < n; ++c) w += Q(a(i, c)) * u[c], z += mag(Q(a(i, c)) * u[c]);
                        MC_CHECK(ok<F>(p[i], w, z * n), "product of ", name<F>(), ": component ", i, " is ", show(p[i]), " expected ", show(w));
                    }
                }
            }
}

#define ALL(part) {#part, [] { part<float>(); part<double>(); part<long double>(); }}
int main(int argc, char** argv)
{
    return mc::run(argc, argv, {ALL(real_matrices), ALL(momentum), ALL(jumps), ALL(terms), ALL(steps)});
}

// C25: Fermi jump as squared Fourier component.
#include "wick_util.hpp"
#include "lattice_util.hpp"
#include "ieompp/types/dot_product.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/1d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/2d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump_no.hpp"

#include <memory>

using namespace bas;
using namespace ieompp::lattices;
using namespace ieompp::models::hubbard_real_space;
using C      = std::complex<double>;
using LC     = std::complex<long double>;
using B1     = Basis1Operator<Monomial>;
using B3     = Basis3Operator<Monomial>;
using Chain  = PeriodicChain<double>;
using Square = PeriodicSquareLattice<double>;
using Vec    = blaze::DynamicVector<C>;

LC phase(const Chain& l, double kf, uint64_t i)
{
    const long double x = (long double)kf * l[i];
    return {std::cos(x), std::sin(x)};
}
LC phase(const Square& l, const Square::Vector& kf, uint64_t i)
{
    const auto r        = l[i];
    const long double x = (long double)kf[0] * r[0] + (long double)kf[1] * r[1];
    return {std::cos(x), std::sin(x)};
}

// every observable under one interface
struct Obs {
    std::string name;
    uint64_t n, dim;
    wick::Table t;
    std::vector<LC> phases;
    bool three; // contracts the three-operator coefficients
    std::function<double(const Vec&)> eval;
    std::function<double(const std::vector<C>&)> eval_std;
    std::function<C(uint64_t)> coefficient;
    std::function<double(const Operator&, const Operator&)> ev;
    std::vector<std::shared_ptr<void>> keep;

    double model(const std::vector<C>& h) const
    {
        LC s = 0;
        for(uint64_t i = 0; i < n; ++i) {
            LC x = h[i];
            if(three)
                for(uint64_t j = 0; j < n; ++j)
                    for(uint64_t k = 0; k < n; ++k) x += LC(h[n + n * n * i + n * j + k]) * (2.L * t(j, k) - (j == k ? 1.L : 0.L));
            s += phases[i] * x;
        }
        return double(std::norm(s));
    }
    double scale(const std::vector<C>& h) const
    {
        double s = 0;
        for(uint64_t i = 0; i < (three ? h.size() : n); ++i) {
            double weight = 1;
            if(i >= n) {
                const auto j = (i - n) / n % n, k = (i - n) % n;
                weight = std::abs(2 * t(j, k) - (j == k ? 1. : 0.));
            }
            s += weight * std::abs(h[i]);
        }
        return s * s;
    }
};
using ObsP = std::shared_ptr<Obs>;

template <typename Lat, typename K>
ObsP base(const std::string& name, const Lat& l, const K& kf, const wick::Table& t, bool three, uint64_t dim)
{
    auto o = std::make_shared<Obs>();
    o->name = name;
    o->n = l.size();
    o->dim = dim;
    o->t = t;
    o->three = three;
    for(uint64_t i = 0; i < o->n; ++i) o->phases.push_back(phase(l, kf, i));
    return o;
}
std::function<double(const Operator&, const Operator&)> fn(const wick::Table& t)
{
    return [t](const Operator& a, const Operator& b) { return t(a.index1, b.index1); };
}

ObsP jump1d_1(const Chain& l, double kf, const wick::Table& t, const std::string& what)
{
    auto o = base("1d one " + what, l, kf, t, false, l.size());
    auto b = std::make_shared<B1>(l);
    using J = FermiJump1D<double, B1>;
    auto j = std::make_shared<J>(l, fn(t), kf);
    o->eval = [b, j](const Vec& h) { return (*j)(*b, h); };
    o->eval_std = [b, j](const std::vector<C>& h) { return (*j)(*b, h); };
    o->coefficient = [j](uint64_t i) { return j->fourier_coefficient(i); };
    o->ev = [j](const Operator& x, const Operator& y) { return j->expectation_value(x, y); };
    return o;
}
template <typename J, typename Lat, typename K>
ObsP jump_3(const Lat& l, const K& kf, const wick::Table& t, const std::string& name)
{
    const uint64_t n = l.size();
    auto o = base(name, l, kf, t, true, n + n * n * n);
    auto b = std::make_shared<B3>(l);
    auto j = std::make_shared<J>(*b, l, fn(t), kf);
    o->keep.push_back(b);
    o->eval = [j](const Vec& h) { return (*j)(h); };
    o->eval_std = [j](const std::vector<C>& h) { return (*j)(h); };
    o->coefficient = [j](uint64_t i) { return static_cast<const J&>(*j).fourier_coefficients()[i]; };
    return o;
}
template <typename J>
ObsP jump_no(const Chain& l, const wick::Table& t, uint64_t dim, const std::string& name)
{
    auto o = base(name, l, std::acos(-1.) / 2, t, false, dim);
    auto j = std::make_shared<J>(l, fn(t));
    o->eval = [j](const Vec& h) { return (*j)(h); };
    o->eval_std = [j](const std::vector<C>& h) { return (*j)(h); };
    o->coefficient = [j](uint64_t i) { return j->fourier_coefficient(i); };
    o->ev = [j](const Operator& x, const Operator& y) { return j->expectation_value(x, y); };
    return o;
}

void evaluate(const Obs& o, const std::vector<C>& h)
{
    Vec b(h.size());
    for(std::size_t i = 0; i < h.size(); ++i) b[i] = h[i];
    const double want = o.model(h), v = o.eval(b), w = o.eval_std(h);
    MC_COUNT("traces", 2);
    const double tol = 1e-12 * o.scale(h);
    MC_CHECK(mc::close(v, want, tol), o.name, ": jump ", v, " expected ", want);
    MC_CHECK(mc::close(w, want, tol), o.name, ": jump of a std::vector ", w, " expected ", want);
    // small and large coefficients
    for(int e : {-60}) {
        auto g = h;
        for(auto& x : g) x *= std::ldexp(1., e);
        const double x = std::ldexp(o.eval_std(g), -2 * e);
        MC_CHECK(mc::close(x, want, tol), o.name, ": jump of the vector times 2^", e, " is 2^", 2 * e, " times ", x, " expected ", want);
    }
}

void check(const Obs& o, const Obs& other)
{
    auto dense = [](const Obs& x, uint64_t s) {
        std::vector<C> h(x.dim);
        for(uint64_t i = 0; i < x.dim; ++i) h[i] = C(double((i * s * s + 3 * i + s) % 7) - 3, double((i * i * s + s) % 5) - 2);
        return h;
    };
    MC_CASE(o.name, " coefficients")
    {
        mc::distinct(mc::hash_str(o.name));
        for(uint64_t i = 0; i < o.n; ++i) {
            const C c = o.coefficient(i);
            MC_CHECK(std::abs(LC(c) - o.phases[i]) < 1e-12L, "Fourier coefficient ", i, " is ", c, " expected ", C(o.phases[i]));
        }
        if(o.ev)
            for(uint64_t i = 0; i < o.n; ++i)
                for(uint64_t j = 0; j < o.n; ++j)
                    MC_CHECK(o.ev(Operator{true, i, true}, Operator{false, j, true}) == o.t(i, j), "expectation value ", i, ' ', j);
    }
    const auto step = o.dim > 40 ? (o.dim < mc::pick<uint64_t>(300, 500) ? 1 : o.dim / 5) : 1;
    for(uint64_t i = 0; i < o.dim; ++i)
        MC_CASE(o.name, " component ", i)
        {
            mc::distinct(mc::hash_str(mc::str(o.name, '/', i)));
            for(uint64_t j = i; j < o.dim; j += step)
                for(auto x : {C(1, 0), C(-2, 1)})
                    for(auto y : {C(0, 0), C(1, 0), C(0, 1)}) {
                        std::vector<C> h(o.dim, C());
                        h[i] += x;
                        h[j] += y;
                        evaluate(o, h);
                    }
        }
    for(uint64_t s = 1; s < 8; ++s)
        MC_CASE(o.name, " dense ", s, " with ", other.name, " in between")
        {
            mc::distinct(mc::hash_str(mc::str(o.name, "/d", s, other.name)));
            evaluate(o, dense(o, s));
            evaluate(other, dense(other, s + 1));
            evaluate(o, dense(o, s));
            evaluate(o, std::vector<C>(o.dim, C()));
            evaluate(o, dense(o, s + 2));
        }
}

const std::vector<double> fermi{0., 0.25, 0.5, 0.75, 1., -0.3, 1.6};
void chain_one()
{
    const double pi = std::acos(-1.);
    for(uint64_t n = 1; n <= mc::pick(40, 64); ++n)
        for(double dx : {1., 0.5})
            for(double f : fermi) {
                const Chain l(n, dx), l2(n % 5 + 2, 1.);
                const auto what = mc::str("N=", n, " dx=", dx, " k_F=", f, "pi");
                check(*jump1d_1(l, f * pi, wick::table(n, 1), what), *jump1d_1(l2, 0.3, wick::table(l2.size(), 2), "other"));
            }
}
void chain_three()
{
    const double pi = std::acos(-1.);
    for(uint64_t n = 1; n <= mc::pick(7, 8); ++n)
        for(int t = 0; t < 3; ++t)
            for(double f : fermi) {
                const Chain l(n, t == 2 ? 0.5 : 1.), l2(n % 4 + 1, 1.);
                using J = FermiJump1D<double, B3>;
                check(*jump_3<J>(l, f * pi, wick::table(n, t), mc::str("1d three N=", n, " table ", t, " k_F=", f, "pi")),
                      *jump_3<J>(l2, 0.7, wick::table(l2.size(), 3), "other"));
            }
}
void square_three()
{
    const double pi = std::acos(-1.);
    for(auto s : std::vector<std::pair<int, int>>{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 1}, {2, 3}, {3, 2}}) {
        const uint64_t n = s.first * s.second;
        for(int t = 1; t < 3; ++t)
            for(auto f : std::vector<std::pair<double, double>>{{0.5, 0.5}, {0, 1}, {0.75, 0.25}, {-0.25, 0.5}, {0.4, -1.3}}) {
                const Square l(s.first, s.second, 1., t == 2 ? 0.5 : 1.), l2(2, 1, 1., 1.);
                using J = FermiJump2D<double, B3>;
                const Square::Vector kf{f.first * pi, f.second * pi};
                check(*jump_3<J>(l, kf, wick::table(n, t), mc::str("2d three ", s.first, 'x', s.second, " table ", t, " k_F=", f, "pi")),
                      *jump_3<J>(l2, kf, wick::table(2, 3), "other"));
            }
    }
}
void ordered()
{
    for(uint64_t n = 1; n <= mc::pick(5, 6); ++n)
        for(double dx : {1., 0.5}) {
            const Chain l(n, dx), l2(n + 1, 1.);
            using J1 = FermiJump1D_NO<double, B1>;
            using J3 = FermiJump1D_NO<double, B3>;
            check(*jump_no<J1>(l, wick::table(n, 1), n, mc::str("1d one, normal ordered N=", n, " dx=", dx)), *jump_no<J1>(l2, wick::table(n + 1, 2), n + 1, "other"));
            check(*jump_no<J3>(l, wick::table(n, 1), n + n * n * n, mc::str("1d three, normal ordered N=", n, " dx=", dx)),
                  *jump_no<J3>(l2, wick::table(n + 1, 2), (n + 1) * ((n + 1) * (n + 1) + 1), "other"));
        }
}

// tables whose values are not exact in single precision, after every kind of observable
void inexact()
{
    const double pi = std::acos(-1.);
    for(int t : {101, 102, 103, 201}) {
        for(uint64_t n = 1; n <= 5; ++n) {
            const Chain l(n, 1. / 3), l2(n % 4 + 1, 1.);
            check(*jump1d_1(l, 0.3 * pi, wick::table(n, t), mc::str("N=", n, " table ", t)), *jump1d_1(l2, 0.3, wick::table(l2.size(), 2), "other"));
            using J = FermiJump1D<double, B3>;
            for(double f : {0.1, 0.5})
                check(*jump_3<J>(l, f * pi, wick::table(n, t), mc::str("1d three N=", n, " table ", t, " k_F=", f, "pi")), *jump_3<J>(l2, 0.7, wick::table(l2.size(), 103), "other"));
            using N1 = FermiJump1D_NO<double, B1>;
            using N3 = FermiJump1D_NO<double, B3>;
            check(*jump_no<N1>(l, wick::table(n, t), n, mc::str("1d one, normal ordered N=", n, " table ", t)), *jump_no<N1>(l2, wick::table(l2.size(), 2), l2.size(), "other"));
            check(*jump_no<N3>(l, wick::table(n, t), n + n * n * n, mc::str("1d three, normal ordered N=", n, " table ", t)), *jump_no<N3>(l2, wick::table(l2.size(), 2), l2.size() * (1 + l2.size() * l2.size()), "other"));
        }
        for(auto s : std::vector<std::pair<int, int>>{{1, 2}, {2, 2}, {2, 3}}) {
            const Square l(s.first, s.second, 0.1, 1. / 3), l2(2, 1, 1., 1.);
            using J = FermiJump2D<double, B3>;
            const Square::Vector kf{0.1 * pi, 0.7 * pi};
            check(*jump_3<J>(l, kf, wick::table(s.first * s.second, t), mc::str("2d three ", s.first, 'x', s.second, " table ", t)), *jump_3<J>(l2, kf, wick::table(2, 103), "other"));
        }
    }
}
// chains of more sites than a byte, or sixteen bits, count
struct Coefficients { // as a vector of any size
    using ElementType = C;
    std::vector<C> v;
    C operator[](uint64_t i) const { return v.at(i); }
};
template <typename F>
void large_one(const Chain& l, double kf, const std::string& what, const F& jump)
{
    MC_CASE(what, " N=", l.size())
    {
        mc::distinct(mc::hash_str(mc::str(what, l.size())));
        Coefficients h;
        for(uint64_t s = 1; s < 4; ++s) {
            h.v.clear();
            LC want = 0;
            double scale = 1;
            for(uint64_t i = 0; i < l.size(); ++i) {
                h.v.push_back(C(double((i * s + i / 7) % 7) - 3, double((i * i * s + s) % 5) - 2));
                want += phase(l, kf, i) * LC(h.v.back());
                scale += std::abs(h.v.back());
            }
            const double v = jump(h);
            MC_COUNT("traces", 1);
            MC_CHECK(mc::close(v, double(std::norm(want)), 1e-11 * scale * (1 + double(std::abs(want)))), "jump ", v, " expected ", double(std::norm(want)));
        }
        for(uint64_t i : {uint64_t(0), l.size() / 2, l.size() - 1}) {
            h.v.assign(l.size(), C());
            h.v[i] = C(3, 4);
            const double v = jump(h);
            MC_CHECK(mc::close(v, 25., 1e-12), "jump of component ", i, " is ", v);
        }
    }
}
void large()
{
    const double pi = std::acos(-1.);
    for(uint64_t n : {255, 256, 257, 300, 70000}) {
        const Chain l(n, 1.);
        const auto none = [](const Operator&, const Operator&) { return 0.5; };
        {
            const B1 b(l);
            const FermiJump1D<double, B1> j(l, none, pi / 2);
            large_one(l, pi / 2, "1d one", [&](const Coefficients& h) { return j(b, h); });
        }
        const FermiJump1D_NO<double, B1> j1(l, none);
        large_one(l, pi / 2, "1d one, normal ordered", [&](const Coefficients& h) { return j1(h); });
        const FermiJump1D_NO<double, B3> j3(l, none);
        large_one(l, pi / 2, "1d three, normal ordered", [&](const Coefficients& h) { return j3(h); });
    }
}
// more sites than a byte counts, with three operators: millions of coefficients, given by a formula
struct Formula {
    using ElementType = C;
    std::vector<C> v;
    uint64_t s = 0;
    explicit Formula(uint64_t n) : v(n) {}
    C at(uint64_t i) const { return C(double((i * s + i / 7) % 7) - 3, double((i / 3 * s + s) % 5) - 2) / 8.; }
    C operator[](uint64_t i) const { return s ? at(i) : v[i]; }
    C& operator[](uint64_t i) { return v[i]; }
};
template <typename Lattice, typename J, typename K, typename P>
void wide_one(const Lattice& l, const K& kf, const std::string& what, const P& phase_of)
{
    MC_CASE(what, " N=", l.size())
    {
        mc::distinct(mc::hash_str(what));
        const uint64_t n = l.size();
        const auto ev    = [](const Operator& a, const Operator& b) { return (a.index1 * 5 + b.index1) % 11 == 0 ? 0.25 : a.index1 == b.index1 ? 0.5 : 0.; };
        const B3 basis(l);
        const J jump(basis, l, ev, kf);
        for(uint64_t s = 1; s < mc::pick(3u, 6u); ++s) {
            Formula h(0);
            h.s = s;
            LC want = 0;
            double scale = 1;
            std::vector<LC> no(n);
            for(uint64_t i = 0; i < basis.size(); ++i) {
                const auto& m = basis[i];
                const auto c  = h.at(i);
                if(m.size() == 1) {
                    no[m[0].index1] += LC(c);
                    continue;
                }
                const auto p = 2 * ev(m[1], m[2]) - (m[1].index1 == m[2].index1 ? 1. : 0.);
                if(p != 0.) no[m[0].index1] += LC(p * c);
            }
            for(uint64_t i = 0; i < n; ++i) {
                want += phase_of(i) * no[i];
                scale += std::abs(C(no[i]));
            }
            const double v = jump(h);
            MC_COUNT("traces", 1);
            MC_CHECK(mc::close(v, double(std::norm(want)), 1e-9 * scale * (1 + double(std::abs(want)))), "jump ", v, " expected ", double(std::norm(want)));
        }
    }
}
void wide()
{
    const double pi = std::acos(-1.);
    {
        const Chain l(257, 1.);
        wide_one<Chain, FermiJump1D<double, B3>>(l, pi / 3, "1d three", [&](uint64_t i) { return phase(l, pi / 3, i); });
    }
    {
        const Square l(129, 2, 1., 0.5);
        const Square::Vector k{pi / 3, pi / 5};
        wide_one<Square, FermiJump2D<double, B3>>(l, k, "2d three", [&](uint64_t i) {
            const auto x = l[i];
            const long double f = (long double)(k[0]) * x[0] + (long double)(k[1]) * x[1];
            return LC(std::cos(f), std::sin(f));
        });
    }
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"wide", wide}, {"chain_one", chain_one}, {"chain_three", chain_three}, {"square_three", square_three}, {"ordered", ordered}, {"inexact", inexact}, {"large", large}});
}

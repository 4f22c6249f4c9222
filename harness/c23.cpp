// C23: one-particle expectation values.
#include "basis_util.hpp"
#include "lattice_util.hpp"
#include "ieompp/models/hubbard_real_space/expectation_value.hpp"

using namespace ieompp::lattices;
using namespace ieompp::models::hubbard_real_space;

template <typename F>
bool same(const F& a, long double b, long double scale)
{
    return std::abs((long double)a - b) <= 8 * (long double)std::numeric_limits<F>::epsilon() * scale;
}

template <typename F, typename I>
void chain(uint64_t n, F dx, F filling, F kf)
{
    MC_CASE(lat::Name<F>::get(), " chain N=", n, " dx=", dx, " filling=", filling, " k_F=", kf)
    {
        mc::distinct(mc::hash_str(mc::str(lat::Name<F>::get(), sizeof(I), n, '/', dx, '/', filling, '/', kf)));
        using L = PeriodicChain<F, I>;
        const L l(n, dx), l2(n + 3, dx * 2);
        const ExpectationValue1DHalfFilled<F, L> ev(l, filling, kf);
        const ExpectationValue1DHalfFilled<F, L> other(l2, F(0.25), kf / 3);
        const ExpectationValue1DHalfFilled<F, L> copy(ev);
        const auto sites = lat::sites(n, 40);
        for(auto a : sites)
            for(auto b : sites) {
                const auto d = lat::ring(a, b, n);
                const long double x    = (long double)d * dx;
                const long double want = d ? std::sin((long double)kf * x) / (lat::pi * x) : (long double)filling;
                const long double scale = d ? (2 + std::abs(kf * x)) / (lat::pi * x) : 1;
                MC_CHECK(same<F>(ev(I(a), I(b)), want, scale), "<", a, ",", b, "> = ", ev(I(a), I(b)), " expected ", (double)want);
                MC_CHECK(ev(I(a), I(b)) == ev(I(b), I(a)), "not symmetric for ", a, ',', b);
                MC_CHECK(ev(I(a), I(b)) == ev(I((a + 1) % n), I((b + 1) % n)), "not translation invariant for ", a, ',', b);
                MC_CHECK(copy(I(a), I(b)) == ev(I(a), I(b)), "copy differs for ", a, ',', b);
                MC_CHECK(uint64_t(ev.lattice_distance(I(a), I(b))) == d, "distance ", a, ',', b);
            }
        for(uint64_t d = 0; d <= (n + 3) / 2; d += 1 + d / 500) {
            const long double x    = (long double)d * l2.dx();
            const long double want = d ? std::sin((long double)(kf / 3) * x) / (lat::pi * x) : 0.25L;
            MC_CHECK(same<F>(other(I(0), I(d)), want, d ? (2 + std::abs(kf * x)) / (lat::pi * x) : 1.L), "second table, distance ", d);
        }
    }
}
template <typename F, typename I>
void chains(uint64_t all)
{
    const F pi = std::acos(F(-1));
    std::vector<uint64_t> sizes{63, 64, 101, 128, 255, 256, 300, 513, 70000, 131073};
    for(uint64_t n = 1; n <= all; ++n) sizes.push_back(n);
    for(auto n : sizes)
        for(F dx : {F(1), F(0.5), F(1.75), F(0.1), F(1) / F(3)})
            for(F filling : {F(0), F(0.25), F(0.5), F(0.6), F(1)}) {
                chain<F, I>(n, dx, filling, filling * pi);
                // any Fermi momentum, whatever the filling
                for(F kf : {F(0.3), F(2.9), F(-0.7), F(4.1)})
                    if(filling == F(0.5) || n <= 40 || n == 256) chain<F, I>(n, dx, filling, kf);
            }
}

template <typename F, typename I>
void squares(uint64_t all)
{
    using L = PeriodicSquareLattice<F, I>;
    std::vector<std::pair<uint64_t, uint64_t>> sizes{{1, 30}, {25, 2}, {16, 17}, {20, 20}, {2, 513}, {520, 1}, {300, 300}, {140000, 1}, {1, 131074}};
    for(uint64_t x = 1; x <= all; ++x)
        for(uint64_t y = 1; y <= all; ++y) sizes.push_back({x, y});
    for(auto s : sizes) {
        const auto nx = s.first, ny = s.second;
        for(F dx : {F(1), F(0.5), F(0.1)})
            MC_CASE(lat::Name<F>::get(), " square ", nx, 'x', ny, " dx=", dx)
            {
                mc::distinct(mc::hash_str(mc::str(lat::Name<F>::get(), sizeof(I), nx, 'x', ny, '/', dx)));
                const L l(nx, ny, dx, F(1)), l2(ny + 1, nx, F(1), F(1));
                const ExpectationValue2DHalfFilled<F, L> ev(l);
                const ExpectationValue2DHalfFilled<F, L> other(l2);
                auto formula = [](uint64_t x, uint64_t y) -> long double {
                    const long double p = lat::pi / 2;
                    const auto sum = x + y, diff = x > y ? x - y : y - x;
                    auto s = [&](uint64_t k) { return (k % 2 == 0) ? 0.L : (k % 4 == 1 ? 1.L : -1.L); }; // sin(k pi / 2)
                    if(!sum) return 0.5L;
                    if(!diff) return s(sum) / sum / lat::pi;
                    return s(sum) / sum * s(diff) / diff / (2 * p * p);
                };
                const auto sites = lat::sites(nx * ny, 450);
                for(auto a : sites)
                    for(auto b : sites) {
                        const uint64_t xa = l.x_index(I(a)), ya = l.y_index(I(a)), xb = l.x_index(I(b)), yb = l.y_index(I(b));
                        const auto x = lat::ring(xa, xb, nx), y = lat::ring(ya, yb, ny);
                        const auto v = ev(I(a), I(b));
                        MC_CHECK(same<F>(v, formula(x, y), x + y ? 4.L : 1.L), "<", a, ",", b, "> = ", v, " expected ", (double)formula(x, y));
                        MC_CHECK(v == ev(I(b), I(a)), "not symmetric for ", a, ',', b);
                        MC_CHECK(v == ev(l.index(I((xa + 1) % nx), I(ya)), l.index(I((xb + 1) % nx), I(yb))), "not translation invariant along x for ", a, ',', b);
                        MC_CHECK(v == ev(l.index(I(xa), I((ya + 1) % ny)), l.index(I(xb), I((yb + 1) % ny))), "not translation invariant along y for ", a, ',', b);
                    }
                for(uint64_t x = 0; x <= (ny + 1) / 2; x += 1 + x / 20)
                    for(uint64_t y = 0; y <= nx / 2; y += 1 + y / 20)
                        MC_CHECK(same<F>(other(I(0), l2.index(I(x), I(y))), formula(x, y), 4.L), "second table, distance ", x, ',', y);
            }
    }
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
                   {{"chain_double", [] { chains<double, uint64_t>(mc::pick(40, 100)); }},
                    {"chain_int", [] { chains<double, int>(mc::pick(20, 40)); }},
                    {"chain_float", [] { chains<float, uint64_t>(mc::pick(20, 40)); }},
                    {"chain_ldouble", [] { chains<long double, uint64_t>(mc::pick(20, 40)); }},
                    {"square_double", [] { squares<double, uint64_t>(mc::pick(9, 16)); }},
                    {"square_int", [] { squares<double, int>(mc::pick(7, 10)); }},
                    {"square_float", [] { squares<float, uint64_t>(mc::pick(7, 10)); }},
                    {"square_ldouble", [] { squares<long double, uint64_t>(mc::pick(7, 10)); }}});
}

// C12: sites and positions convert into each other.
#include "ieompp/types/dot_product.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "lattice_util.hpp"

using namespace ieompp::lattices;

template <typename F>
std::vector<long double> fractions()
{
    std::vector<long double> f{0.0L};
    for(long double x : {0.125L, 0.3L, 0.45L}) {
        f.push_back(x);
        f.push_back(-x);
    }
    if(!std::is_same<F, float>::value) {
        f.push_back(0.49L);
        f.push_back(-0.49L);
        f.push_back(1e-9L);
        f.push_back(-1e-9L);
        f.push_back(0.5L - 1e-9L);
        f.push_back(-0.5L + 1e-9L);
    }
    return f;
}

template <typename F, typename I>
void chain(const PeriodicChain<F, I>& c, uint64_t n, const std::string& what, bool deep)
{
    for(auto s : lat::sites(n, 64)) {
        MC_CASE(what, " N=", n, " site ", s)
        {
            mc::distinct(mc::hash_str(mc::str(what, n, '/', s)));
            const F base = c[I(s)];
            MC_CHECK(lat::near<F>(base, (long double)c.x_min() + (long double)s * c.dx()), "position ", base);
            for(int image = -3; image <= 3; ++image)
                for(auto f : fractions<F>()) {
                    const F v = F((long double)c.x_min() + (s + f) * (long double)c.dx() + image * (long double)c.x_length());
                    const auto i = c(v);
                    MC_CHECK(uint64_t(i) == s, "site of ", v, " (", f, " spacings, image ", image, ") is ", i);
                    if(deep) {
                        const auto j = c.closest(v);
                        MC_CHECK(uint64_t(j) == s, "closest to ", v, " (", f, " spacings, image ", image, ") is ", j);
                    }
                }
            MC_CHECK(uint64_t(c(base)) == s, "site of its own position");
        }
    }
}

template <typename F, typename I>
void chains(uint64_t all)
{
    std::vector<uint64_t> ns;
    for(uint64_t n = 1; n <= all; ++n) ns.push_back(n);
    for(uint64_t n : {100ull, 1000ull, 1023ull, 1024ull}) ns.push_back(n);
    for(auto n : ns) {
        const auto types = mc::str("chain<", lat::Name<F>::get(), ",", lat::Name<I>::get(), "> ");
        chain(PeriodicChain<F, I>{I(n)}, n, types + "momentum", n <= all || n == 1000);
        for(const F dx : {F(1), F(0.1), F(0.25), F(2.5), F(1) / F(3)})
            chain(PeriodicChain<F, I>{I(n), dx}, n, mc::str(types, "dx=", dx), n <= all && (dx == F(1) || dx == F(0.1)));
    }
}

template <typename F, typename I>
void square(const PeriodicSquareLattice<F, I>& c, uint64_t nx, uint64_t ny, const std::string& what, bool deep)
{
    using V = typename PeriodicSquareLattice<F, I>::Vector;
    const auto fr = fractions<F>();
    for(auto sx : lat::sites(nx, 16))
        for(auto sy : lat::sites(ny, 16)) {
            MC_CASE(what, " ", nx, "x", ny, " site ", sx, ",", sy)
            {
                mc::distinct(mc::hash_str(mc::str(what, nx, 'x', ny, '/', sx, ',', sy)));
                const I s    = c.index(I(sx), I(sy));
                const V base = c[s];
                MC_CHECK(lat::near<F>(base[0], (long double)c.x_min() + (long double)sx * c.dx()), "x position ", base[0]);
                MC_CHECK(lat::near<F>(base[1], (long double)c.y_min() + (long double)sy * c.dy()), "y position ", base[1]);
                MC_CHECK(c(base) == s, "site of its own position");
                const int far = deep ? 2 : 1;
                for(int ix = -far; ix <= far; ++ix)
                    for(int iy = -far; iy <= far; ++iy)
                        for(std::size_t a = 0; a < fr.size(); ++a)
                            for(std::size_t b = 0; b < fr.size(); b += (a == 0 || mc::thorough()) ? 1 : 2) {
                                const V v{F((long double)c.x_min() + (sx + fr[a]) * (long double)c.dx() + ix * (long double)c.x_length()),
                                          F((long double)c.y_min() + (sy + fr[b]) * (long double)c.dy() + iy * (long double)c.y_length())};
                                const I i = c(v);
                                MC_CHECK(i == s, "site of ", v[0], ",", v[1], " (", fr[a], ",", fr[b], " spacings, image ", ix, ",", iy, ") is ", i, " expected ", s);
                                if(deep && (a == b || a == 0 || b == 0)) {
                                    const I j = c.closest(v);
                                    MC_CHECK(j == s, "closest to ", v[0], ",", v[1], " (", fr[a], ",", fr[b], " spacings, image ", ix, ",", iy, ") is ", j, " expected ", s);
                                }
                            }
            }
        }
}

template <typename F, typename I>
void squares(uint64_t all)
{
    std::vector<std::pair<uint64_t, uint64_t>> ns;
    for(uint64_t x = 1; x <= all; ++x)
        for(uint64_t y = 1; y <= all; ++y) ns.emplace_back(x, y);
    ns.emplace_back(2, 100);
    ns.emplace_back(101, 3);
    for(auto p : ns) {
        const auto types = mc::str("square<", lat::Name<F>::get(), ",", lat::Name<I>::get(), "> ");
        const bool deep  = p.first <= all && p.second <= all;
        square(PeriodicSquareLattice<F, I>{I(p.first), I(p.second)}, p.first, p.second, types + "momentum", deep);
        square(PeriodicSquareLattice<F, I>{I(p.first), I(p.second), F(1), F(1)}, p.first, p.second, types + "1,1", deep);
        square(PeriodicSquareLattice<F, I>{I(p.first), I(p.second), F(0.1), F(2.5)}, p.first, p.second, types + "0.1,2.5", deep);
    }
}

// sizes beyond the range of one and of two bytes
template <typename I>
void large()
{
    using C = PeriodicChain<double, I>;
    using S = PeriodicSquareLattice<double, I>;
    for(uint64_t n : {300ull, 70000ull}) {
        const C c{I(n), 1.};
        for(uint64_t s : {uint64_t(0), uint64_t(2), n / 2, n - 2, n - 1})
            MC_CASE("chain N=", n, " site ", s)
            {
                mc::distinct(mc::hash_str(mc::str("large", lat::Name<I>::get(), n, '/', s)));
                for(double f : {0., 0.375, -0.375})
                    for(int image = -1; image <= 1; ++image) {
                        const double v = c.x_min() + s + f + image * double(n);
                        MC_CHECK(uint64_t(c(v)) == s, "site of ", v, " is ", c(v));
                        MC_CHECK(uint64_t(c.closest(v)) == s, "closest to ", v, " is ", c.closest(v));
                    }
            }
    }
    for(auto n : {std::make_pair(20ull, 15ull), std::make_pair(300ull, 2ull), std::make_pair(2ull, 300ull), std::make_pair(280ull, 250ull), std::make_pair(2ull, 35000ull)}) {
        const S c{I(n.first), I(n.second), 1., 1.};
        for(uint64_t s : {uint64_t(0), uint64_t(n.first + 1), uint64_t(n.first * n.second / 2), uint64_t(n.first * n.second - 2), uint64_t(n.first * n.second - 1)})
            MC_CASE("square ", n.first, "x", n.second, " site ", s)
            {
                mc::distinct(mc::hash_str(mc::str("large", lat::Name<I>::get(), n.first, 'x', n.second, '/', s)));
                const auto base = c[I(s)];
                MC_CHECK(base[0] == double(s / n.second) + c.x_min() && base[1] == double(s % n.second) + c.y_min(), "position ", base[0], ',', base[1]);
                for(double f : {0., 0.375, -0.375})
                    for(int image = -1; image <= 1; ++image) {
                        typename S::Vector v{base[0] + f + image * double(n.first), base[1] - f - image * double(n.second)};
                        MC_CHECK(uint64_t(c(v)) == s, "site of ", v[0], ',', v[1], " is ", c(v));
                        MC_CHECK(uint64_t(c.closest(v)) == s, "closest to ", v[0], ',', v[1], " is ", c.closest(v));
                    }
            }
    }
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
                   {{"chain_double", [] { chains<double, unsigned long>(mc::pick(32, 128)); chains<double, int>(mc::pick(8, 64)); }},
                    {"chain_float", [] { chains<float, unsigned long>(mc::pick(20, 96)); }},
                    {"chain_ldouble", [] { chains<long double, unsigned long>(mc::pick(20, 96)); }},
                    {"large", [] { large<unsigned long>(); large<int>(); }},
                    {"square_double", [] { squares<double, unsigned long>(mc::pick(5, 9)); }},
                    {"square_double_int", [] { squares<double, int>(mc::pick(3, 6)); }},
                    {"square_float", [] { squares<float, unsigned long>(mc::pick(4, 7)); }},
                    {"square_ldouble", [] { squares<long double, unsigned long>(mc::pick(4, 7)); }}});
}

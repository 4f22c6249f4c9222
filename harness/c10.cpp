// C10: the periodic chain is a ring.
#include "ieompp/lattices/periodic_chain.hpp"
#include "lattice_util.hpp"

using ieompp::lattices::PeriodicChain;

template <typename L>
void topology(const L& chain, uint64_t n, const std::string& what, uint64_t all)
{
    using I = typename L::SiteIndex;
    const auto list = lat::sites(n, all);
    // every site is listed once per bond, from one of its two ends
    std::map<uint64_t, std::vector<uint64_t>> unique_of;
    for(auto a : list) {
        MC_CASE(what, " N=", n, " site ", a)
        {
            mc::distinct(mc::hash_str(mc::str(what, n, '/', a)));
            const I ia = I(a);
            const auto nb = lat::sorted(chain.neighbors(ia));
            std::vector<uint64_t> want{(a + n - 1) % n, (a + 1) % n};
            std::sort(want.begin(), want.end());
            MC_CHECK(nb == want, "neighbors ", nb, " expected ", want);
            const auto un = lat::sorted(chain.unique_neighbors(ia));
            MC_CHECK(un.size() == 1 && std::find(want.begin(), want.end(), un[0]) != want.end(),
                     "unique neighbors ", un);
            if(n > 2)
                for(auto j : chain.neighbors(ia)) {
                    const int listed = (chain.unique_neighbors(ia)[0] == j) + (chain.unique_neighbors(j)[0] == ia);
                    MC_CHECK(listed == 1, "the bond with ", j, " is listed ", listed, " times");
                }
            for(auto b : list) {
                const uint64_t d = lat::ring(a, b, n);
                const uint64_t got = uint64_t(chain.lattice_distance(ia, I(b)));
                MC_CHECK(got == d, "distance to ", b, " is ", got, " expected ", d);
                MC_CHECK(uint64_t(chain.lattice_distance(I(b), ia)) == d, "distance from ", b);
                if(n > 1) {
                    MC_CHECK(chain.neighboring(ia, I(b)) == (d == 1), "neighboring with ", b, " is ",
                             chain.neighboring(ia, I(b)));
                }
            }
        }
    }
    if(n <= all) {
        MC_CASE(what, " N=", n, " bonds")
        {
            // each bond {i, i+1} exactly once among all unique neighbours
            std::map<std::pair<uint64_t, uint64_t>, int> seen, expected;
            for(uint64_t a = 0; a < n; ++a) {
                for(auto b : chain.unique_neighbors(I(a)))
                    ++seen[{std::min<uint64_t>(a, b), std::max<uint64_t>(a, b)}];
                const uint64_t b = (a + 1) % n;
                ++expected[{std::min(a, b), std::max(a, b)}];
            }
            MC_CHECK(seen == expected, "unique neighbours do not list each bond once");
        }
    }
}

template <typename L>
void iteration(L& chain, uint64_t n, const std::string& what)
{
    using I = typename L::SiteIndex;
    MC_CASE(what, " N=", n, " iteration")
    {
        std::vector<uint64_t> got, got2, got3;
        const L& c = chain;
        for(auto i : c) got.push_back(uint64_t(i));
        for(auto i : chain) got2.push_back(uint64_t(i));
        for(auto it = c.cbegin(); it != c.cend(); ++it) {
            auto e = it;
            got3.push_back(uint64_t(*e));
        }
        std::vector<uint64_t> want(n);
        for(uint64_t i = 0; i < n; ++i) want[i] = i;
        MC_CHECK(got == want, "const iteration ", got);
        MC_CHECK(got2 == want, "iteration ", got2);
        MC_CHECK(got3 == want, "cbegin/cend iteration ", got3);
        MC_CHECK(I(c.end() - c.begin()) == I(n), "end - begin");
    }
}

template <typename F, typename I>
void sizes(uint64_t all)
{
    std::vector<uint64_t> ns;
    for(uint64_t n = 1; n <= all; ++n) ns.push_back(n);
    for(uint64_t n : {127ull, 128ull, 1000ull, 65535ull, 65536ull, 1000003ull, 1000000000ull, 4294967295ull, 4294967296ull, 6000000007ull})
        if(n < uint64_t(std::numeric_limits<I>::max())) ns.push_back(n);
    for(auto n : ns) {
        const auto types = mc::str("chain<", lat::Name<F>::get(), ",", lat::Name<I>::get(), "> ");
        {
            PeriodicChain<F, I> c{I(n)};
            topology(c, n, types + "momentum", all);
            if(n <= all || n == 1000 || n == 65536) iteration(c, n, types + "momentum");
            MC_CASE(types, "momentum N=", n, " extents")
            {
                const F dx(2 * lat::pi / n);
                MC_CHECK(c.size() == I(n), "size");
                MC_CHECK(c.first() == I(0) && c.last() == I(n - 1), "first/last");
                MC_CHECK(lat::near<F>(c.x_min(), -lat::pi), "x_min ", c.x_min());
                MC_CHECK(lat::near<F>(c.x_max(), lat::pi), "x_max ", c.x_max());
                MC_CHECK(lat::near<F>(c.x_length(), 2 * lat::pi), "x_length ", c.x_length());
                MC_CHECK(lat::near<F>(c.dx() * F(n), 2 * lat::pi), "dx ", c.dx());
                MC_CHECK(c.lattice_vectors().size() == 1 && c.lattice_vectors()[0] == c.dx(), "lattice vector");
            }
        }
        for(const F dx : {F(1), F(0.1), F(0.25), F(2.5), F(1) / F(3)}) {
            PeriodicChain<F, I> c{I(n), dx};
            const auto what = mc::str(types, "dx=", dx);
            if(dx == F(1) || dx == F(0.1)) {
                topology(c, n, what, std::min<uint64_t>(all, 16));
                if(n <= all || n == 1000 || n == 65536) iteration(c, n, what);
            }
            MC_CASE(what, " N=", n, " extents")
            {
                MC_CHECK(c.size() == I(n), "size");
                MC_CHECK(c.first() == I(0) && c.last() == I(n - 1), "first/last");
                MC_CHECK(c.x_min() == F(0), "x_min ", c.x_min());
                MC_CHECK(lat::near<F>(c.x_max(), (long double)dx * (n - 1)), "x_max ", c.x_max());
                MC_CHECK(lat::near<F>(c.x_length(), (long double)dx * n), "x_length ", c.x_length());
                MC_CHECK(c.dx() == dx, "dx ", c.dx());
                MC_CHECK(c.lattice_vectors().size() == 1 && c.lattice_vectors()[0] == dx, "lattice vector");
            }
        }
    }
    static_assert(PeriodicChain<F, I>::coordination_number == 2, "coordination number");
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
                   {{"double_u64", [] { sizes<double, unsigned long>(mc::pick(40, 128)); }},
                    {"double_u32", [] { sizes<double, unsigned>(mc::pick(24, 96)); }},
                    {"double_int", [] { sizes<double, int>(mc::pick(24, 96)); }},
                    {"float_long", [] { sizes<float, long>(mc::pick(24, 96)); }},
                    {"ldouble_u64", [] { sizes<long double, unsigned long>(mc::pick(24, 96)); }}});
}

// C11: the periodic square lattice is a torus.
#include "ieompp/types/dot_product.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "lattice_util.hpp"

using ieompp::lattices::PeriodicSquareLattice;
using Pair = std::pair<uint64_t, uint64_t>;

template <typename L>
void topology(const L& l, uint64_t nx, uint64_t ny, const std::string& what, uint64_t all)
{
    using I = typename L::SiteIndex;
    const auto xs = lat::sites(nx, all), ys = lat::sites(ny, all);
    // the coordinates the lattice itself advertises, checked to be a bijection onto the grid
    MC_CASE(what, " ", nx, "x", ny, " index map")
    {
        mc::distinct(mc::hash_str(mc::str(what, nx, 'x', ny)));
        std::set<uint64_t> seen;
        for(auto x : xs)
            for(auto y : ys) {
                const I i = l.index(I(x), I(y));
                MC_CHECK(uint64_t(i) < nx * ny, "index of ", x, ",", y, " is ", i);
                MC_CHECK(uint64_t(l.x_index(i)) == x && uint64_t(l.y_index(i)) == y, "coordinates of ", i, " are ",
                         l.x_index(i), ",", l.y_index(i), " expected ", x, ",", y);
                MC_CHECK(seen.insert(uint64_t(i)).second, "index ", i, " twice");
            }
    }
    for(auto x : xs)
        for(auto y : ys) {
            MC_CASE(what, " ", nx, "x", ny, " site ", x, ",", y)
            {
                mc::distinct(mc::hash_str(mc::str(what, nx, 'x', ny, '/', x, ',', y)));
                const I i = l.index(I(x), I(y));
                auto coord = [&](I j) { return Pair(uint64_t(l.x_index(j)), uint64_t(l.y_index(j))); };
                std::vector<Pair> want{{(x + 1) % nx, y}, {(x + nx - 1) % nx, y}, {x, (y + 1) % ny}, {x, (y + ny - 1) % ny}};
                std::vector<Pair> got;
                for(auto j : l.neighbors(i)) {
                    MC_CHECK(uint64_t(j) < nx * ny, "neighbour ", j);
                    got.push_back(coord(j));
                }
                std::sort(want.begin(), want.end());
                std::sort(got.begin(), got.end());
                MC_CHECK(got == want, "neighbors ", got, " expected ", want);
                if(nx > 2 && ny > 2)
                    for(auto j : l.neighbors(i)) {
                        int listed = 0;
                        for(auto k : l.unique_neighbors(i)) listed += k == j;
                        for(auto k : l.unique_neighbors(j)) listed += k == i;
                        MC_CHECK(listed == 1, "the bond with ", j, " is listed ", listed, " times");
                    }
                for(auto x2 : xs)
                    for(auto y2 : ys) {
                        const I j = l.index(I(x2), I(y2));
                        const auto dx = lat::ring(x, x2, nx), dy = lat::ring(y, y2, ny);
                        MC_CHECK(uint64_t(l.lattice_distance_x(i, j)) == dx, "x distance to ", x2, ",", y2, " is ", l.lattice_distance_x(i, j), " expected ", dx);
                        MC_CHECK(uint64_t(l.lattice_distance_y(i, j)) == dy, "y distance to ", x2, ",", y2, " is ", l.lattice_distance_y(i, j), " expected ", dy);
                        if(nx > 1 && ny > 1) {
                            const bool nb = dx + dy == 1;
                            MC_CHECK(l.neighboring(i, j) == nb, "neighboring with ", x2, ",", y2, " is ", l.neighboring(i, j));
                        }
                    }
            }
        }
    if(nx <= all && ny <= all) {
        MC_CASE(what, " ", nx, "x", ny, " bonds")
        {
            std::map<Pair, int> seen, expected;
            auto add = [](std::map<Pair, int>& m, uint64_t a, uint64_t b) { ++m[{std::min(a, b), std::max(a, b)}]; };
            for(uint64_t x = 0; x < nx; ++x)
                for(uint64_t y = 0; y < ny; ++y) {
                    const I i = l.index(I(x), I(y));
                    for(auto j : l.unique_neighbors(i)) add(seen, i, j);
                    add(expected, i, l.index(I((x + 1) % nx), I(y)));
                    add(expected, i, l.index(I(x), I((y + 1) % ny)));
                }
            MC_CHECK(seen == expected, "unique neighbours do not list each bond once");
        }
    }
}

template <typename L>
void iteration(L& l, uint64_t n, const std::string& what)
{
    using I = typename L::SiteIndex;
    MC_CASE(what, " N=", n, " iteration")
    {
        std::vector<uint64_t> got, got2, got3, want(n);
        const L& c = l;
        for(auto i : c) got.push_back(uint64_t(i));
        for(auto i : l) got2.push_back(uint64_t(i));
        for(auto it = c.cbegin(); it != c.cend(); ++it) {
            auto e = it;
            got3.push_back(uint64_t(*e));
        }
        for(uint64_t i = 0; i < n; ++i) want[i] = i;
        MC_CHECK(got == want, "const iteration ", got);
        MC_CHECK(got2 == want, "iteration ", got2);
        MC_CHECK(got3 == want, "cbegin/cend iteration ", got3);
        MC_CHECK(I(c.end() - c.begin()) == I(n), "end - begin");
    }
}

template <typename F, typename I>
void sizes(uint64_t all)
{
    std::vector<Pair> ns;
    for(uint64_t x = 1; x <= all; ++x)
        for(uint64_t y = 1; y <= all; ++y) ns.emplace_back(x, y);
    for(auto p : std::vector<Pair>{{1, 40}, {40, 1}, {2, 33}, {33, 2}, {3, 1000}, {1000, 3}, {1000, 1001}, {30000, 30001}, {70000, 70001}, {3, 2000000000}, {2000000000, 3}})
        if(p.first * p.second < uint64_t(std::numeric_limits<I>::max())) ns.push_back(p);
    for(auto p : ns) {
        const uint64_t nx = p.first, ny = p.second;
        const auto types = mc::str("square<", lat::Name<F>::get(), ",", lat::Name<I>::get(), "> ");
        {
            PeriodicSquareLattice<F, I> c{I(nx), I(ny)};
            topology(c, nx, ny, types + "momentum", all);
            if(nx * ny <= 100 || (nx == 1000 && ny == 3)) iteration(c, nx * ny, types + "momentum");
            MC_CASE(types, "momentum ", nx, "x", ny, " extents")
            {
                MC_CHECK(c.size() == I(nx * ny) && c.size_x() == I(nx) && c.size_y() == I(ny), "sizes");
                MC_CHECK(c.first() == I(0) && c.last() == I(nx * ny - 1), "first/last");
                MC_CHECK(lat::near<F>(c.x_min(), -lat::pi) && lat::near<F>(c.y_min(), -lat::pi), "min ", c.x_min(), " ", c.y_min());
                MC_CHECK(lat::near<F>(c.x_max(), lat::pi) && lat::near<F>(c.y_max(), lat::pi), "max ", c.x_max(), " ", c.y_max());
                MC_CHECK(lat::near<F>(c.x_length(), 2 * lat::pi) && lat::near<F>(c.y_length(), 2 * lat::pi), "length");
                MC_CHECK(lat::near<F>(c.dx() * F(nx), 2 * lat::pi), "dx ", c.dx());
                MC_CHECK(lat::near<F>(c.dy() * F(ny), 2 * lat::pi), "dy ", c.dy());
                MC_CHECK(c.lattice_vectors().size() == 2, "lattice vectors");
                MC_CHECK(c.lattice_vectors()[0][0] == c.dx() && c.lattice_vectors()[0][1] == F(0), "lattice vector x");
                MC_CHECK(c.lattice_vectors()[1][0] == F(0) && c.lattice_vectors()[1][1] == c.dy(), "lattice vector y");
            }
        }
        for(auto d : std::vector<std::pair<F, F>>{{F(1), F(1)}, {F(0.1), F(2.5)}, {F(0.25), F(1) / F(3)}}) {
            PeriodicSquareLattice<F, I> c{I(nx), I(ny), d.first, d.second};
            const auto what = mc::str(types, "dx=", d.first, " dy=", d.second);
            if(d.first == F(0.1)) {
                topology(c, nx, ny, what, std::min<uint64_t>(all, 5));
                if(nx * ny <= 100 || (nx == 1000 && ny == 3)) iteration(c, nx * ny, what);
            }
            MC_CASE(what, " ", nx, "x", ny, " extents")
            {
                MC_CHECK(c.size() == I(nx * ny) && c.size_x() == I(nx) && c.size_y() == I(ny), "sizes");
                MC_CHECK(c.first() == I(0) && c.last() == I(nx * ny - 1), "first/last");
                MC_CHECK(c.x_min() == F(0) && c.y_min() == F(0), "min ", c.x_min(), " ", c.y_min());
                MC_CHECK(lat::near<F>(c.x_max(), (long double)d.first * (nx - 1)), "x_max ", c.x_max());
                MC_CHECK(lat::near<F>(c.y_max(), (long double)d.second * (ny - 1)), "y_max ", c.y_max());
                MC_CHECK(lat::near<F>(c.x_length(), (long double)d.first * nx), "x_length ", c.x_length());
                MC_CHECK(lat::near<F>(c.y_length(), (long double)d.second * ny), "y_length ", c.y_length());
                MC_CHECK(c.dx() == d.first && c.dy() == d.second, "spacing");
                MC_CHECK(c.lattice_vectors()[0][0] == c.dx() && c.lattice_vectors()[0][1] == F(0), "lattice vector x");
                MC_CHECK(c.lattice_vectors()[1][0] == F(0) && c.lattice_vectors()[1][1] == c.dy(), "lattice vector y");
            }
        }
    }
    static_assert(PeriodicSquareLattice<F, I>::coordination_number == 4, "coordination number");
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
                   {{"double_u64", [] { sizes<double, unsigned long>(mc::pick(8, 16)); }},
                    {"double_u32", [] { sizes<double, unsigned>(mc::pick(6, 12)); }},
                    {"double_int", [] { sizes<double, int>(mc::pick(6, 12)); }},
                    {"float_long", [] { sizes<float, long>(mc::pick(6, 12)); }},
                    {"ldouble_u64", [] { sizes<long double, unsigned long>(mc::pick(5, 10)); }}});
}

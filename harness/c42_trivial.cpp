// C42: the smallest program, a closed system of four coefficients.
#include "prog.hpp"
#include "src/hubbard/hubbard_trivial.cpp"
#include "sim_util.hpp"

using sim::C;
using sim::LD;

void table()
{
    MC_CASE("the program's table")
    {
        mc::distinct(mc::hash_str("trivial"));
        ::unlink("trivial.txt");
        const auto r = sim::start({}, "trivial.txt");
        MC_CHECK(r.status == 0 && r.has_out, "status ", r.status);
        MC_CHECK(r.rows.size() == 2001, r.rows.size(), " rows");
        // two sites: creators on both sites, hopping -2J in the symmetric pairing, interaction U/2
        const std::vector<liou::Row> m{{{0, .5}, {1, -1}, {2, -1}, {3, .5}}, {{0, -1}, {1, .5}}, {{0, -1}, {2, .5}}, {{0, .5}, {3, .5}}};
        sim::Evolution e(m, 0.01L);
        const double inv = double(1 / lat::pi);
        for(std::size_t k = 0; k < r.rows.size(); ++k) {
            if(k) e.step();
            MC_COUNT("states", 1);
            const auto& row = r.rows[k];
            MC_CHECK(row.size() == 11, "row ", k, " has ", row.size(), " fields");
            if(row.size() != 11) break;
            MC_CHECK(sim::near(row[0], 0.01 * double(k), 0.), "time of row ", k, " is ", row[0]);
            C n = 0;
            for(int i = 0; i < 4; ++i) {
                MC_CHECK(sim::near(row[1 + 2 * i], double(e.h[i].real()), 1.) && sim::near(row[2 + 2 * i], double(e.h[i].imag()), 1.), "coefficient ", i, " in row ", k, " is ",
                         row[1 + 2 * i], ',', row[2 + 2 * i], " expected ", std::complex<double>(e.h[i]));
                for(int j = 0; j < 4; ++j) {
                    const double w = i == j ? (i < 3 ? .5 : .25) : (i < 3 && j < 3) ? inv : (i == 0 || j == 0) ? .25 : .5 * inv;
                    n += (i == j ? C(std::norm(e.h[i])) : e.h[i] * e.h[j]) * (LD)w;
                }
            }
            MC_CHECK(sim::near(row[9], double(n.real()), 1.) && sim::near(row[10], double(n.imag()), 1.), "particle number in row ", k, " is ", row[9], ',', row[10], " expected ",
                     std::complex<double>(n));
        }
        ::unlink("trivial.txt");
        ::unlink("cout");
    }
}
int prog::explorer(int argc, char** argv)
{
    return sim::explore(argc, argv, {{"table", table}});
}

// Parallel subjects: results of every explored schedule compared with the sequential one.
#ifndef VERIF_OMP_UTIL_HPP
#define VERIF_OMP_UTIL_HPP
#include "mc.hpp"
#include "mc_omp.hpp"

#include <cstring>

namespace omp
{
    using Values = std::vector<double>;

    inline bool same(const Values& a, const Values& b, double tol)
    {
        if(a.size() != b.size()) return false;
        if(tol == 0) return a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0;
        double scale = 1;
        for(auto x : b) scale = std::max(scale, std::abs(x));
        for(std::size_t i = 0; i < a.size(); ++i)
            if(!(std::abs(a[i] - b[i]) <= tol * scale)) return false;
        return true;
    }

    inline std::string show(const Values& v)
    {
        std::string s;
        for(std::size_t i = 0; i < v.size() && i < 12; ++i) s += mc::str(i ? " " : "", v[i]);
        return s + (v.size() > 12 ? " ..." : "");
    }

    // tol = 0: bit for bit
    template <typename Make>
    void explore(const std::string& what, int threads, int preemptions, uint64_t max_schedules, bool all, double tol, Make make)
    {
        MC_CASE(what, " with ", threads, " threads, ", preemptions, " preemptions")
        {
            mc::distinct(mc::hash_str(mc::str(what, '/', threads)));
            mcomp::set_threads(1);
            const Values want = make();
            Values got;
            bool ok = true;
            std::string wrong;
            const auto st = mcomp::explore(
                threads, preemptions, max_schedules, [&] { got = make(); },
                [&] {
                    if(ok && !same(got, want, tol)) {
                        ok = false;
                        wrong = show(got);
                    }
                    return ok;
                });
            mcomp::set_threads(1);
            MC_CHECK(same(make(), want, 0), "the sequential result changes when it is computed again");
            MC_CHECK(ok, "a schedule gives ", wrong, " instead of ", show(want));
            MC_CHECK(st.races == 0, st.races, " pairs of unordered accesses: ", st.race_text);
            MC_COUNT("traces", st.schedules);
            MC_COUNT("states", st.points + st.schedules);
            MC_COUNT("transitions", st.schedules * (st.regions * threads) + st.worksharing + st.locks);
            MC_COUNT("accesses", st.accesses);
            MC_COUNT("regions", st.regions);
            if(all && st.capped) MC_COUNT("capped", 1);
        }
    }

    // small teams under every schedule, larger ones under the default schedule (accesses are still
    // checked for order, which does not depend on the schedule)
    template <typename Make>
    void subject(const std::string& what, int full, double tol, Make make)
    {
        for(int t = 1; t <= 4; ++t) explore(what, t, t <= full ? mc::pick(2, 3) : 0, mc::pick(4000, 200000), t <= full, tol, make);
        for(int t : {5, 6, 7, 8, 13, 16}) explore(what, t, 0, 1, false, tol, make);
    }
} // namespace omp
#endif

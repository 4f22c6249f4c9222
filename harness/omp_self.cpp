// Self-test of the OpenMP explorer: known-good and known-bad regions.
#include "mc.hpp"
#include "mc_omp.hpp"
#include <omp.h>
#include <vector>
static int once_value() { static const int v = [] { return 41; }() + 1; return v; }
static std::vector<double> big() { return std::vector<double>(10, 1.); }
const std::vector<double>& lazy() { static const std::vector<double> v = big(); return v; }
void probe(const char* name, int threads, bool racy, bool wrong, std::function<void()> body, std::function<bool()> right)
{
    MC_CASE(name, " with ", threads, " threads")
    {
        bool ok = true;
        auto st = mcomp::explore(threads, 2, 20000, body, [&] { ok = ok && right(); return true; });
        MC_CHECK((st.races > 0) == (racy && threads > 1), "races ", st.races, " ", st.race_text);
        MC_CHECK(ok == !(wrong && threads > 1), "wrong result seen: ", !ok);
        MC_CHECK(!st.capped, "capped");
        std::cerr << name << " threads " << threads << " schedules " << st.schedules << " points " << st.points << " acc " << st.accesses << " races " << st.races << " conflicts " << st.conflicts << " " << st.race_text << "\n";
    }
}
void part_self()
{
    for(int t : {1, 2, 3}) {
        static int x;
        static std::vector<int> v;
        probe("plain counter", t, true, true, [] { x = 0;
#pragma omp parallel for schedule(static)
            for(int i = 0; i < 3; ++i) { int y = x; x = y + 1; } }, [] { return x == 3; });
        probe("critical", t, false, false, [] { x = 0;
#pragma omp parallel for
            for(int i = 0; i < 3; ++i) {
#pragma omp critical
                ++x; } }, [] { return x == 3; });
        probe("atomic", t, false, false, [] { x = 0;
#pragma omp parallel for
            for(int i = 0; i < 3; ++i) {
#pragma omp atomic
                ++x; } }, [] { return x == 3; });
        probe("reduction", t, false, false, [] { x = 0;
#pragma omp parallel for reduction(+:x)
            for(int i = 0; i < 3; ++i) ++x; }, [] { return x == 3; });
        // regions inside a region: teams of one, run side by side
        probe("nested", t, false, false, [t] { v.assign(8, 0);
#pragma omp parallel
            { const int me = omp_get_thread_num();
              int sum = 0;
#pragma omp parallel for schedule(dynamic, 1) reduction(+:sum)
              for(int i = 0; i < 4; ++i) sum += omp_get_thread_num() == 0 && omp_get_num_threads() == 1 ? i : 100;
              v[me] = sum + (omp_get_num_threads() == t ? 0 : 100); } }, [t] { for(int i = 0; i < t; ++i) if(v[i] != 6) return false; return true; });
        probe("nested with shared data", t, true, true, [] { x = 0;
#pragma omp parallel
            {
#pragma omp parallel for schedule(dynamic, 1)
              for(int i = 0; i < 2; ++i) { int y = x; x = y + 1; } } }, [t] { return x == 2 * t; });
        probe("nested in a loop", t, false, false, [] { v.assign(8, 0);
#pragma omp parallel for schedule(dynamic, 1)
            for(int k = 0; k < 3; ++k) {
                int sum = 0;
#pragma omp parallel for schedule(dynamic, 1)
                for(int i = 0; i < 3; ++i)
#pragma omp critical
                    sum += i;
                v[k] = sum + k; } }, [] { return v[0] == 3 && v[1] == 4 && v[2] == 5; });
        static double d;
        probe("double reduction", t, false, false, [] { double e = 0;
#pragma omp parallel for reduction(+:e)
            for(int i = 0; i < 3; ++i) e += i; d = e; }, [] { return d == 3; });
        probe("emplace without critical", t, true, true, [] { v.clear(); v.reserve(8);
#pragma omp parallel
            { v.push_back(omp_get_thread_num()); } }, [t] { return int(v.size()) == t; });
        probe("emplace with critical", t, false, false, [] { v.clear();
#pragma omp parallel
            {
#pragma omp critical
                v.push_back(omp_get_thread_num()); } }, [t] { return int(v.size()) == t; });
        probe("local static", t, false, false, [] { v.assign(8, 0);
#pragma omp parallel for
            for(int i = 0; i < 8; ++i) v[i] = once_value() + int(lazy()[i]); }, [] { return v[7] == 43; });
        probe("barrier", t, false, false, [] { v.assign(4, 0);
#pragma omp parallel
            { v[omp_get_thread_num()] = 1;
#pragma omp barrier
              int s = v[0] + v[1]; 
#pragma omp barrier
              v[omp_get_thread_num()] = s; } }, [t] { return v[0] == (t > 1 ? 2 : 1); });
        probe("no barrier", t, true, true, [] { v.assign(4, 0);
#pragma omp parallel
            { v[omp_get_thread_num()] = 1;
              int s = v[0] + v[1]; 
#pragma omp barrier
              v[omp_get_thread_num()] = s; } }, [t] { return v[0] == (t > 1 ? 2 : 1); });
        probe("dynamic", t, false, false, [] { v.assign(8, 0);
#pragma omp parallel for schedule(dynamic, 1)
            for(int i = 0; i < 4; ++i) v[omp_get_thread_num()] += i; }, [] { int s = 0; for(int e : v) s += e; return s == 6; });
        probe("nowait", t, true, true, [] { v.assign(8, 0);
#pragma omp parallel
            {
#pragma omp for nowait
            for(int i = 0; i < 4; ++i) v[i] = i;
#pragma omp for
            for(int i = 0; i < 4; ++i) v[4 + i] = v[3 - i];
            } }, [] { return v[4] == 3; });
        probe("two loops", t, false, false, [] { v.assign(8, 0);
#pragma omp parallel
            {
#pragma omp for
            for(int i = 0; i < 4; ++i) v[i] = i;
#pragma omp for
            for(int i = 0; i < 4; ++i) v[4 + i] = v[3 - i];
            } }, [] { return v[4] == 3; });
    }
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"self", part_self}}); }

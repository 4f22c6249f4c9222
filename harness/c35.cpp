// C35: when a measurement is due.
#include "mc.hpp"
#include "common.hpp"

// "at least the requested number of steps, counted to the nearest step", in exact arithmetic where the
// count is not a tie (1/16 of a step around it is left open)
template <typename F>
int expected(F t, F last, F dt, uint64_t interval)
{
    if(last >= t) return 0;
    const long double q = ((long double)(t) - (long double)(last)) / (long double)(dt);
    const long double d = q - ((long double)(interval)-0.5L);
    const long double u = 4 * std::numeric_limits<F>::epsilon() * q + 1e-15L;
    if(interval == 0) return 1;
    if(d > u) return 1;
    if(d < -u) return 0;
    return -1;
}
template <typename F>
const char* name();
template <>
const char* name<float>() { return "float"; }
template <>
const char* name<double>() { return "double"; }
template <>
const char* name<long double>() { return "long double"; }

// all pairs of times on and around a grid
template <typename F>
void grid(int n)
{
    const F dts[] = {F(1), F(0.5), F(0.1), F(0.01), F(0.001), F(0.3), F(7), F(1. / 3), F(1e-6), F(1024)};
    const F offs[] = {F(0), F(0.25), F(-0.25), F(0.45), F(-0.45), F(0.5), F(-0.5)};
    for(F dt : dts)
        for(uint64_t interval : {0, 1, 2, 3, 5, 10, 63}) {
            MC_CASE(name<F>(), " dt ", dt, " interval ", interval, " times on a grid of ", n)
            {
                mc::distinct(mc::hash_str(mc::str(name<F>(), dt, interval)));
                for(int i = 0; i <= n; ++i)
                    for(int j = -3; j <= n + 70; ++j)
                        for(F a : offs)
                            for(F b : {F(0), F(0.125), F(-0.25)}) {
                                const F last = (F(i) + b) * dt, t = (F(j) + a) * dt;
                                const int e = expected(t, last, dt, interval);
                                const bool r = has_time_interval_passed(t, last, dt, interval);
                                if(e < 0) {
                                    MC_COUNT("ties", 1);
                                    continue;
                                }
                                MC_CHECK(r == bool(e), "at ", t, " after ", last, " due: ", r, ", steps ", (t - last) / dt);
                            }
            }
        }
}
// neighbouring floating point numbers
template <typename F>
void neighbours()
{
    for(F last : {F(0), F(1), F(0.1), F(1000)})
        for(uint64_t interval : {0, 1, 2, 3}) {
            MC_CASE(name<F>(), " last ", last, " interval ", interval, " times next to it")
            {
                F t = last;
                for(int k = 0; k < 40; ++k) t = std::nextafter(t, F(-1e9));
                for(int k = 0; k < 80; ++k) {
                    for(F dt : {F(1e-3), F(1), F(1e3)}) {
                        const int e = expected(t, last, dt, interval);
                        if(e >= 0) MC_CHECK(has_time_interval_passed(t, last, dt, interval) == bool(e), "at ", t, " dt ", dt);
                    }
                    t = std::nextafter(t, F(1e9));
                }
                mc::distinct(mc::hash_str(mc::str(name<F>(), last, interval)));
            }
        }
}
void part_grid()
{
    grid<double>(mc::pick(40, 60));
    grid<float>(mc::pick(20, 40));
    grid<long double>(mc::pick(20, 40));
    neighbours<double>();
    neighbours<float>();
    neighbours<long double>();
}
// whole runs: time advances by adding dt, a measurement sets last
template <typename F>
void runs(uint64_t steps, std::initializer_list<F> dts, std::initializer_list<uint64_t> intervals, std::initializer_list<F> starts)
{
    for(F dt : dts)
        for(uint64_t interval : intervals)
            for(F start : starts) {
                MC_CASE(name<F>(), " run of ", steps, " steps of ", dt, ", interval ", interval, ", from ", start)
                {
                    mc::distinct(mc::hash_str(mc::str(name<F>(), dt, interval, start)));
                    F t = start, last = start;
                    uint64_t last_step = 0, bad = 0;
                    for(uint64_t k = 1; k <= steps && !bad; ++k) {
                        t += dt;
                        const bool due = has_time_interval_passed(t, last, dt, interval);
                        const bool want = (k - last_step >= interval);
                        if(due != want) bad = k;
                        if(due) {
                            last      = t;
                            last_step = k;
                            MC_COUNT("measurements", 1);
                        }
                    }
                    MC_COUNT("steps", steps);
                    MC_CHECK(!bad, "at step ", bad, " the measurement is ", (bad - last_step >= interval) ? "missing" : "early");
                }
            }
}
void part_runs()
{
    const uint64_t n = 1000000;
    runs<double>(n, {0.01, 0.1, 1e-3, 0.25, 1. / 3, 0.7, 1e-7, 3., 0.07}, {1, 2, 3, 5, 7, 10, 100, 1000, 9999}, {0.});
    runs<double>(n, {0.01, 0.1, 1e-3, 1. / 3}, {1, 2, 3, 10, 97}, {-5., 0.1, 100., 12345.678});
    runs<long double>(n, {0.01L, 0.1L, 1.L / 3}, {1, 2, 3, 10, 100, 1000}, {0.L});
    runs<float>(2000, {0.01f, 0.1f, 0.25f, 1.f / 3}, {1, 2, 3, 5, 7, 10}, {0.f});
    // every interval up to a bound
    for(uint64_t i = 1; i <= 1024; ++i) runs<double>(i * 5 + 7, {0.01, 0.1, 0.3, 1. / 7}, {i}, {0.});
}
// another schedule of calls: whatever is asked in between does not matter, a declined measurement stays due
void part_late()
{
    for(double dt : {0.01, 0.1, 0.3})
        for(uint64_t interval = 1; interval <= 200; ++interval)
            for(uint64_t late = 0; late <= 12; ++late) {
                MC_CASE("dt ", dt, " interval ", interval, ", measured ", late, " steps late")
                {
                    double t = 0, last = 0;
                    uint64_t since = 0, measured = 0;
                    for(uint64_t k = 1; k <= 12 * interval; ++k) {
                        t += dt;
                        ++since;
                        for(int again = 0; again < 2; ++again)
                            MC_CHECK(has_time_interval_passed(t, last, dt, interval) == (since >= interval), "step ", k, ", ", since, " after the last");
                        has_time_interval_passed(t * 2, t, dt, interval + 1);
                        if(since >= interval + late) {
                            last  = t;
                            since = 0;
                            ++measured;
                        }
                    }
                    mc::distinct(mc::hash_str(mc::str(dt, interval, late)));
                    MC_COUNT("measurements", measured);
                }
            }
}
// intervals and step counts too large for a narrower integer or for the fraction of a float
template <typename F>
void far(std::initializer_list<F> dts)
{
    const std::vector<uint64_t> intervals{255, 256, 257, 65535, 65536, 65537, (1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, (1ull << 33) + 7, 1ull << 40, 1ull << 52, (1ull << 63) - 1, 1ull << 63, ~0ull};
    for(F dt : dts)
        for(auto interval : intervals) {
            MC_CASE(name<F>(), " dt ", dt, " interval ", interval, ", elapsed steps around every one of ", intervals.size(), " counts")
            {
                mc::distinct(mc::hash_str(mc::str("far", name<F>(), dt, interval)));
                auto ask = [&](F steps) {
                    for(F off : {F(0), F(1), F(-3), F(1024)}) {
                        const F last = off * dt, t = last + steps * dt;
                        if((t - last) / dt >= F(9e18)) continue;
                        const int e = expected(t, last, dt, interval);
                        if(e < 0) {
                            MC_COUNT("ties", 1);
                            continue;
                        }
                        MC_COUNT("questions", 1);
                        MC_CHECK(has_time_interval_passed(t, last, dt, interval) == bool(e), "at ", t, " after ", last, " due: ", !e, ", steps ", steps);
                    }
                };
                for(auto n : intervals)
                    for(int d = -3; d <= 3; ++d) ask(F(n) + F(d) * std::max(F(1), F(n) * 8 * std::numeric_limits<F>::epsilon()));
                for(F n = 1; n < F(9e18); n *= 2) ask(n);
            }
        }
}
void part_large()
{
    far<double>({1, 0.5, 1. / 1024, 0.01, 1. / 3, 1e-9, 1e6});
    far<float>({1.f, 0.5f, 1.f / 1024, 0.01f});
    far<long double>({1.L, 0.5L, 1.L / 1024, 0.01L});
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"grid", part_grid}, {"runs", part_runs}, {"late", part_late}, {"large", part_large}}); }

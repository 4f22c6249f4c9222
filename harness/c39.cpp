// C39: the kinetic theory program, run as it is under a controlled OpenMP runtime.
#include "prog.hpp"
#include "mc_omp.hpp"

#include "src/hubbard/hubbard_real_1d_kinetic_theory.cpp"

#include <unistd.h>

// Bessel functions of integer order, by Miller's backward recurrence
std::vector<long double> bessel(unsigned orders, long double x)
{
    std::vector<long double> j(orders, 0);
    if(x == 0) {
        j[0] = 1;
        return j;
    }
    int top = std::max(int(orders), int(x)) + 60 + int(3 * std::sqrt(x + orders));
    top += top % 2;
    long double next = 0, value = 1e-300L, norm = 0;
    for(int n = top; n >= 0; --n) {
        // value = J_n, next = J_{n+1}, up to a common factor
        if(n < int(orders)) j[n] = value;
        if(n % 2 == 0) norm += (n == 0 ? 1 : 2) * value;
        const long double before = 2 * n / x * value - next;
        next = value;
        value = before;
        if(std::abs(value) > 1e1000L) {
            for(auto& y : j) y *= 1e-2000L;
            norm *= 1e-2000L;
            next *= 1e-2000L;
            value *= 1e-2000L;
        }
    }
    for(auto& y : j) y /= norm;
    return j;
}

const int SITES = 128, STEPS = 10000;
const double DT = 0.01;

// site occupation of the half-filled chain, spin up: sum over pairs of ev(i,j) h_i conj(h_j)
const std::vector<double>& model()
{
    static const std::vector<double> v = [] {
        const long double pi = std::acos(-1.L);
        auto dist = [](int a, int b) { const int d = std::abs(a - b); return std::min(d, SITES - d); };
        std::vector<double> ev(SITES);
        for(int d = 0; d < SITES; ++d) {
            const int e = dist(0, d);
            ev[d] = e == 0 ? 0.5 : double(std::sin(pi / 2 * e) / (pi * e));
        }
        std::vector<double> r;
        for(int s = 0; s < STEPS; ++s) {
            const auto j = bessel(SITES / 2 + 1, 2.L * s * (long double)DT);
            // the phase (-i)^d makes h real for even and imaginary for odd distances
            std::vector<double> re(SITES, 0.), im(SITES, 0.);
            for(int i = 0; i < SITES; ++i) {
                const int d = dist(0, i);
                const double b = double(j[d]);
                (d % 2 ? im : re)[i] = (d % 4 == 0 || d % 4 == 3) ? b : -b;
            }
            double sum = 0;
            for(int i = 0; i < SITES; ++i) {
                double part = 0;
                for(int k = 0; k < SITES; ++k) part += ev[std::abs(i - k)] * (re[i] * re[k] + im[i] * im[k]);
                sum += part;
            }
            r.push_back(sum);
        }
        return r;
    }();
    return v;
}

void check_table(const std::string& who)
{
    std::ifstream f("theory.txt");
    MC_CHECK(bool(f), who, ": no theory.txt");
    const auto& want = model();
    std::string line;
    int n = 0;
    while(std::getline(f, line)) {
        if(n >= STEPS) {
            ++n;
            continue;
        }
        std::istringstream is(line);
        double t = -1, re = NAN, im = NAN;
        std::string rest;
        is >> t >> re >> im;
        MC_CHECK(!is.fail() && !(is >> rest), who, ": line ", n, " is ", line);
        MC_CHECK(std::abs(t - n * DT) <= 1e-5 * (1 + n * DT), who, ": line ", n, " has time ", t);
        MC_CHECK(std::abs(re - want[n]) <= 1e-5 * std::abs(want[n]) + 1e-9, who, ": line ", n, " is ", re, " expected ", want[n]);
        MC_CHECK(std::abs(im) <= 1e-9, who, ": line ", n, " has imaginary part ", im);
        MC_COUNT("states", 1);
        ++n;
    }
    MC_CHECK(n == STEPS, who, ": ", n, " lines");
}

void run_with(int threads)
{
    MC_CASE("the program with ", threads, " threads")
    {
        mc::distinct(threads);
#ifdef MC_OMP_TSAN
        // one execution, the first accesses of every thread and region checked for order
        mcomp::set_access_budget(200000);
        const auto st = mcomp::explore(threads, -1, 1, [] { ::unlink("theory.txt"); prog::run(); }, [] { check_table("instrumented"); return true; });
        MC_CHECK(st.races == 0, st.races, " pairs of unordered accesses: ", st.race_text);
        MC_COUNT("transitions", st.regions * threads + st.locks);
        MC_COUNT("accesses", st.accesses);
        MC_COUNT("traces", st.schedules);
#else
        mcomp::set_threads(threads);
        ::unlink("theory.txt");
        const int rc = prog::run();
        mcomp::set_threads(1);
        MC_CHECK(rc == 0, "exit code ", rc);
        check_table("program");
        MC_COUNT("transitions", threads);
        MC_COUNT("traces", 1);
#endif
    }
}

int prog::explorer(int argc, char** argv)
{
    return mc::run(argc, argv,
                   {{"few", [] { run_with(1); run_with(2); }},
                    {"some", [] { run_with(3); run_with(5); }},
                    {"many", [] { run_with(8); run_with(16); }},
                    {"more", [] { for(int t : {4, 6, 7, 9, 10, 11, 12, 13, 14, 15}) run_with(t); }},
                    {"races", [] { run_with(2); run_with(9); }},
                    {"races3", [] { run_with(3); }}});
}

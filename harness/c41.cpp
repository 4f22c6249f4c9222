// C41: the dispersion program, run as it is under a controlled OpenMP runtime.
#include "prog.hpp"
#include "mc_omp.hpp"

#include "src/hubbard/hubbard_dispersion_1d.cpp"

#include <unistd.h>

const int POINTS = 1024;

std::string read_table()
{
    std::ifstream f("dispersion.txt");
    std::ostringstream os;
    os << f.rdbuf();
    return os.str();
}
void check_table(const std::string& text)
{
    std::istringstream f(text);
    std::string line;
    int n = 0;
    while(std::getline(f, line)) {
        std::istringstream is(line);
        double k = NAN, e = NAN;
        std::string rest;
        is >> k >> e;
        MC_CHECK(!is.fail() && !(is >> rest), "line ", n, " is ", line);
        const long double pi = std::acos(-1.L), want = -pi + 2 * pi * n / POINTS, energy = -2 * std::cos(want);
        // six digits are printed
        MC_CHECK(std::abs(k - want) <= 6e-6L * std::abs(want) + 1e-12L, "line ", n, " has momentum ", k, " expected ", double(want));
        MC_CHECK(std::abs(e - energy) <= 6e-6L * std::abs(energy) + 1e-12L, "line ", n, " has energy ", e, " expected ", double(energy));
        MC_COUNT("states", 1);
        ++n;
    }
    MC_CHECK(n == POINTS, n, " lines");
    MC_CHECK(!text.empty() && text.back() == '\n', "the last line is not complete");
}
void teams(int first, int last)
{
    for(int t = first; t <= last; ++t)
        MC_CASE("the program with ", t, " threads")
        {
            mc::distinct(t);
            std::string sequential;
            mcomp::set_threads(1);
            ::unlink("dispersion.txt");
            MC_CHECK(prog::run() == 0, "exit code");
            sequential = read_table();
            check_table(sequential);
            const auto st = mcomp::explore(
                t, t <= 4 ? 2 : -1, 10000, [] { ::unlink("dispersion.txt"); prog::run(); },
                [&] {
                    const auto text = read_table();
                    MC_CHECK(text == sequential, "the table differs from the one of a single thread");
                    check_table(text);
                    return text == sequential;
                });
            MC_CHECK(st.races == 0, st.races, " pairs of unordered accesses: ", st.race_text);
            MC_COUNT("traces", st.schedules + 1);
            MC_COUNT("transitions", st.schedules * st.regions * t);
            MC_COUNT("accesses", st.accesses);
            if(st.capped && t <= 4) MC_COUNT("capped", 1);
        }
}

int prog::explorer(int argc, char** argv)
{
    return mc::run(argc, argv, {{"small", [] { teams(1, 4); }}, {"large", [] { teams(5, 16); }}});
}

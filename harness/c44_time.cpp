// C44: the execution time in the log, under a clock that the explorer sets.
#include "mc.hpp"
#include "common.hpp"

#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>

static bool armed       = false;
static uint64_t reading = 0; // nanoseconds
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept
{
    if(!armed) return int(::syscall(SYS_clock_gettime, id, t));
    t->tv_sec  = time_t(reading / 1000000000u);
    t->tv_nsec = long(reading % 1000000000u);
    return 0;
}

// the times in seconds that a text reports as its execution times
std::vector<double> times(const std::string& text, const std::string& before)
{
    std::vector<double> v;
    for(std::size_t at = text.find(before); at != std::string::npos; at = text.find(before, at + 1)) {
        const char* from = text.c_str() + at + before.size();
        char* end        = nullptr;
        const double x   = std::strtod(from, &end);
        v.push_back(end != from && (*end == 's' || std::string(end, 2) == " s") ? x : -1.);
    }
    return v;
}
void expect(const std::vector<double>& got, const std::vector<uint64_t>& want, const std::string& what)
{
    MC_CHECK(got.size() == want.size(), what, ": ", got.size(), " execution times instead of ", want.size());
    for(std::size_t i = 0; i < std::min(got.size(), want.size()); ++i)
        MC_CHECK(std::abs(got[i] - 1e-9 * double(want[i])) <= 1e-5 * 1e-9 * double(want[i]), what, ": ", got[i], " s instead of ", 1e-9 * double(want[i]), " s");
}
const std::vector<uint64_t> starts{0, 1, 999999999u, 7200000000123u, uint64_t(1) << 61};
const std::vector<uint64_t> lasts{0, 1, 1500, 250000, 2000000, 125500000, 1000000000, 1999999999u, 59000000000u, 61250000000u, 3600000000000u, 90061500000000u, 4294967296000000u, uint64_t(31536000) * 1000000000u};

// one timer, asked several times
void timer()
{
    for(auto s : starts)
        for(auto a : lasts)
            for(auto b : lasts) {
                if(b < a) continue;
                MC_CASE("timer created at ", s, " ns, asked after ", a, " and ", b, " ns")
                {
                    mc::distinct(mc::hash_str(mc::str("t", s, '/', a, '/', b)));
                    std::ostringstream os;
                    armed   = true;
                    reading = s;
                    {
                        ApplicationTimer t;
                        reading = s + a;
                        os << "@" << t << '\n';
                        reading = s + b;
                        os << "@" << t << '\n';
                        const ApplicationTimer other;
                        reading = s + b + a;
                        os << "@" << other << '\n';
                        os << "@" << t << '\n';
                    }
                    armed = false;
                    expect(times(os.str(), "@"), {a, b, a, a + b}, "timer");
                }
            }
}
// a whole application: created, parsed, run, closed
void application()
{
    const std::string dir = "/tmp/verif-time-" + std::to_string(::getpid());
    ::mkdir(dir.c_str(), 0700);
    for(auto s : starts)
        for(auto a : lasts)
            for(auto b : {uint64_t(0), uint64_t(500000000), uint64_t(100000000000)})
                MC_CASE("application started at ", s, " ns, options after ", a, " ns, finished ", b, " ns later")
                {
                    mc::distinct(mc::hash_str(mc::str("a", s, '/', a, '/', b)));
                    const std::string out = dir + "/out.txt";
                    std::fflush(nullptr);
                    const pid_t p = ::fork();
                    if(p == 0) {
                        if(!std::freopen("/dev/null", "w", stdout) || !std::freopen("/dev/null", "w", stderr)) ::_exit(9);
                        Application::name        = "prog";
                        Application::description = "test";
                        Application::add_default_options();
                        std::string o = "--out=" + out, n = "prog";
                        char* argv[] = {&n[0], &o[0], nullptr};
                        armed   = true;
                        reading = s;
                        {
                            Application app(2, argv);
                            reading += a;
                            app.output_file << "x\n";
                            reading += b;
                        }
                        armed = false;
                        ::_exit(0);
                    }
                    int st = 0;
                    ::waitpid(p, &st, 0);
                    MC_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "status ", st);
                    std::ifstream f(dir + "/out.log");
                    expect(times(std::string((std::istreambuf_iterator<char>(f)), {}), "Execution time: "), {a + b}, "log");
                    MC_COUNT("traces", 1);
                    for(const char* e : {"/out.log", "/out.txt", "/out.rsp"}) ::unlink((dir + e).c_str());
                }
    ::rmdir(dir.c_str());
}

int main(int argc, char** argv) { return mc::run(argc, argv, {{"timer", timer}, {"application", application}}); }

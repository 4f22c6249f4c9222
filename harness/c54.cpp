// C54: what cannot be written or read is reported, and what goes wrong only for a moment does no harm.
// SIM 1-6: the simulation programs; 7-9: the programs that write a table.
#if SIM <= 6
#include "sim_program.hpp"
#else
#include "prog.hpp"
#if SIM == 7
#include "src/hubbard/hubbard_dispersion_1d.cpp"
#elif SIM == 8
#include "src/hubbard/hubbard_trivial.cpp"
#elif SIM == 9
#include "src/hubbard/hubbard_real_1d_kinetic_theory.cpp"
#endif
#include "sim_util.hpp"
#endif
#include "fault_util.hpp"

#include <csignal>
#include <exception>
#include <sys/resource.h>
#include <sys/wait.h>

using Files = std::map<std::string, std::string>;
Files files(const std::string& out)
{
    Files f;
    for(auto& x : {out, sim::stem(out) + ".rsp", sim::stem(out) + "_matrix.blaze"}) {
        std::string s;
        if(sim::slurp(x, s)) f[x] = s;
    }
    return f;
}
// not the log: the log library decides what it does about that
bool results(const std::string& path)
{
    return path.find(".log") == std::string::npos && (path.find(".txt") != std::string::npos || path.find(".rsp") != std::string::npos || path.find(".blaze") != std::string::npos);
}
struct Ended {
    bool fired = false;
    int status = 0;
};
struct Order {
    uint64_t at;
    fault::Mode mode;
    bool arm;
};
static int report; // where the process says that the operation failed
void prepare(const Order& o, int to)
{
    ::alarm(120);
    const struct rlimit none = {0, 0};
    ::setrlimit(RLIMIT_CORE, &none);
    report             = to;
    fault::interesting = results;
    fault::mode        = o.mode;
    fault::at          = o.at;
    fault::armed       = o.arm;
    fault::on_fire     = [] { (void)!::syscall(SYS_write, report, "f", 1); };
}
void quiet()
{
    const int null = ::open("/dev/null", O_RDWR);
    for(int i : {0, 1, 2}) ::dup2(null, i);
    ::setenv("LOGNAME", "somebody", 1);
}
[[noreturn]] void program_run(const std::vector<std::string>& args)
{
    const int rc = prog::run(args);
    fault::armed = false;
    std::fflush(nullptr);
    ::_exit(rc);
}
#if SIM <= 6
Ended run(const std::vector<std::string>& args, uint64_t at, fault::Mode mode, bool arm = true)
{
    std::fflush(nullptr);
    int pipe[2];
    if(::pipe(pipe)) std::abort();
    const pid_t p = ::fork();
    if(p == 0) {
        ::close(pipe[0]);
        quiet();
        prepare(Order{at, mode, arm}, pipe[1]);
        program_run(args);
    }
    ::close(pipe[1]);
    Ended e;
    char c;
    e.fired = ::syscall(SYS_read, pipe[0], &c, 1) == 1;
    ::close(pipe[0]);
    ::waitpid(p, &e.status, 0);
    MC_COUNT("traces", 1);
    return e;
}
#else
// These programs compute first and open their file then: one process computes, and its copies go on from there.
static int orders[2], answers[2];
void serve()
{
    Order o;
    while(::syscall(SYS_read, orders[0], &o, sizeof o) == sizeof o) {
        int pipe[2];
        if(::pipe(pipe)) std::abort();
        const pid_t p = ::fork();
        if(p == 0) {
            ::close(pipe[0]);
            ::close(orders[0]);
            prepare(o, pipe[1]);
            return;
        }
        ::close(pipe[1]);
        Ended e;
        char c;
        e.fired = ::syscall(SYS_read, pipe[0], &c, 1) == 1;
        ::close(pipe[0]);
        ::waitpid(p, &e.status, 0);
        (void)!::syscall(SYS_write, answers[1], &e, sizeof e);
    }
    ::_exit(0);
}
Ended run(const std::vector<std::string>& args, uint64_t at, fault::Mode mode, bool arm = true)
{
    static bool started = false;
    if(!started) {
        started = true;
        std::fflush(nullptr);
        if(::pipe(orders) || ::pipe(answers)) std::abort();
        if(::fork() == 0) {
            ::close(orders[1]);
            ::close(answers[0]);
            quiet();
            ::alarm(120);
            fault::interesting  = results;
            fault::before_first = [] {
                ::alarm(0);
                serve();
            };
            program_run(args);
        }
        ::close(orders[0]);
        ::close(answers[1]);
    }
    const Order o{at, mode, arm};
    Ended e;
    std::memset(&e, 0, sizeof e);
    e.status = -1;
    ::signal(SIGPIPE, SIG_IGN);
    (void)!::syscall(SYS_write, orders[1], &o, sizeof o);
    if(::syscall(SYS_read, answers[0], &e, sizeof e) != sizeof e) mc::violate("", "the program ends before it opens its file");
    MC_COUNT("traces", 1);
    return e;
}
#endif
const char* name(fault::Mode m)
{
    switch(m) {
    case fault::once: return "fails once";
    case fault::full: return "fails for good";
    case fault::torn: return "is torn and fails for good";
    case fault::part: return "is done in parts";
    default: return "is interrupted";
    }
}
void one(const std::string& key, const std::string& out, const std::vector<std::string>& args)
{
    for(auto mode : {fault::once, fault::full, fault::torn, fault::part, fault::signal})
        MC_CASE(key, ": a file operation ", name(mode))
        {
            mc::distinct(mc::hash_str(mc::str(key, int(mode))));
            sim::unlink_all(out);
            const auto u = run(args, 0, mode, false);
            const auto whole = files(out);
            MC_CHECK(u.status == 0 && whole.count(out), "status ", u.status, " of an undisturbed run");
            uint64_t at = 0;
            for(; at < 3000 && !mc::S().stop; ++at) {
                sim::unlink_all(out);
                const auto e = run(args, at, mode);
                auto f       = files(out);
                MC_COUNT("transitions", 1);
                MC_COUNT("states", 1);
                MC_CHECK(!WIFSIGNALED(e.status) || WTERMSIG(e.status) == SIGABRT, "killed by signal ", WTERMSIG(e.status), ", operation ", at);
                const bool success = WIFEXITED(e.status) && WEXITSTATUS(e.status) == 0;
                if(success) {
                    for(auto& w : whole) MC_CHECK(f.count(w.first) && f[w.first] == w.second, "reports success though operation ", at, " ", name(mode), " and ", w.first, " is not complete");
                } else
                    MC_CHECK(e.fired && !fault::harmless(mode), "fails with status ", e.status, e.fired ? " though nothing was lost" : " though nothing failed", ", operation ", at);
                const auto& o = f[out];
                MC_CHECK(o.size() <= whole.at(out).size() && !whole.at(out).compare(0, o.size(), o), "operation ", at, " ", name(mode), ": the output is not the beginning of that of an undisturbed run");
                if(!e.fired) break;
                if(!success) {
                    // the same again, when the disk works
                    const auto r = run(args, 0, mode, false);
                    MC_CHECK(r.status == 0 && files(out) == whole, "run again after operation ", at, ": other files");
                }
            }
            MC_CHECK(at >= 1 && at < 3000, at, " operations");
            sim::unlink_all(out);
        }
}
#if SIM <= 6
void runs()
{
    const auto p = program();
    std::vector<std::pair<uint64_t, uint64_t>> sizes;
    if(SIM == 6)
        sizes = {{1, 1}, {2, 2}};
    else
        sizes = {{1, 1}, {3, 1}};
    if(SIM == 3 || SIM == 5) sizes.push_back({SIM == 3 ? 8 : 700, 1}); // lines longer than a buffer
    if(mc::thorough()) sizes.push_back(SIM == 6 ? std::pair<uint64_t, uint64_t>{2, 3} : std::pair<uint64_t, uint64_t>{5, 1});
    for(auto s : sizes)
        for(std::size_t i = 0; i < sim::schedules().size(); ++i) {
            const auto& t = sim::schedules()[i];
            const auto n  = t.t_end / t.dt;
            if(n < 1 || n > mc::pick(8, 40)) continue;
            if(!mc::thorough() && i > (s.first > 1 ? 1 : 3)) continue;
            for(bool named : {true, false})
                for(bool response : {false, true}) {
                    Config c;
                    c.nx      = s.first;
                    c.ny      = s.second;
                    c.J       = 0.5;
                    c.U       = -3;
                    c.filling = 0.25;
                    c.kx      = 0.75;
                    c.ky      = -1.25;
                    c.dt      = t.dt;
                    c.t_end   = t.t_end;
                    c.every   = t.every;
                    std::string key = mc::str(p.name, named ? " --out" : "", response ? " response file" : "");
                    std::vector<std::string> a;
                    for(auto& o : p.options) {
                        key += " " + o + "=" + sim::option(c, o);
                        a.push_back("--" + o + "=" + sim::option(c, o));
                    }
                    const std::string out = named ? "result.v1.txt" : p.name + ".txt";
                    if(response) {
                        std::ofstream f("given.rsp");
                        for(auto& x : a) f << x << '\n';
                        a = {"--response_file=given.rsp"};
                    }
                    if(named) a.push_back("--out=" + out);
                    one(key, out, a);
                    ::unlink("given.rsp");
                }
        }
}
#else
void runs()
{
#if SIM == 7
    one("the dispersion program", "dispersion.txt", {});
#elif SIM == 8
    one("the two site program", "trivial.txt", {});
#elif SIM == 9
    one("the theory program", "theory.txt", {});
#endif
}
#endif
int prog::explorer(int argc, char** argv) { return sim::explore(argc, argv, {{"runs", runs}}); }

// C50: a simulation that is stopped at any point leaves what it measured so far, and can be repeated.
#include "sim_program.hpp"
#include "crash_util.hpp"

// everything a run leaves
using Files = std::map<std::string, std::string>;
Files files(const std::string& out)
{
    Files f;
    for(auto& x : {out, sim::stem(out) + ".rsp", sim::stem(out) + ".log", sim::stem(out) + "_matrix.blaze"}) {
        std::string s;
        if(sim::slurp(x, s)) f[x] = s;
    }
    return f;
}
// runs the program, which dies at the given point; true: it got to its end
bool run(const std::vector<std::string>& args, uint64_t at)
{
    std::fflush(nullptr);
    const pid_t p = ::fork();
    if(p == 0) {
        ::alarm(120);
        const int null = ::open("/dev/null", O_RDWR);
        for(int i : {0, 1, 2}) ::dup2(null, i);
        ::setenv("LOGNAME", "somebody", 1);
        kill_at = at;
        point   = 0;
        armed   = at != uint64_t(-1);
        const int rc = prog::run(args);
        armed = false;
        std::fflush(nullptr);
        ::_exit(rc);
    }
    int st = 0;
    ::waitpid(p, &st, 0);
    const bool died = WIFEXITED(st) && WEXITSTATUS(st) == 42;
    MC_CHECK(died || (WIFEXITED(st) && WEXITSTATUS(st) == 0), "the program ended with status ", st, " at point ", at);
    MC_COUNT("traces", 1);
    return !died;
}
// integration steps that the log says are finished
uint64_t steps(const std::string& log)
{
    uint64_t n = 0;
    std::size_t from = 0;
    for(std::size_t e; (e = log.find('\n', from)) != std::string::npos; from = e + 1) {
        const auto l = log.substr(from, e - from);
        n += l.find(" -> ") != std::string::npos && l.find("t=") != std::string::npos && l.find(".txt") == std::string::npos;
    }
    return n;
}
// complete lines with values
uint64_t measurements(const std::string& text)
{
    uint64_t n = 0;
    std::size_t from = 0;
    for(std::size_t e; (e = text.find('\n', from)) != std::string::npos; from = e + 1) n += text[from] != '#';
    return n;
}
bool prefix(const std::string& a, const std::string& b) { return a.size() <= b.size() && !b.compare(0, a.size(), a); }

// the files of a complete run; the log also tells how long things took
void same(const Files& want, const Files& got, const std::string& out, const std::string& what)
{
    const auto log = sim::stem(out) + ".log";
    for(auto& w : want) {
        MC_CHECK(got.count(w.first), what, ": no file ", w.first);
        if(!got.count(w.first)) continue;
        if(w.first == log)
            MC_CHECK(steps(got.at(log)) == steps(w.second), what, ": the log has ", steps(got.at(log)), " steps instead of ", steps(w.second));
        else
            MC_CHECK(got.at(w.first) == w.second, what, ": ", w.first, " differs from that of the complete run");
    }
    MC_CHECK(got.size() == want.size(), what, ": ", got.size(), " files instead of ", want.size());
}

void one(const sim::Program& p, const Config& c, bool named, bool before)
{
    std::string key = mc::str(p.name, named ? " --out" : "", before ? " after an earlier run" : "");
    for(auto& o : p.options) key += " " + o + "=" + sim::option(c, o);
    MC_CASE("stopping ", key)
    {
        mc::distinct(mc::hash_str(key));
        const std::string out = named ? "result.v1.txt" : p.name + ".txt";
        auto args             = [&](const Config& k) {
            std::vector<std::string> a;
            for(auto& o : p.options) a.push_back("--" + o + "=" + sim::option(k, o));
            if(named) a.push_back("--out=" + out);
            return a;
        };
        sim::unlink_all(out);
        run(args(c), -1);
        const auto whole   = files(out);
        const auto outputs = whole.count(out) ? whole.at(out) : "";
        const auto logs    = whole.count(sim::stem(out) + ".log") ? whole.at(sim::stem(out) + ".log") : "";
        const auto total   = steps(logs);
        MC_CHECK(measurements(outputs) >= 1 && total >= 1, "the run has ", measurements(outputs), " measurements and ", total, " steps");
        Config earlier = c; // longer, other values
        earlier.t_end += 4 * c.dt;
        earlier.J += 1;
        std::string old_log;
        uint64_t seen = 0;
        for(uint64_t at = 0; at < 20000 && !mc::S().stop; ++at) {
            sim::unlink_all(out);
            if(before) {
                run(args(earlier), -1);
                old_log = files(out)[sim::stem(out) + ".log"];
            }
            const bool end = run(args(c), at);
            auto f         = files(out);
            MC_COUNT("transitions", 1);
            MC_COUNT("states", 1);
            const auto &o = f[out], &l = f[sim::stem(out) + ".log"];
            // before the program opens its files they are those of the earlier run
            const bool opened = !before || prefix(o, outputs);
            if(opened || end) {
                MC_CHECK(prefix(o, outputs), "stopped at point ", at, ": the output is not the beginning of that of the complete run: ", o.substr(0, 200));
                const auto done = before && l == old_log ? 0 : steps(l);
                seen            = std::max(seen, done);
                const auto due  = done ? (done - 1) / c.every + 1 : 0;
                MC_CHECK(measurements(o) >= due, "stopped at point ", at, " after ", done, " steps: ", measurements(o), " measurements in the output instead of ", due);
                if(done)
                    for(auto& w : whole)
                        if(w.first != out && w.first != sim::stem(out) + ".log") MC_CHECK(f.count(w.first) && f[w.first] == w.second, "stopped at point ", at, " after ", done, " steps: ", w.first, " is not complete");
            }
            if(end) {
                same(whole, files(out), out, "undisturbed run");
                break;
            }
            // the same run again, over what the stopped one left
            run(args(c), -1);
            same(whole, files(out), out, mc::str("run again after a stop at point ", at));
        }
        MC_CHECK(seen == total, "stopped after at most ", seen, " of ", total, " steps");
        sim::unlink_all(out);
    }
}
void stops()
{
    const auto p = program();
    std::vector<std::pair<uint64_t, uint64_t>> sizes;
    if(SIM == 6)
        sizes = {{1, 1}, {2, 1}, {2, 2}};
    else if(big)
        sizes = {{1, 1}, {2, 1}, {3, 1}, {16, 1}};
    else
        sizes = {{1, 1}, {2, 1}, {3, 1}};
    if(mc::thorough()) sizes.push_back(SIM == 6 ? std::pair<uint64_t, uint64_t>{2, 3} : std::pair<uint64_t, uint64_t>{5, 1});
    for(auto s : sizes)
        for(std::size_t i = 0; i < sim::schedules().size(); ++i) {
            const auto& t = sim::schedules()[i];
            const auto n  = t.t_end / t.dt;
            if(n < 1 || n > mc::pick(8, 40)) continue;
            if(!mc::thorough() && s.first * s.second > 2 && i > 2) continue;
            for(bool named : {true, false})
                for(bool before : {false, true}) {
                    if(before && !mc::thorough() && (i > 1 || s.first * s.second > 2)) continue;
                    Config c;
                    c.nx      = s.first;
                    c.ny      = s.second;
                    c.J       = 0.5;
                    c.U       = -3;
                    c.filling = 0.25;
                    c.kx      = 0.75;
                    c.ky      = -1.25;
                    c.dt      = t.dt;
                    c.t_end   = t.t_end;
                    c.every   = t.every;
                    one(p, c, named, before);
                }
        }
}
int prog::explorer(int argc, char** argv) { return sim::explore(argc, argv, {{"stops", stops}}); }

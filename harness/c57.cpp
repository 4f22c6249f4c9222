// C57: runs with different output files that go on at the same time do not disturb each other. Every interleaving of
// their file operations within the bound; also, one of them is killed at every moment.
#include "sim_program.hpp"
#include "inter_util.hpp"

#include <dirent.h>
#include <sys/stat.h>

using Files = std::map<std::string, std::string>;
// the text of a log without numbers: they contain times
std::string without_numbers(const std::string& s)
{
    std::string r;
    for(char c : s)
        if(std::isalpha(static_cast<unsigned char>(c)) || c == '\n') r += c;
    return r;
}
void collect(const std::string& dir, Files& f)
{
    DIR* d = ::opendir(dir.c_str());
    if(!d) std::abort();
    while(auto* e = ::readdir(d)) {
        const std::string name = e->d_name, path = dir + "/" + name;
        if(name == "." || name == "..") continue;
        struct stat st;
        if(::lstat(path.c_str(), &st)) continue;
        if(S_ISDIR(st.st_mode))
            collect(path, f);
        else {
            std::string s;
            sim::slurp(path, s);
            f[path] = name.size() > 4 && !name.compare(name.size() - 4, 4, ".log") ? without_numbers(s) : s;
        }
    }
    ::closedir(d);
}
Files files()
{
    Files f;
    collect("side", f);
    return f;
}
void clear()
{
    Files f = files();
    for(auto& x : f) ::unlink(x.first.c_str());
}
struct Run {
    std::string out, key;
    std::vector<std::string> args;
    Files alone;
    uint64_t ops = 0;
};
std::function<int()> body(const Run& r)
{
    const auto args = r.args;
    return [args] {
        ::setenv("LOGNAME", "somebody", 1);
        if(::chdir("side")) return 98;
        return prog::run(args);
    };
}
struct Schedule {
    int first;
    uint64_t before, between; // operations of the first, then of the other; then the rest of the first, the rest of the other
    uint64_t every = 0;       // instead: so many operations in turn
    bool kill      = false;   // the first is killed instead of going on
};
void side_by_side(Run* r, const Schedule& s)
{
    clear();
    inter::Process p[2];
    p[0].start(body(r[0]));
    p[1].start(body(r[1]));
    auto &a = p[s.first], &b = p[1 - s.first];
    if(s.every)
        while(a.go(s.every) | b.go(s.every)) {}
    a.go(s.before);
    if(s.kill) a.kill();
    b.go(s.between);
    a.go(~0ull);
    b.go(~0ull);
    MC_COUNT("traces", 1);
    MC_COUNT("transitions", p[0].ops + p[1].ops);
    MC_COUNT("states", 1);
    const auto f    = files();
    const auto what = mc::str("schedule: ", s.before, " operations of ", r[s.first].out, s.kill ? " which is then killed" : "", ", ", s.between, " of ", r[1 - s.first].out, s.every ? mc::str(", taking turns after ", s.every) : "", ": ");
    for(int i = 0; i < 2; ++i) {
        if(s.kill && i == s.first) continue;
        MC_CHECK(p[i].status == 0, what, "the run for ", r[i].out, " ends with status ", p[i].status);
        for(auto& x : r[i].alone) {
            const auto g = f.find(x.first);
            MC_CHECK(g != f.end(), what, x.first, " is missing");
            MC_CHECK(g == f.end() || g->second == x.second, what, x.first, " differs from that of a run on its own");
        }
    }
    for(auto& x : f) MC_CHECK(r[0].alone.count(x.first) || r[1].alone.count(x.first) || s.kill, what, "leaves ", x.first);
}
void alone(Run& r)
{
    clear();
    inter::Process p;
    p.start(body(r));
    p.go(~0ull);
    r.alone = files();
    r.ops   = p.ops;
    MC_CHECK(p.status == 0 && r.alone.count("side/" + r.out), "status ", p.status, " of a run for ", r.out, " alone");
}
Run make(const sim::Program& p, const Config& c, const std::string& out, bool response)
{
    Run r;
    r.out = out;
    for(auto& o : p.options) {
        r.key += " " + o + "=" + sim::option(c, o);
        r.args.push_back("--" + o + "=" + sim::option(c, o));
    }
    if(response) {
        std::ofstream f("given.rsp");
        for(auto& x : r.args) f << x << '\n';
        r.args = {"--response_file=../given.rsp"};
    }
    r.args.push_back("--out=" + out);
    return r;
}
void runs()
{
    const auto p = program();
    ::mkdir("side", 0777);
    ::mkdir("side/one", 0777);
    ::mkdir("side/two", 0777);
    Config c;
    c.nx      = 1;
    c.ny      = 1;
    c.J       = 0.5;
    c.U       = -3;
    c.filling = 0.25;
    c.kx      = 0.75;
    c.ky      = -1.25;
    c.dt      = 0.25;
    c.t_end   = 0.5;
    c.every   = 1;
    Config d  = c;
    d.nx      = 2;
    d.J       = -1.5;
    d.kx      = 0.5;
    d.t_end   = 0.25;
    const std::pair<std::string, std::string> names[] = {
        {"a.txt", "b.txt"}, {"run.txt", "run.b.txt"}, {"one/out.txt", "two/out.txt"}, {"out.txt", "one/out.txt"}, {"run.txt", "run_matrix.txt"}, {"a", "aa"}};
    int number = 0;
    for(auto& n : names)
        for(bool same : {true, false})
            for(bool response : {false, true}) {
                const bool deep = mc::thorough() ? number % 4 == 2 : number == 2 && (SIM == 1 || SIM == 6); // two changes between the runs
                ++number;
                MC_CASE(p.name, ": ", n.first, " and ", n.second, same ? " with the same options" : "", response ? " from one response file" : "")
                {
                    mc::distinct(mc::hash_str(mc::str(p.name, n.first, n.second, same, response)));
                    Run r[2] = {make(p, c, n.first, response), make(p, same || response ? c : d, n.second, response)};
                    if(!same && response) r[1].args.insert(r[1].args.begin(), "--dt=0.125");
                    for(auto& x : r) alone(x);
                    for(auto& x : r[0].alone) MC_CHECK(!r[1].alone.count(x.first), x.first, " is written by both");
                    auto go = [&](const Schedule& s) {
                        if(!mc::S().stop) side_by_side(r, s);
                    };
                    for(int first = 0; first < 2; ++first) {
                        for(uint64_t i = 0; i <= r[first].ops; ++i) {
                            go({first, i, ~0ull});
                            go({first, i, ~0ull, 0, true});
                            if(deep)
                                for(uint64_t j = 1; j < r[1 - first].ops; ++j) go({first, i, j});
                        }
                        for(uint64_t every = 1; every < 4; ++every) go({first, 0, 0, every});
                    }
                    clear();
                    ::unlink("given.rsp");
                }
            }
    clear();
    ::rmdir("side/one");
    ::rmdir("side/two");
    ::rmdir("side");
}
int prog::explorer(int argc, char** argv) { return sim::explore(argc, argv, {{"runs", runs}}); }

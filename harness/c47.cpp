// C47: the version header follows the state of the repository.
#include "tool_util.hpp"
#include <set>

using namespace tool;
static const std::string header = "include/ieompp/version.hpp";

// ---- a project and the model of it
struct Project {
    Scratch scratch;
    std::string dir = scratch.dir;
    bool repository = false;
    struct Commit {
        std::string tag; // annotated
    };
    std::vector<Commit> commits;
    int head     = -1;
    bool changed = false, staged = false;
    int serial   = 0;
    std::string known; // the version the header is known to have; empty if unknown or none

    Project()
    {
        write(dir + "/tools/configure.py", script("configure.py"));
        write(dir + "/.gitignore", "include/ieompp/version.hpp\n");
        write(dir + "/source.cpp", "int main() {}\n");
        make_dirs(dir + "/" + header);
    }
    Result git(std::vector<std::string> a)
    {
        a.insert(a.begin(), "git");
        auto r = run(dir, a);
        if(r.status != 0) {
            std::cerr << "git failed: " << a[1] << ": " << r.err << r.out;
            std::abort();
        }
        return r;
    }
    void change()
    {
        write(dir + "/source.cpp", "int main() {} // " + std::to_string(++serial) + "\n");
        changed = true;
    }
    // what the version has to be
    std::string version()
    {
        const std::string none = "0.0.0-unknown";
        if(!repository || head < 0) return none;
        int t = head;
        while(t >= 0 && commits[t].tag.empty()) --t;
        if(t < 0) return none;
        std::string v = commits[t].tag;
        if(t != head) {
            auto h = git({"rev-parse", "--short", "HEAD"}).out;
            v += "-" + std::to_string(head - t) + "-g" + h.substr(0, h.find('\n'));
        }
        return v + (changed || staged ? "-dirty" : "");
    }
};
enum Event { Init, Commit, Tag, Light, Change, Stage, Untracked, Undo, Back, Run, Remove, Stale, Cut, Longer, N_EVENTS };
static const char* const event_names[] = {"init", "commit", "tag", "light tag", "change", "stage", "untracked", "undo", "back", "run", "remove", "stale", "cut", "longer"};
static const char* const tags[] = {"v1.0", "0.3-rc1", "release/2.0.0", "v1.0.1+x86"};

static bool possible(const Project& p, Event e)
{
    switch(e) {
    case Init: return !p.repository;
    case Commit: return p.repository;
    case Tag: return p.head >= 0 && p.commits[p.head].tag.empty();
    case Light: return p.head >= 0;
    case Change: return p.head >= 0 && !p.changed;
    case Stage: return p.head >= 0 && p.changed && !p.staged;
    case Undo: return p.changed || p.staged;
    case Back: return p.head > 0 && !p.changed && !p.staged;
    default: return true;
    }
}
static void check_header(const std::string& text, const std::string& version);
static void check_run(Project& p);
static void apply(Project& p, Event e)
{
    const std::string h = p.dir + "/" + header;
    switch(e) {
    case Init:
        p.git({"init", "-q"});
        p.repository = true;
        break;
    case Commit:
        p.change();
        p.git({"add", "."});
        p.git({"commit", "-q", "-m", "c"});
        p.commits.resize(std::size_t(p.head + 1));
        p.commits.push_back({});
        ++p.head;
        p.changed = p.staged = false;
        break;
    case Tag: {
        const std::string t = tags[p.serial % 4] + (p.head ? "." + std::to_string(p.head) + std::to_string(p.serial) : std::string());
        p.git({"tag", "-a", "-m", "t", t});
        p.commits[p.head].tag = t;
        break;
    }
    case Light: p.git({"tag", "light" + std::to_string(p.serial++)}); break;
    case Change: p.change(); break;
    case Stage:
        p.git({"add", "source.cpp"});
        p.staged = true;
        break;
    case Untracked: write(p.dir + "/notes" + std::to_string(p.serial++), "x\n"); break;
    case Undo:
        p.git({"reset", "-q", "--hard"});
        p.changed = p.staged = false;
        break;
    case Back:
        p.git({"checkout", "-q", "HEAD~1"});
        --p.head;
        break;
    case Run: check_run(p); break;
    case Remove: ::unlink(h.c_str()); break;
    case Stale: write(h, "#ifndef OLD_\n#define OLD_\n#include <string>\nnamespace ieompp { constexpr auto version = \"v0.1\"; }\n#endif\n"); break;
    case Cut: {
        const auto t = read(h);
        write(h, t.substr(0, t.size() / 2));
        break;
    }
    case Longer: write(h, read(h) + "\n#error leftover\n"); break;
    default: std::abort();
    }
}
// the header must mean the same as one with this version: compiled once for every wording of it
static void check_header(const std::string& text, const std::string& version)
{
    static std::map<std::string, bool> seen;
    std::string t = text;
    const auto at = t.find('"' + version + '"');
    if(at == std::string::npos) {
        MC_CHECK(false, "no version ", version, " in the header: ", text);
        return;
    }
    t.replace(at, version.size() + 2, "\"@VERSION@\"");
    auto i = seen.find(t);
    if(i == seen.end()) {
        Scratch s;
        write(s.dir + "/version.hpp", t);
        write(s.dir + "/main.cpp", "#include \"version.hpp\"\n#include \"version.hpp\"\n#include <cstdio>\n#include <string>\nint main()\n{\n    "
                                   "static_assert(sizeof(ieompp::version) > 0, \"\");\n    std::puts(std::string(ieompp::version).c_str());\n}\n");
        const auto c = run(s.dir, {"g++", "-std=c++14", "-o", "main", "main.cpp"});
        const auto r = c.status ? c : run(s.dir, {s.dir + "/main"});
        i            = seen.emplace(t, c.status == 0 && r.status == 0 && r.out == "@VERSION@\n").first;
        if(!i->second) MC_CHECK(false, "compiling the header: ", c.err, r.out);
    }
    MC_CHECK(i->second, "the header does not compile or has another version: ", text);
}
// run the script and compare everything with the model
static void check_run(Project& p)
{
    const auto v = p.version();
    auto before  = p.scratch.files();
    auto r       = run(p.dir, {python(), "tools/configure.py"});
    MC_COUNT("states", 1);
    MC_CHECK(r.status == 0, "ended with ", r.status, ": ", r.err);
    auto after = p.scratch.files();
    MC_CHECK(after.count(header), "no header was written");
    const auto text = after[header];
    check_header(text, v);
    before.erase(header);
    after.erase(header);
    MC_CHECK(before == after, "other files were changed");
    // an up-to-date header is left alone
    const std::string h = p.dir + "/" + header;
    const struct timespec old[2] = {{1000000000, 0}, {1000000000, 0}};
    ::utimensat(AT_FDCWD, h.c_str(), old, 0);
    struct stat a, b;
    ::stat(h.c_str(), &a);
    r = run(p.dir, {python(), "tools/configure.py"});
    MC_CHECK(r.status == 0, "the second run ended with ", r.status, ": ", r.err);
    ::stat(h.c_str(), &b);
    MC_CHECK(a.st_ino == b.st_ino && b.st_mtim.tv_sec == 1000000000 && b.st_mtim.tv_nsec == 0, "an up-to-date header was written again");
    MC_CHECK(read(h) == text, "the second run changed the header");
    MC_COUNT("traces", 1);
}
struct Histories {
    std::vector<int> prefix;
    int depth;
    std::vector<int> h;
    // possible events are decided by the model alone
    static bool model_possible(const std::vector<int>& h)
    {
        bool repo = false, changed = false, staged = false, present = false;
        int head = -1;
        std::vector<bool> tagged;
        for(std::size_t i = 0; i < h.size(); ++i) {
            switch(Event(h[i])) {
            case Init:
                if(repo) return false;
                repo = true;
                break;
            case Commit:
                if(!repo) return false;
                tagged.resize(std::size_t(++head));
                tagged.push_back(false);
                changed = staged = false;
                break;
            case Tag:
                if(head < 0 || tagged[head]) return false;
                tagged[head] = true;
                break;
            case Light:
                if(head < 0) return false;
                break;
            case Change:
                if(head < 0 || changed) return false;
                changed = true;
                break;
            case Stage:
                if(head < 0 || !changed || staged) return false;
                staged = true;
                break;
            case Undo:
                if(!changed && !staged) return false;
                changed = staged = false;
                break;
            case Back:
                if(head < 1 || changed || staged) return false;
                --head;
                break;
            case Run: present = true; break;
            case Remove:
            case Cut:
                if(!present) return false;
                present = h[i] == Cut;
                break;
            case Stale:
            case Longer: present = true; break;
            default: break;
            }
        }
        return true;
    }
    void go()
    {
        auto all = prefix;
        all.insert(all.end(), h.begin(), h.end());
        std::string name;
        for(int i : all) name += std::string(name.empty() ? "" : ", ") + event_names[i];
        MC_CASE("history: ", name)
        {
            mc::distinct(mc::hash_str(name));
            Project p;
            for(int i : all) {
                if(!possible(p, Event(i))) std::abort();
                apply(p, Event(i));
                MC_COUNT("transitions", 1);
            }
            check_run(p);
        }
        if(int(h.size()) == depth) return;
        for(int i = 0; i < N_EVENTS; ++i) {
            if(!h.empty() && h.back() == i && (i == Run || i == Stale || i == Untracked)) continue;
            h.push_back(i);
            auto a = prefix;
            a.insert(a.end(), h.begin(), h.end());
            if(model_possible(a)) go();
            h.pop_back();
        }
    }
};
static void histories(std::vector<int> prefix, int depth) { Histories{std::move(prefix), depth, {}}.go(); }
static void part_plain() { histories({}, mc::pick(3, 5)); }
static void part_tagged() { histories({Init, Commit, Tag, Run}, mc::pick(2, 3)); }
static void part_later() { histories({Init, Commit, Tag, Commit, Run}, mc::pick(2, 3)); }
static void part_two() { histories({Init, Commit, Tag, Commit, Commit, Tag, Run, Commit}, mc::pick(2, 3)); }

// a run that was stopped while it wrote leaves any part of the header behind
static void part_torn()
{
    for(bool repo : {false, true}) {
        Project p;
        if(repo)
            for(Event e : {Init, Commit, Tag}) apply(p, e);
        run(p.dir, {python(), "tools/configure.py"});
        const auto old = read(p.dir + "/" + header);
        if(repo)
            for(Event e : {Commit, Change}) apply(p, e);
        run(p.dir, {python(), "tools/configure.py"});
        const auto now = read(p.dir + "/" + header);
        for(int kind = 0; kind < 3; ++kind)
            for(std::size_t n = 0; n <= now.size(); n += mc::pick(kind ? 3 : 1, 1))
                MC_CASE("torn ", repo, ' ', kind, ' ', n)
                {
                    mc::distinct(mc::hash_str(mc::str(repo, kind, n)));
                    std::string t = now.substr(0, n);
                    if(kind == 1) t += old.substr(std::min(n, old.size()));
                    if(kind == 2) t += std::string(now.size() - n, '\0');
                    write(p.dir + "/" + header, t);
                    MC_COUNT("transitions", 1);
                    check_run(p);
                }
    }
}
// git cannot be run at all
static void part_no_git()
{
    for(int n = 0; n < 3; ++n)
        MC_CASE("no git ", n)
        {
            mc::distinct(mc::hash_str(mc::str("no git", n)));
            Project p;
            if(n)
                for(Event e : {Init, Commit, Tag}) apply(p, e);
            if(n == 2) check_run(p);
            const auto r = run(p.dir, {python(), "tools/configure.py"}, "/nonexistent");
            MC_CHECK(r.status == 0, "ended with ", r.status, ": ", r.err);
            check_header(read(p.dir + "/" + header), "0.0.0-unknown");
            MC_COUNT("traces", 1);
        }
}
int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"plain", part_plain}, {"tagged", part_tagged}, {"later", part_later}, {"two", part_two},
                                {"torn", part_torn}, {"no_git", part_no_git}});
}

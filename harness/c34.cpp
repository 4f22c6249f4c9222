// C34: options on the command line, in the response file and by default.
#include "mc.hpp"
#include "common.hpp"

#include <dirent.h>
#include <map>
#include <set>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>

static std::string base;

struct Opt {
    std::string name;
    char type; // u, d, s
    bool has_default;
    std::string def;
    std::vector<std::string> values;
};
static const std::vector<Opt> opts{
    {"N", 'u', true, "128", {"16", "1", "18446744073709551615", "007"}},
    {"dt", 'd', true, "0.01", {"1e-3", "0.1", "2", "-0.5"}},
    {"J", 'd', true, "1", {"0.30000000000000004", "-1e300", "0", "+3"}},
    {"U", 'd', false, "", {"0.25", "-7.125", "1e-17", "4"}},
    {"name", 's', true, "free fermions", {"a b", "x=y", "--N=4", "#hash"}},
    {"note", 's', false, "", {"plain", " lead", "trail ", "a\tb"}},
};

void describe()
{
    Application::name        = "prog";
    Application::description = "test";
    Application::add_default_options();
    // clang-format off
    Application::options_description.add_options()
        ("N", make_value<uint64_t>(128), "size")
        ("dt", make_value<double>(0.01), "step")
        ("J", make_value<double>(1.), "hopping")
        ("U", make_value<double>(), "interaction")
        ("name", make_value<std::string>("free fermions"), "name")
        ("note", make_value<std::string>(), "note")
        ;
    // clang-format on
}
// the value of an option in effect, as text that identifies it; "(none)" when there is none
std::string effective(const VariablesMap& v, const Opt& o)
{
    if(!v.count(o.name)) return "(none)";
    switch(o.type) {
        case 'u': return std::to_string(v[o.name].as<uint64_t>());
        case 'd': return mc::str(v[o.name].as<double>());
        default: return v[o.name].as<std::string>();
    }
}
std::string canonical(const Opt& o, const std::string& text)
{
    switch(o.type) {
        case 'u': return std::to_string(std::strtoull(text.c_str(), nullptr, 10));
        case 'd': return mc::str(std::strtod(text.c_str(), nullptr));
        default: return text;
    }
}
using Values = std::vector<std::string>; // text per option; "" = not given

struct Result {
    Values value;
    std::string out, log, rsp, matrix, checkpoint;
    std::vector<std::pair<std::string, std::string>> header;
    std::string header_text;
};
Result start(const std::vector<std::string>& args)
{
    std::vector<std::string> a{"prog"};
    a.insert(a.end(), args.begin(), args.end());
    std::vector<char*> p;
    for(auto& s : a) p.push_back(&s[0]);
    p.push_back(nullptr);
    Result r;
    {
        get_loggers() = Loggers();
        Application app(int(a.size()), p.data());
        for(auto& o : opts) r.value.push_back(effective(app.variables, o));
        r.out        = app.output_path;
        r.log        = app.log_path;
        r.rsp        = app.response_path;
        r.matrix     = app.matrix_path;
        r.checkpoint = app.checkpoint_prefix;
    }
    std::ifstream f(r.out);
    std::string l;
    while(std::getline(f, l)) {
        r.header_text += l + "\n";
        MC_CHECK(!l.empty() && l[0] == '#', "header line ", l);
        const auto e = l.find(" = ");
        if(l.compare(0, 2, "#\t") == 0 && e != std::string::npos) r.header.emplace_back(l.substr(2, e - 2), l.substr(e + 3));
    }
    MC_COUNT("program starts", 1);
    return r;
}
std::string rsp_value(const std::string& path, const std::string& name)
{
    std::ifstream f(path);
    std::string l;
    while(std::getline(f, l))
        if(l.compare(0, name.size() + 3, "--" + name + "=") == 0) return l.substr(name.size() + 3);
    return "(none)";
}
bool exists(const std::string& p) { return ::access(p.c_str(), F_OK) == 0; }
void check_values(const char* what, const Result& r, const Values& cmd, const Values& file)
{
    for(std::size_t i = 0; i < opts.size(); ++i) {
        const auto& o = opts[i];
        std::string e = !cmd[i].empty() ? cmd[i] : !file[i].empty() ? file[i] : o.has_default ? o.def : "(none)";
        if(e != "(none)") e = canonical(o, e);
        MC_CHECK(r.value[i] == e, what, ": ", o.name, " is ", r.value[i], " instead of ", e);
        // the header names the value in effect, once
        std::vector<std::string> h;
        for(auto& x : r.header)
            if(x.first == o.name) h.push_back(x.second);
        if(e == "(none)")
            MC_CHECK(h.empty(), what, ": header names ", o.name, " = ", h.empty() ? "" : h[0]);
        else
            MC_CHECK(h.size() == 1 && canonical(o, h[0]) == e, what, ": header has ", h.size(), " entries for ", o.name, " ", h.empty() ? "" : h[0],
                     " instead of ", e);
    }
}
void cleanup(std::set<std::string> files)
{
    for(auto& f : files) ::unlink(f.c_str());
}
// style 0: --name=value, 1: two arguments
std::vector<std::string> args_of(const Values& v, int style)
{
    std::vector<std::string> a;
    for(std::size_t i = 0; i < opts.size(); ++i)
        if(!v[i].empty()) {
            // values that look like options must be joined
            if(style == 1 && v[i][0] != '-') {
                a.push_back("--" + opts[i].name);
                a.push_back(v[i]);
            } else
                a.push_back("--" + opts[i].name + "=" + v[i]);
        }
    return a;
}
void one(const Values& cmd, const Values& cmd2, const std::string& out, int style)
{
    MC_CASE("command line ", cmd, " then ", cmd2, " with the response file, out ", out, " style ", style)
    {
        mc::distinct(mc::hash_str(mc::str(cmd, cmd2, out)));
        const std::string stem = out.empty() ? "prog" : out.substr(0, out.rfind('.') == std::string::npos ? out.size() : out.rfind('.'));
        auto a = args_of(cmd, style);
        if(!out.empty()) a.push_back("--out=" + out);
        const Values none(opts.size(), "");
        // an earlier run with other options left its files behind
        auto before = args_of(cmd2, style);
        if(!out.empty()) before.push_back("--out=" + out);
        check_values("earlier run", start(before), cmd2, none);
        const auto r1 = start(a);
        check_values("first run", r1, cmd, none);
        const std::string o = out.empty() ? "prog.txt" : out;
        MC_CHECK(r1.out == o && exists(o), "output goes to ", r1.out);
        MC_CHECK(r1.rsp == stem + ".rsp" && exists(stem + ".rsp"), "response file is ", r1.rsp);
        MC_CHECK(r1.log == stem + ".log" && exists(stem + ".log"), "log file is ", r1.log);
        MC_CHECK(r1.matrix == stem + "_matrix.blaze" && r1.checkpoint == stem + "_checkpoint_", "paths ", r1.matrix, " ", r1.checkpoint);
        // every option with a value is recorded
        for(std::size_t i = 0; i < opts.size(); ++i) {
            const auto v = rsp_value(r1.rsp, opts[i].name);
            const auto e = r1.value[i];
            MC_CHECK((v == "(none)") ? e == v : canonical(opts[i], v) == e, "response file has ", opts[i].name, "=", v, " in a run with ", e);
        }
        MC_CHECK(rsp_value(r1.rsp, "out") == o, "response file has out=", rsp_value(r1.rsp, "out"));
        // run with the response file alone
        const std::string rsp = base + "/given.rsp";
        ::rename(r1.rsp.c_str(), rsp.c_str());
        ::unlink(o.c_str());
        const auto r2 = start({"--response_file=" + rsp});
        check_values("run with the response file", r2, none, cmd);
        MC_CHECK(r2.value == r1.value, "values differ");
        MC_CHECK(r2.out == o && exists(o), "output of the run with the response file goes to ", r2.out, " instead of ", o);
        MC_CHECK(!exists(r1.rsp), "a run with a response file writes another");
        // command line first
        auto b = args_of(cmd2, style);
        b.insert(b.begin() + (style ? b.size() : 0), "--response_file=" + rsp);
        const auto r3 = start(b);
        check_values("run with both", r3, cmd2, cmd);
        MC_CHECK(r3.out == o, "output of the run with both goes to ", r3.out);
        b.push_back("--out=other.txt");
        const auto r4 = start(b);
        check_values("run with both and out", r4, cmd2, cmd);
        MC_CHECK(r4.out == "other.txt" && exists("other.txt"), "output goes to ", r4.out, " in spite of the command line");
        cleanup({r1.out, r1.rsp, r1.log, rsp, r2.out, r2.log, r3.out, r3.log, r4.out, r4.log});
    }
}
// each option is given or not, on the command line or in the file or both
void part_sources()
{
    const std::size_t n = opts.size();
    std::size_t total   = 1;
    for(std::size_t i = 0; i < n; ++i) total *= 4;
    for(std::size_t code = 0; code < total; ++code) {
        Values first(n), second(n);
        std::size_t c = code;
        for(std::size_t i = 0; i < n; ++i, c /= 4) {
            if(c & 1) first[i] = opts[i].values[(i + code / 7) % opts[i].values.size()];
            if(c & 2) second[i] = opts[i].values[(i + 1 + code / 5) % opts[i].values.size()];
        }
        for(std::size_t k = 0; k < mc::pick<std::size_t>(4, 6); ++k) {
            for(std::size_t i = 0; i < n; ++i) {
                if(!first[i].empty()) first[i] = opts[i].values[(i + k + code / 7) % opts[i].values.size()];
                if(!second[i].empty()) second[i] = opts[i].values[(i + 1 + k * 2 + code / 5) % opts[i].values.size()];
            }
            one(first, second, "", int((code + k) & 1));
        }
    }
}
void part_values()
{
    const std::size_t n = opts.size();
    for(std::size_t i = 0; i < n; ++i)
        for(auto& v : opts[i].values)
            for(int style : {0, 1}) {
                Values a(n), none(n);
                a[i] = v;
                for(const std::string out : {"", "o.txt", "o.dat", "o", "o.v2.txt"}) {
                    one(a, none, out, style);
                    for(auto& w : opts[i].values) {
                        Values b(n);
                        b[i] = w;
                        one(a, b, out, style);
                    }
                }
            }
}
// what a start with these options ends with: 0 it went through, 1 it was refused, 2 it ran out of memory or time
int refused(const std::vector<std::string>& args)
{
    const auto pid = ::fork();
    if(!pid) {
        const rlimit memory{1ull << 31, 1ull << 31};
        ::setrlimit(RLIMIT_AS, &memory);
        ::alarm(20);
        int r = 0;
        try {
            std::vector<std::string> a{"prog"};
            a.insert(a.end(), args.begin(), args.end());
            std::vector<char*> v;
            for(auto& s : a) v.push_back(&s[0]);
            v.push_back(nullptr);
            get_loggers() = Loggers();
            Application app(int(a.size()), v.data());
        } catch(const std::bad_alloc&) {
            r = 2;
        } catch(const std::exception&) {
            r = 1;
        }
        ::_exit(r);
    }
    int status = 0;
    ::waitpid(pid, &status, 0);
    return WIFEXITED(status) ? WEXITSTATUS(status) : WTERMSIG(status) == SIGALRM ? 2 : 1;
}
std::map<std::string, std::string> files()
{
    std::map<std::string, std::string> r;
    if(auto* d = ::opendir(".")) {
        while(auto* e = ::readdir(d)) {
            struct stat st;
            if(::stat(e->d_name, &st) || !S_ISREG(st.st_mode)) continue;
            std::ifstream f(e->d_name, std::ios::binary);
            r[e->d_name] = std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
        }
        ::closedir(d);
    }
    return r;
}
// response files that cannot be read
void part_unreadable()
{
    ::mkdir("folder", 0777);
    std::ofstream("plain") << "--N=4\n";
    for(const std::string path : {"missing", "missing.rsp", "no/such/folder.rsp", "folder", "plain/below"})
        for(int more = 0; more < 4; ++more)
            for(bool earlier : {false, true})
                MC_CASE("response file ", path, more & 1 ? " with other options" : "", more & 2 ? " and an output path" : "", earlier ? " after a run" : "")
                {
                    mc::distinct(mc::hash_str(mc::str("u", path, more, earlier)));
                    std::vector<std::string> a{"--response_file=" + path};
                    if(more & 1) a.insert(a.begin(), {"--N=4", "--note=x"});
                    if(more & 2) a.push_back("--out=o.txt");
                    if(earlier) start({"--N=7", more & 2 ? "--out=o.txt" : "--J=2"});
                    const auto before = files();
                    const int r       = refused(a);
                    MC_CHECK(r == 1, r ? "it does not end" : "it runs with other values");
                    MC_CHECK(files() == before, "files were written");
                    cleanup({"o.txt", "o.rsp", "o.log", "prog.txt", "prog.rsp", "prog.log"});
                }
    ::rmdir("folder");
    ::unlink("plain");
}
int main(int argc, char** argv)
{
    std::string out;
    char tmpl[] = "c34-XXXXXX";
    base        = ::mkdtemp(tmpl);
    char buf[4096];
    base = std::string(::getcwd(buf, sizeof buf)) + "/" + base;
    // the programs write into the current directory
    std::vector<std::string> keep(argv, argv + argc);
    for(auto& k : keep)
        if(k.find('/') != std::string::npos && k[0] != '/') k = std::string(buf) + "/" + k;
    std::vector<char*> p;
    for(auto& k : keep) p.push_back(&k[0]);
    if(::chdir(base.c_str())) return 3;
    describe();
    return mc::run(argc, p.data(), {{"sources", part_sources}, {"values", part_values}, {"unreadable", part_unreadable}});
}

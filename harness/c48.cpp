// C48: the tools that look after the headers report and repair exactly the faulty ones.
#include "tool_util.hpp"

using namespace tool;

static std::string upper_guard(const std::string& path) // path below include/
{
    std::string g;
    for(char c : path) g += c == '/' || c == '.' ? '_' : char(std::toupper(c));
    return g + "_";
}
// ---- include guards
struct Guard {
    const char* name;
    bool good;
    std::string (*text)(const std::string& g);
};
static const std::vector<Guard>& guards()
{
    static const std::vector<Guard> v{
        {"good", true, [](const std::string& g) { return "#ifndef " + g + "\n#define " + g + "\n\nint f();\n\n#endif\n"; }},
        {"after comment", true, [](const std::string& g) { return "// \xce\xb4 text\n\n#ifndef " + g + "\n#define " + g + "\nint f();\n#endif"; }},
        {"with another", true, [](const std::string& g) { return "#ifndef " + g + "\n#define " + g + "\n#ifndef IEOMPP_OTHER\n#define IEOMPP_OTHER\n#endif\n#endif\n"; }},
        {"empty", false, [](const std::string&) { return std::string(); }},
        {"none", false, [](const std::string&) { return std::string("#include <string>\nint f();\n"); }},
        {"no define", false, [](const std::string& g) { return "#ifndef " + g + "\nint f();\n#endif\n"; }},
        {"different", false, [](const std::string& g) { return "#ifndef " + g + "\n#define " + g + "X_\nint f();\n#endif\n"; }},
        {"different before", false, [](const std::string& g) { return "#ifndef IEOMPP_X_HPP_\n#define " + g + "\nint f();\n#endif\n"; }},
        {"of another file", false, [](const std::string&) { return std::string("#ifndef IEOMPP_X_Y_HPP_\n#define IEOMPP_X_Y_HPP_\nint f();\n#endif\n"); }},
        {"cut off", false, [](const std::string& g) { const auto h = g.substr(0, g.size() - 1); return "#ifndef " + h + "\n#define " + h + "\nint f();\n#endif\n"; }},
        {"one letter", false, [](const std::string& g) { auto h = g; h[8] = h[8] == 'Q' ? 'R' : 'Q'; return "#ifndef " + h + "\n#define " + h + "\nint f();\n#endif\n"; }},
        {"if instead", false, [](const std::string& g) { return "#ifdef " + g + "\n#define " + g + "\nint f();\n#endif\n"; }},
    };
    return v;
}
// with three headers, at most two of them faulty in quick runs
static void part_guards()
{
    const std::vector<std::string> paths{"ieompp/alpha.hpp", "ieompp/beta/gamma/delta_one.hpp", "ieompp/beta/eps.hpp"};
    const std::size_t G = guards().size();
    for(std::size_t n = 0; n <= 3; ++n) {
        std::size_t all = 1;
        for(std::size_t i = 0; i < n; ++i) all *= i < 2 || mc::thorough() ? G : 5;
        for(std::size_t w = 0; w < all; ++w) {
            std::vector<std::size_t> g;
            std::string name;
            for(std::size_t i = 0, x = w; i < n; ++i) {
                const std::size_t k = i < 2 || mc::thorough() ? G : 5;
                g.push_back(x % k);
                x /= k;
                name += std::string(i ? ", " : "") + guards()[g[i]].name;
            }
            MC_CASE("guards of ", n, " headers: ", name)
            {
                mc::distinct(mc::hash_str(name));
                Scratch s;
                write(s.dir + "/tools/include-guards.py", script("include-guards.py"));
                bool good = true;
                for(std::size_t i = 0; i < n; ++i) {
                    write(s.dir + "/include/" + paths[i], guards()[g[i]].text(upper_guard(paths[i])));
                    good = good && guards()[g[i]].good;
                }
                // what is no header does not matter
                make_dirs(s.dir + "/include/ieompp/beta/");
                write(s.dir + "/include/ieompp/other.h", "int f();\n");
                write(s.dir + "/include/ieompp/beta/source.cpp", "int f();\n");
                write(s.dir + "/include/ieompp/old.hpp.bak", "int f();\n");
                write(s.dir + "/include/ieompp/hpp", "int f();\n");
                write(s.dir + "/src/main.hpp", "int f();\n");
                const auto before = s.files();
                const auto r      = run(s.dir, {python(), "tools/include-guards.py"});
                MC_CHECK(r.status == (good ? 0 : 1), "ended with ", r.status, ": ", r.out, r.err);
                for(std::size_t i = 0; i < n; ++i) {
                    const bool named = r.out.find("include/" + paths[i] + '"') != std::string::npos || r.out.find(paths[i]) != std::string::npos;
                    MC_CHECK(named == !guards()[g[i]].good, paths[i], named ? " is reported" : " is not reported", ": ", r.out);
                }
                for(const char* f : {"other.h", "source.cpp", "hpp.bak", "main.hpp"}) MC_CHECK(r.out.find(f) == std::string::npos, f, " is reported: ", r.out);
                MC_CHECK(s.files() == before, "files were changed");
            }
        }
    }
}

// ---- include style
struct Line {
    std::string text;
    std::string header; // of an include that has to be repaired
};
static const std::vector<Line>& style_lines()
{
    static const std::vector<Line> v{
        {"#include <ieompp/a/b.hpp>", "ieompp/a/b.hpp"},
        {"#include <ieompp/c.hpp>", "ieompp/c.hpp"},
        {"  #  include   <ieompp/a/b/c_d.hpp> \t", "ieompp/a/b/c_d.hpp"},
        {"#include <iostream>", ""},
        {"#include \"ieompp/a/b.hpp\"", ""},
        {"#include <blaze/ieompp/a.hpp>", ""},
        {"// #include <ieompp/a/b.hpp>", ""},
        {"", ""},
        {"    const auto s = \"#include <ieompp/a.hpp>\"; \t", ""},
        {"// \xce\xb4 \xe2\x86\x91 \\", ""},
        {"#include <ieompp.hpp>", ""},
    };
    return v;
}
static std::string squeeze(const std::string& s)
{
    std::string r;
    for(char c : s)
        if(!std::isspace(static_cast<unsigned char>(c))) r += c;
    return r;
}
static std::vector<std::string> split(const std::string& t)
{
    std::vector<std::string> v;
    std::string l;
    for(char c : t)
        if(c == '\n') {
            v.push_back(l);
            l.clear();
        } else
            l += c;
    v.push_back(l); // what follows the last line break
    return v;
}
static void part_style()
{
    const auto& L   = style_lines();
    const int depth = mc::pick(3, 4);
    std::vector<std::size_t> w;
    std::function<void()> go = [&] {
        for(int end = 0; end < 2; ++end)
            MC_CASE("lines ", w, " and any other", end ? " without a last line break" : "")
            {
                mc::distinct(mc::hash_str(mc::str(w, end)));
                Scratch s;
                write(s.dir + "/tools/include-style.py", script("include-style.py"));
                make_dirs(s.dir + "/include/ieompp/");
                std::map<std::string, std::vector<std::size_t>> content;
                for(std::size_t x = 0; x < L.size(); ++x) {
                    auto all = w;
                    all.push_back(x);
                    std::string t;
                    for(std::size_t i = 0; i < all.size(); ++i) t += (i ? "\n" : "") + L[all[i]].text;
                    if(!end) t += "\n";
                    const auto p = mc::str(x % 3 ? (x % 3 == 1 ? "include/ieompp/sub/f" : "include/ieompp/sub/deep.er/f") : "include/ieompp/f", x, ".hpp");
                    write(s.dir + "/" + p, t);
                    content[p] = all;
                    write(s.dir + "/include/ieompp/" + std::to_string(x) + ".cpp", t);
                    write(s.dir + "/src/" + std::to_string(x) + ".hpp", t);
                }
                const auto before = s.files();
                auto r            = run(s.dir, {python(), "tools/include-style.py"});
                MC_CHECK(r.status == 0, "ended with ", r.status, ": ", r.err);
                const auto after = s.files();
                MC_CHECK(after.size() == before.size(), "files were added or removed");
                for(auto& f : before) {
                    const auto i = after.find(f.first);
                    if(i == after.end()) {
                        MC_CHECK(false, f.first, " is gone");
                        continue;
                    }
                    const auto c = content.find(f.first);
                    if(c == content.end()) {
                        MC_CHECK(i->second == f.second, f.first, " was changed");
                        continue;
                    }
                    auto got = split(i->second), was = split(f.second);
                    const auto& all = c->second;
                    // a repaired last line may gain its line break
                    if(end && !L[all.back()].header.empty() && got.size() == was.size() + 1 && got.back().empty()) got.pop_back();
                    bool ok = got.size() == was.size();
                    for(std::size_t k = 0; ok && k < got.size(); ++k) {
                        const bool bad = k < all.size() && !L[all[k]].header.empty();
                        ok = bad ? squeeze(got[k]) == "#include\"" + L[all[k]].header + "\"" : got[k] == was[k];
                    }
                    MC_CHECK(ok, f.first, " became\n", i->second, "\nfrom\n", f.second);
                }
                r = run(s.dir, {python(), "tools/include-style.py"});
                MC_CHECK(r.status == 0 && s.files() == after, "a second run changed something");
            }
        if(int(w.size()) + 1 == depth) return;
        for(std::size_t i = 0; i < L.size(); ++i) {
            w.push_back(i);
            go();
            w.pop_back();
        }
    };
    go();
}

// ---- lines of code
static void part_lines()
{
    const std::vector<std::string> dirs{"include", "tests", "src"};
    const std::vector<std::pair<std::string, int>> texts{{"", 0}, {"a\n", 1}, {"a\nb", 2}, {"\n\n\n", 3}, {"// \xce\xb4\n\nint f();\n}", 4}};
    const std::size_t T = texts.size();
    std::size_t all = 1;
    for(int i = 0; i < 3; ++i) all *= T + 1;
    for(std::size_t w = 0; w < all; ++w)
        for(int kind = 0; kind < mc::pick(3, 5); ++kind)
            MC_CASE("lines of code ", w, ' ', kind)
            {
                mc::distinct(mc::hash_str(mc::str("loc", w, ' ', kind)));
                Scratch s;
                write(s.dir + "/tools/loc.py", script("loc.py"));
                write(s.dir + "/doc/x.cpp", "a\nb\n");
                int want[3] = {}, total = 0;
                std::size_t x = w;
                for(int d = 0; d < 3; ++d, x /= T + 1) {
                    if(x % (T + 1) == T) continue; // no such directory
                    const auto& t = texts[x % (T + 1)];
                    const auto b  = s.dir + "/" + dirs[d] + "/";
                    write(b + "f.txt", "a\nb\n");
                    write(b + "sub/cpp", "a\n");
                    write(b + (kind == 0 ? "f.cpp" : kind == 1 ? "f.hpp" : kind == 2 ? "sub/deep/f.hpp" : kind == 3 ? "sub/f.cpp" : "f.x.cpp"), t.first);
                    want[d] = t.second;
                    if(kind == 2) {
                        write(b + "sub/g.cpp", texts[3].first);
                        write(b + "h.hpp", texts[2].first);
                        want[d] += 5;
                    }
                    total += want[d];
                }
                const auto before = s.files();
                const auto r      = run(s.dir, {python(), "tools/loc.py"});
                MC_CHECK(r.status == 0, "ended with ", r.status, ": ", r.err);
                std::map<std::string, std::string> got;
                for(auto& l : split(r.out)) {
                    const auto c = l.find(':');
                    if(c != std::string::npos) got[squeeze(l.substr(0, c))] = squeeze(l.substr(c + 1));
                }
                for(int d = 0; d < 3; ++d) MC_CHECK(got[dirs[d]] == std::to_string(want[d]), dirs[d], " has ", want[d], " lines: ", r.out);
                MC_CHECK(got["total"] == std::to_string(total), "total is ", total, ": ", r.out);
                MC_CHECK(s.files() == before, "files were changed");
            }
}
int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"guards", part_guards}, {"style", part_style}, {"lines", part_lines}});
}

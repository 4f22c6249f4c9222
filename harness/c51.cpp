// C51: the tools that run external programs reach every source, lose none and unpack nothing unverified.
// The external programs are stand-ins that write down what they were asked to do and fail where they are told to.
#include "tool_util.hpp"

#include <climits>
#include <set>

using namespace tool;

// ---- stand-ins
static const char* const FORMAT = R"(#!/bin/sh
# prints the text formatted; -i formats in place; fails at the call it is told to
in= ; f=
for a in "$@"; do
  case "$a" in
    -i) in=1 ;;
    -*) ;;
    *) f="$a" ;;
  esac
done
n=0
[ -e "$STAND/calls" ] && read n < "$STAND/calls"
n=$((n + 1))
echo $n > "$STAND/calls"
printf '%s\n' "$f" >> "$STAND/log"
if [ "$n" = "$FAIL_AT" ]; then
  printf 'half of'
  case "$FAIL" in
    signal) kill -KILL $$ ;;
    *) exit 1 ;;
  esac
fi
if [ -z "$f" ]; then sed 's/[ ]*$//; s/;  */; /g'
elif [ -n "$in" ]; then sed -i 's/[ ]*$//; s/;  */; /g' "$f"
else sed 's/[ ]*$//; s/;  */; /g' "$f"
fi
)";
// writes down its arguments, one per line, and an empty line
static const char* const RECORD = R"(#!/bin/sh
me=${0##*/}
n=0
[ -e "$STAND/calls" ] && read n < "$STAND/calls"
n=$((n + 1))
echo $n > "$STAND/calls"
{ printf '%s\n' "$me"; for a in "$@"; do printf '%s\n' "$a"; done; echo; } >> "$STAND/log"
[ "$n" = "$FAIL_AT" ] && { [ "$FAIL" = signal ] && kill -KILL $$; exit 3; }
exit 0
)";
static void program(const std::string& dir, const std::string& name, const std::string& text)
{
    write(dir + "/" + name, text);
    ::chmod((dir + "/" + name).c_str(), 0755);
}
static void borrow(const std::string& dir, const std::string& name)
{
    make_dirs(dir + "/x");
    for(const char* d : {"/usr/bin/", "/bin/"})
        if(!::access((d + name).c_str(), X_OK)) {
            if(::symlink((d + name).c_str(), (dir + "/" + name).c_str())) std::abort();
            return;
        }
    std::abort();
}
struct Stand {
    Scratch s;
    std::string path;
    Stand(const std::vector<std::string>& borrowed) : path(s.dir + "/bin")
    {
        for(auto& b : borrowed) borrow(path, b);
        ::setenv("STAND", s.dir.c_str(), 1);
        fail(0);
    }
    void fail(std::size_t at, const char* how = "exit")
    {
        ::setenv("FAIL_AT", std::to_string(at).c_str(), 1);
        ::setenv("FAIL", how, 1);
    }
    std::vector<std::vector<std::string>> calls() const
    {
        std::vector<std::vector<std::string>> v;
        std::vector<std::string> c;
        std::stringstream t(read(s.dir + "/log"));
        std::string l;
        while(std::getline(t, l))
            if(l.empty()) {
                v.push_back(c);
                c.clear();
            } else
                c.push_back(l);
        return v;
    }
    void forget() const
    {
        ::unlink((s.dir + "/log").c_str());
        ::unlink((s.dir + "/calls").c_str());
    }
};
static std::string formatted(const std::string& t)
{
    std::string r, l;
    auto line = [&] {
        while(!l.empty() && l.back() == ' ') l.pop_back();
        for(std::size_t i = 0; i < l.size(); ++i) {
            r += l[i];
            if(l[i] == ';' && i + 1 < l.size() && l[i + 1] == ' ') {
                r += ' ';
                while(i + 1 < l.size() && l[i + 1] == ' ') ++i;
            }
        }
        l.clear();
    };
    for(char c : t)
        if(c == '\n') {
            line();
            r += '\n';
        } else
            l += c;
    line();
    return r;
}
// the path of a file relative to the project
static std::string below(const std::string& dir, std::string p)
{
    char real[PATH_MAX];
    if(!p.empty() && p[0] != '/') p = dir + "/" + p;
    if(!::realpath(p.c_str(), real)) return "?" + p;
    std::string r = real, d = ::realpath(dir.c_str(), real) ? std::string(real) : dir;
    return r.compare(0, d.size() + 1, d + "/") == 0 ? r.substr(d.size() + 1) : r;
}

static const std::vector<std::string>& places()
{
    static const std::vector<std::string> v{"include/ieompp", "include/ieompp/alpha/beta.d", "src", "src/hubbard/include", "tests", "tests/deep/er/still",
                                            // not theirs
                                            "include", "tools", "external/blaze", "doc", "build/src"};
    return v;
}
static const std::size_t OWN = 6;
static const std::vector<std::string>& names()
{
    static const std::vector<std::string> v{"f.cpp", "f.hpp", "f.x.cpp", "f with blank.hpp", "f.h", "f.txt", "f.cpp.bak", "cpp", "f.CPP"};
    return v;
}
static const std::size_t SOURCES = 4;
static const std::vector<std::string>& texts()
{
    static const std::vector<std::string> v{"int f();   int g();  \n\n", "int f();\n", "", "int f();   // \xce\xb4 \xe2\x86\x91  \n  int g();   x", "\n   \nint f();\r\n"};
    return v;
}
static bool own(const std::string& path)
{
    bool in = false;
    for(const char* d : {"include/ieompp/", "src/", "tests/"}) in = in || path.compare(0, std::strlen(d), d) == 0;
    const auto n = path.substr(path.rfind('/') + 1);
    const auto e = n.rfind('.');
    return in && e != std::string::npos && (n.substr(e) == ".cpp" || n.substr(e) == ".hpp");
}

// every source is what the formatter makes of it, one at a time and together
static void part_format()
{
    for(std::size_t p = 0; p < places().size(); ++p)
        for(std::size_t x = 0; x < texts().size(); ++x)
            MC_CASE("formats ", places()[p], " text ", x)
            {
                mc::distinct(mc::hash_str(mc::str("format", p, ' ', x)));
                Scratch s;
                Stand stand({"sed", "sh"});
                program(stand.path, "clang-format", FORMAT);
                write(s.dir + "/tools/clang-format.py", script("clang-format.py"));
                for(auto& n : names()) write(s.dir + "/" + places()[p] + "/" + n, texts()[x]);
                for(const char* d : {"include/ieompp", "src", "tests"}) write(s.dir + "/" + d + "/always.hpp", texts()[0]);
                const auto before = s.files();
                const auto r      = run(s.dir, {python(), "tools/clang-format.py"}, stand.path.c_str());
                const auto after  = s.files();
                MC_CHECK(r.status == 0, "ended with ", r.status, ": ", r.err);
                MC_CHECK(after.size() == before.size(), "files were added or removed");
                for(auto& f : before) {
                    const auto i = after.find(f.first);
                    MC_CHECK(i != after.end(), f.first, " is gone");
                    if(i == after.end()) continue;
                    const auto want = own(f.first) ? formatted(f.second) : f.second;
                    MC_CHECK(i->second == want, f.first, " became\n", i->second, "\nand not\n", want);
                }
            }
}
// the formatter fails at any call, is killed there, or is not there at all
static void part_failing()
{
    const std::vector<std::string> files{"include/ieompp/a.hpp", "include/ieompp/b/c.hpp", "src/d.cpp", "src/e/f.hpp", "tests/g.cpp", "tests/h/i.cpp"};
    const std::size_t n = files.size();
    for(std::size_t have = 1; have < (std::size_t(1) << n); ++have) {
        const std::size_t count = std::size_t(__builtin_popcountll(have));
        if(!mc::thorough() && count != 1 && count != 3 && count != n) continue;
        for(std::size_t at = 1; at <= count + 2; ++at) {
            // the last two: the program is missing, nothing fails
            for(int how = 0; how < (at <= count ? 2 : 1); ++how)
                MC_CASE("formatter fails at call ", at, " of ", count, " files ", have, how ? " by a signal" : "")
                {
                    mc::distinct(mc::hash_str(mc::str("failing", have, ' ', at, ' ', how)));
                    Scratch s;
                    Stand stand({"sed", "sh"});
                    if(at != count + 1) program(stand.path, "clang-format", FORMAT);
                    stand.fail(at, how ? "signal" : "exit");
                    write(s.dir + "/tools/clang-format.py", script("clang-format.py"));
                    for(std::size_t i = 0; i < n; ++i)
                        if(have >> i & 1) write(s.dir + "/" + files[i], texts()[0] + files[i] + ";   x \n");
                    const auto before = s.files();
                    auto r            = run(s.dir, {python(), "tools/clang-format.py"}, stand.path.c_str());
                    const auto after  = s.files();
                    const bool fails  = at <= count + 1;
                    MC_CHECK((r.status != 0) == fails, "ended with ", r.status, ": ", r.err);
                    MC_CHECK(after.size() == before.size(), "files were added or removed");
                    for(auto& f : before) {
                        const auto i = after.find(f.first);
                        MC_CHECK(i != after.end(), f.first, " is gone");
                        if(i == after.end()) continue;
                        const auto want = own(f.first) ? formatted(f.second) : f.second;
                        MC_CHECK(i->second == want || (fails && i->second == f.second), f.first, " became\n", i->second, "\nfrom\n", f.second);
                    }
                    // afterwards, with the program in order, everything is formatted
                    program(stand.path, "clang-format", FORMAT);
                    stand.forget();
                    stand.fail(0);
                    r = run(s.dir, {python(), "tools/clang-format.py"}, stand.path.c_str());
                    MC_CHECK(r.status == 0, "ended with ", r.status, " when repeated: ", r.err);
                    for(auto& f : s.files()) {
                        const auto& was = before.find(f.first)->second;
                        MC_CHECK(f.second == (own(f.first) ? formatted(was) : was), f.first, " became\n", f.second, "\nwhen repeated");
                    }
                }
        }
    }
}
// tools that hand every source file below src to a checker
static void part_checkers()
{
    const std::vector<std::string> files{"src/a.cpp", "src/b c.cpp", "src/sub/d.cpp", "src/sub/deep.er/e.x.cpp", "src/f.hpp", "src/sub/g.cc", "src/cpp", "src/h.cpp.in"};
    const std::size_t sources = 4;
    for(int tool = 0; tool < 4; ++tool) // clang-tidy, without a directory, include-what-you-use, talkative
        for(std::size_t have = 0; have < (std::size_t(1) << sources); ++have) {
            const std::size_t count = std::size_t(__builtin_popcountll(have));
            for(std::size_t at = 0; at <= count; ++at)
                for(int how = 0; how < (at ? 2 : 1); ++how)
                    for(int build = 0; build < (tool == 0 ? 2 : 1); ++build)
                        MC_CASE("checker ", tool, " files ", have, " fails at ", at, how ? " by a signal" : "", " build directory ", build)
                        {
                            mc::distinct(mc::hash_str(mc::str("checkers", tool, ' ', have, ' ', at, ' ', how, ' ', build)));
                            Scratch s;
                            Stand stand({"sh"});
                            const std::string name = tool < 2 ? "clang-tidy" : "include-what-you-use";
                            program(stand.path, name, RECORD);
                            stand.fail(at, how ? "signal" : "exit");
                            write(s.dir + "/tools/" + name + ".py", script((name + ".py").c_str()));
                            std::multiset<std::string> want;
                            for(std::size_t i = 0; i < files.size(); ++i) {
                                if(i < sources && !(have >> i & 1)) continue;
                                write(s.dir + "/" + files[i], "int f();\n");
                                if(i < sources) want.insert(files[i]);
                            }
                            write(s.dir + "/include/ieompp/a.hpp", "");
                            write(s.dir + "/include/ieompp/z.cpp", "");
                            write(s.dir + "/tests/t.cpp", "");
                            const auto before = s.files();
                            std::vector<std::string> args{python(), "tools/" + name + ".py"};
                            const std::string dir = build ? "/somewhere/else" : "build";
                            if(tool == 0) args.push_back(dir);
                            if(tool == 3) args.push_back("-v");
                            const auto r = run(s.dir, args, stand.path.c_str());
                            MC_CHECK(s.files() == before, "files were changed");
                            const auto calls = stand.calls();
                            if(tool == 1) {
                                MC_CHECK(r.status == 1, "ended with ", r.status, " without a build directory: ", r.err);
                                MC_CHECK(calls.empty(), "runs without a build directory");
                                MC_CHECK(!r.err.empty(), "does not say what is missing");
                            } else {
                                MC_CHECK(r.status == 0, "ended with ", r.status, ": ", r.err);
                                std::multiset<std::string> got;
                                for(auto& c : calls) {
                                    got.insert(below(s.dir, c.back()));
                                    auto has = [&](const std::string& a) { return std::find(c.begin(), c.end(), a) != c.end(); };
                                    auto follows = [&](const std::string& a, const std::string& b) {
                                        for(std::size_t i = 0; i + 1 < c.size(); ++i)
                                            if(c[i] == a && c[i + 1] == b) return true;
                                        return false;
                                    };
                                    if(tool == 0) {
                                        MC_CHECK(follows("-p", dir) || has("-p=" + dir), "not for the build directory ", dir, ": ", c);
                                        MC_CHECK(has("-fix") || has("--fix"), "does not repair: ", c);
                                        bool filter = false, all = false;
                                        for(auto a : c) {
                                            if(a.compare(0, 2, "--") == 0) a = a.substr(1);
                                            const std::string h = "-header-filter=";
                                            if(a.compare(0, h.size(), h) == 0) {
                                                const auto at2 = a.find("/include/ieompp");
                                                filter         = at2 != std::string::npos && a.substr(h.size(), at2 - h.size()) == s.dir;
                                            }
                                            if(a.compare(0, 8, "-checks=") == 0) {
                                                all = true;
                                                for(const char* k : {"clang-analyzer-*", "cppcoreguidelines-*", "llvm-namespace-comment", "modernize-*", "performance-*",
                                                                     "readability-*"}) {
                                                    const auto l = "," + a.substr(8) + ",";
                                                    all          = all && l.find("," + std::string(k) + ",") != std::string::npos;
                                                }
                                            }
                                        }
                                        MC_CHECK(filter, "not for the headers of the project: ", c);
                                        MC_CHECK(all, "not all checks: ", c);
                                        MC_CHECK(r.out.find(c.back()) != std::string::npos, c.back(), " is not named: ", r.out);
                                    } else {
                                        MC_CHECK(has("-std=c++14"), "not for C++14: ", c);
                                        MC_CHECK(has("-I./include") || has("-Iinclude") || has("-I" + s.dir + "/include"), "not with the headers of the project: ", c);
                                        MC_CHECK(follows("-Xiwyu", "--verbose=3") == (tool == 3), "talkative or not: ", c);
                                    }
                                }
                                MC_CHECK(got == want, "checks ", std::vector<std::string>(got.begin(), got.end()), " and not ",
                                         std::vector<std::string>(want.begin(), want.end()));
                            }
                        }
        }
}

// ---- the external libraries are fetched, verified and unpacked
static const char* const SUM = "d40fe1c315536d14c42aae782cd7f8c96ed5993ba4f285c67ace90f99b3794b777508bef7cb47c3979f928d06bfc2237f103a25089117797cc9105b3b09be15a";
static const char* const STEP = R"(#!/bin/sh
me=${0##*/}
out= ; prev= ; in= ; dir=
for a in "$@"; do
  case "$prev" in
    -o|--output) out="$a" ;;
    -f|-xf|-xzf|--file) in="$a" ;;
    -C|--directory) dir="$a" ;;
  esac
  prev="$a"
done
case "$me" in
  git) echo git >> "$STAND/log"; exit $GIT ;;
  curl)
    echo curl >> "$STAND/log"
    case $CURL in
      good) printf 'good archive' > "$out" ;;
      other) printf 'other archive' > "$out" ;;
      none) exit 6 ;;
      part) printf 'good arch' > "$out"; exit 18 ;;
    esac ;;
  sha512sum)
    [ "$SHA" = fails ] && exit 127
    read l < "$1"
    case "$l" in
      'good archive') echo "$SUM  $1" ;;
      '') exit 1 ;;
      'other archive') echo "e${SUM#d}  $1" ;;
      *) echo "0123456789abcdef  $1" ;;
    esac ;;
  tar)
    read l < "$in"
    echo "tar $l" >> "$STAND/log"
    [ "$TAR" = 0 ] || exit $TAR
    [ -d "$dir" ] && printf '%s' "$l" > "$dir/unpacked" ;;
esac
)";
static void part_external()
{
    const std::vector<std::string> curls{"good", "other", "none", "part"};
    struct Env {
        int git;
        std::size_t curl;
        int tar, sha;
    };
    std::vector<Env> envs;
    for(int g = 0; g < 2; ++g)
        for(std::size_t c = 0; c < curls.size(); ++c)
            for(int t = 0; t < 2; ++t)
                for(int h = 0; h < 2; ++h)
                    if(g ? !c && !t && !h : !(t && h)) envs.push_back({g, c, t, h}); // what comes after a failure does not matter
    const std::vector<std::string> start{"", "good archive\n", "other archive\n", "good arch"};
    const int depth = mc::pick(2, 3);
    // every history of runs, with every step failing or not
    for(std::size_t a = 0; a < start.size(); ++a) {
        std::vector<std::size_t> w;
        std::function<void()> go = [&] {
            if(int(w.size()) == depth) {
                MC_CASE("archive ", a, " runs ", w)
                {
                    mc::distinct(mc::hash_str(mc::str("external", a, ' ', w)));
                    Scratch s;
                    Stand stand({"sh", "bash", "mkdir", "cut", "rm", "mv"});
                    for(const char* p : {"git", "curl", "sha512sum", "tar"}) program(stand.path, p, STEP);
                    write(s.dir + "/bashenv", "function /usr/bin/sha512sum { \"$STAND/bin/sha512sum\" \"$@\"; }\n");
                    write(s.dir + "/tools/get_external.sh", script("get_external.sh"));
                    make_dirs(s.dir + "/external/x");
                    if(!start[a].empty()) write(s.dir + "/external/eigen.tar.gz", start[a]);
                    ::setenv("BASH_ENV", (s.dir + "/bashenv").c_str(), 1);
                    ::setenv("SUM", SUM, 1);
                    for(auto k : w) {
                        const auto& e = envs[k];
                        ::setenv("GIT", e.git ? "1" : "0", 1);
                        ::setenv("CURL", curls[e.curl].c_str(), 1);
                        ::setenv("TAR", e.tar ? "2" : "0", 1);
                        ::setenv("SHA", e.sha ? "fails" : "works", 1);
                        const auto archive = s.dir + "/external/eigen.tar.gz";
                        const bool present = !::access(archive.c_str(), F_OK);
                        const auto was     = read(archive);
                        ::unlink((s.dir + "/external/eigen/unpacked").c_str());
                        const auto r = run(s.dir, {"/bin/bash", "tools/get_external.sh"}, stand.path.c_str());
                        std::vector<std::string> log;
                        std::stringstream t(read(stand.s.dir + "/log"));
                        for(std::string l; std::getline(t, l);) log.push_back(l);
                        stand.forget();
                        auto named = [&](const char* n) { return std::count_if(log.begin(), log.end(), [&](const std::string& l) { return l.compare(0, std::strlen(n), n) == 0; }); };
                        const bool fetch = !e.git && !present;
                        const bool there = !e.git && (present || e.curl < 2);
                        const auto text  = present ? was : curls[e.curl] + " archive";
                        const bool valid = there && !e.sha && (text == "good archive" || text == "good archive\n");
                        MC_CHECK(named("git") >= 1, "does not fetch the submodules");
                        MC_CHECK(named("curl") == (fetch ? 1 : 0), "downloads ", named("curl"), " times: ", log);
                        MC_CHECK(named("tar") == (valid ? 1 : 0), valid ? "does not unpack" : "unpacks what is not verified", ": ", log, r.err);
                        MC_CHECK((r.status == 0) == (valid && !e.tar), "ended with ", r.status, ": ", log, r.err);
                        MC_CHECK((read(s.dir + "/external/eigen/unpacked") == "good archive") == (valid && !e.tar), "what is unpacked is not in external/eigen");
                    }
                    ::unsetenv("BASH_ENV");
                }
                return;
            }
            for(std::size_t i = 0; i < envs.size(); ++i) {
                w.push_back(i);
                go();
                w.pop_back();
            }
        };
        go();
    }
}

// ---- the copy on the memory disk and the hook
static void part_scripts()
{
    for(int disk = 0; disk < 3; ++disk)
        for(int fails = 0; fails < 2; ++fails)
            MC_CASE("memory disk ", disk, fails ? " copying fails" : "")
            {
                mc::distinct(mc::hash_str(mc::str("disk", disk, ' ', fails)));
                Scratch s;
                Stand stand({"sh", "bash"});
                program(stand.path, "rsync", RECORD);
                stand.fail(fails ? 1 : 0);
                write(s.dir + "/tools/sync-ramdisk.sh", script("sync-ramdisk.sh"));
                if(disk == 1) make_dirs(s.dir + "/ramdisk/x");
                if(disk == 2) make_dirs(s.dir + "/ramdisk/build/x");
                const auto r     = run(s.dir, {"/bin/bash", "tools/sync-ramdisk.sh"}, stand.path.c_str());
                const auto calls = stand.calls();
                MC_CHECK(calls.size() == (disk == 2 ? 1u : 0u), "copies ", calls.size(), " times");
                MC_CHECK((r.status == 0) == (disk == 2 && !fails), "ended with ", r.status);
                if(disk < 2) MC_CHECK(!(r.out + r.err).empty(), "does not say what is missing");
                for(auto& c : calls) {
                    auto has = [&](const std::string& x) { return std::find(c.begin(), c.end(), x) != c.end(); };
                    MC_CHECK(c.size() > 2 && below(s.dir, c.back()) == "ramdisk", "copies to ", c.back());
                    MC_CHECK(below(s.dir, c[c.size() - 2]) == s.dir, "copies from ", c[c.size() - 2]);
                    MC_CHECK(has("--exclude=.git"), "copies the history as well: ", c);
                    for(auto& x : c) MC_CHECK(x.compare(0, 8, "--delete") != 0, "deletes what was built there: ", c);
                }
            }
    const std::vector<std::string> order{"include-guards.py", "include-style.py", "clang-format.py"};
    for(int fails = 0; fails < 8; ++fails)
        MC_CASE("hook, failing ", fails)
        {
            mc::distinct(mc::hash_str(mc::str("hook", fails)));
            Scratch s;
            Stand stand({"sh", "bash"});
            write(s.dir + "/hook", script("pre-commit-hook.sh"));
            for(std::size_t i = 0; i < order.size(); ++i)
                program(s.dir + "/tools", order[i], mc::str("#!/bin/sh\necho ", order[i], " >> \"$STAND/log\"\nexit ", fails >> i & 1, "\n"));
            const auto r = run(s.dir, {"/bin/bash", "hook"}, stand.path.c_str());
            std::string want;
            for(auto& o : order) want += o + "\n";
            MC_CHECK(read(stand.s.dir + "/log") == want, "ran\n", read(stand.s.dir + "/log"));
            MC_CHECK(!(fails & 4) || r.status != 0, "the commit goes on although formatting failed");
            MC_CHECK(fails || r.status == 0, "the commit is refused with ", r.status);
        }
}
int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"format", part_format}, {"failing", part_failing}, {"checkers", part_checkers}, {"external", part_external}, {"scripts", part_scripts}});
}

// C43: what the programs report about themselves, the machine and the run.
#include "mc.hpp"
#include "common.hpp"

#include "ieompp/openmp.hpp"

#include <dirent.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <unistd.h>

// the machine's name is chosen by the test
static char machine_name[128] = "node";
extern "C" int gethostname(char* buf, size_t n) noexcept
{
    if(std::strlen(machine_name) + 1 > n) return -1;
    std::strcpy(buf, machine_name);
    return 0;
}
extern "C" int uname(struct utsname* u) noexcept
{
    std::memset(u, 0, sizeof *u);
    std::strcpy(u->sysname, "Linux");
    std::strcpy(u->machine, "x86_64");
    std::strncpy(u->nodename, machine_name, sizeof u->nodename - 1);
    return 0;
}
using ieompp::Platform;

static const std::vector<std::string>& machines()
{
    static const std::vector<std::string> v{"node", "a", "n-01.cluster.example.org", "", std::string(63, 'h') + "x", "cl1"};
    return v;
}
// account names; the first one stands for none
static const std::vector<std::string> accounts{"\x01", "somebody", "", "root", "first.last@site", "x"};
static void log_in(const std::string& a)
{
    if(a == "\x01")
        ::unsetenv("LOGNAME");
    else
        ::setenv("LOGNAME", a.c_str(), 1);
}
static std::string account(const std::string& a) { return a == "\x01" ? "unknown" : a; }

static int threads_now = 1;
static int threads_max()
{
#ifdef _OPENMP
    return 16;
#else
    return 1;
#endif
}
static void use_threads(int n)
{
    threads_now = n;
#ifdef _OPENMP
    omp_set_num_threads(n);
#endif
}
static std::string compiler()
{
#if defined(__clang__)
    return mc::str("clang ", __clang_major__, '.', __clang_minor__, '.', __clang_patchlevel__);
#else
    return mc::str("gcc ", __GNUC__, '.', __GNUC_MINOR__, '.', __GNUC_PATCHLEVEL__);
#endif
}
static std::string boost_version()
{
    std::string v = BOOST_LIB_VERSION; // 1_83 or 1_83_1
    for(auto& c : v)
        if(c == '_') c = '.';
    if(std::count(v.begin(), v.end(), '.') == 1) v += ".0";
    return v;
}
static std::string byte_order()
{
    const uint16_t x = 0x0102;
    return *reinterpret_cast<const unsigned char*>(&x) == 2 ? "LittleEndian" : "BigEndian";
}

static void constant_facts()
{
    MC_CHECK(Platform::compiler() == compiler(), "compiler ", Platform::compiler());
    MC_CHECK(Platform::boost() == boost_version(), "boost ", Platform::boost());
#if defined(__x86_64__)
    MC_CHECK(Platform::architecture() == "x86_64", "architecture ", Platform::architecture());
#endif
#if defined(__linux__)
    MC_CHECK(Platform::operating_system() == "Linux", "operating system ", Platform::operating_system());
#endif
#if defined(__GLIBCXX__)
    MC_CHECK(std::string(Platform::cpp_library()).compare(0, 9, "libstdc++") == 0, "library ", Platform::cpp_library());
    MC_CHECK(mc::str(BOOST_LIB_STD_GNU) == std::string(Platform::cpp_library()).substr(9), "library ", Platform::cpp_library());
#endif
    MC_CHECK(mc::str(Platform::endianess()) == byte_order(), "byte order ", Platform::endianess());
    MC_CHECK(ieompp::blaze_version() == mc::str(BLAZE_MAJOR_VERSION, '.', BLAZE_MINOR_VERSION), "blaze ", ieompp::blaze_version());
}
// histories of changes of machine, account and threads: every report tells the present
static void part_histories()
{
    struct Change {
        int kind, value;
    };
    std::vector<Change> all;
    for(int i = 0; i < int(machines().size()); ++i) all.push_back({0, i});
    for(int i = 0; i < int(accounts.size()); ++i) all.push_back({1, i});
    for(int i = 1; i <= std::min(threads_max(), 5); ++i) all.push_back({2, i});
    const int depth = mc::pick(3, 4);
    std::vector<int> h;
    std::function<void()> go = [&] {
        MC_CASE("history ", h)
        {
            mc::distinct(mc::hash_str(mc::str(h)));
            int m = 0, a = 1, t = 1;
            auto check = [&] {
                std::strcpy(machine_name, machines()[m].c_str());
                log_in(accounts[a]);
                use_threads(t);
                constant_facts();
                MC_CHECK(Platform::host() == machines()[m], "host ", Platform::host(), " instead of ", machines()[m]);
                MC_CHECK(Platform::user() == account(accounts[a]), "user ", Platform::user(), " instead of ", account(accounts[a]));
                MC_CHECK(Platform::max_threads() == std::to_string(t), "threads ", Platform::max_threads(), " instead of ", t);
            };
            check();
            for(int i : h) {
                (all[i].kind == 0 ? m : all[i].kind == 1 ? a : t) = all[i].value;
                check();
                MC_COUNT("transitions", 1);
            }
        }
        if(int(h.size()) == depth) return;
        for(int i = 0; i < int(all.size()); ++i) {
            h.push_back(i);
            go();
            h.pop_back();
        }
    };
    go();
    using E = Platform::Endian;
    for(auto& e : std::vector<std::pair<E, std::string>>{{E::Unknown, "UnknownEndian"}, {E::Big, "BigEndian"}, {E::Little, "LittleEndian"}, {E::BigWord, "BigWordSwappedEndian"}, {E::LittleWord, "LittleWordSwappedEndian"}})
        MC_CASE("byte order ", e.second)
        {
            mc::distinct(mc::hash_str(e.second));
            MC_CHECK(mc::str('<', e.first, '>') == "<" + e.second + ">", "printed ", e.first);
        }
    MC_CASE("a program without threads of its own")
    {
        use_threads(1);
        // outside of any parallel region there is one thread, number 0, with or without OpenMP
        MC_CHECK(omp_get_thread_num() == 0 && omp_get_num_threads() == 1 && omp_get_max_threads() == 1, omp_get_thread_num(), ' ', omp_get_num_threads(), ' ', omp_get_max_threads());
    }
}

// ---- programs ----------------------------------------------------------------------------------
struct Opt {
    std::string name, def, text;
};
static const std::vector<Opt> opts{{"N", "128", "number of lattice sites"}, {"J", "0.5", "hopping prefactor"}, {"U", "", "interaction strength"}, {"measurement_interval", "100", "interval between measurements"}};
static std::string slurp(const std::string& path)
{
    std::ifstream f(path);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}
static std::vector<std::string> lines(const std::string& s)
{
    std::vector<std::string> v;
    std::istringstream i(s);
    std::string l;
    while(std::getline(i, l)) v.push_back(l);
    return v;
}
static std::map<std::string, std::string> files()
{
    std::map<std::string, std::string> m;
    DIR* d = ::opendir(".");
    while(auto* e = ::readdir(d))
        if(e->d_name[0] != '.' && std::string(e->d_name) != "stdout") m[e->d_name] = slurp(e->d_name);
    ::closedir(d);
    return m;
}
// starts the program in a process of its own and returns its exit status
static int start(const std::string& name, const std::vector<std::string>& args)
{
    std::fflush(nullptr);
    const pid_t p = ::fork();
    if(p == 0) {
        ::alarm(60);
        const int o = ::open("stdout", O_CREAT | O_TRUNC | O_WRONLY, 0600), n = ::open("/dev/null", O_RDWR);
        ::dup2(o, 1);
        ::dup2(n, 2);
        std::vector<std::string> a{"./" + name};
        a.insert(a.end(), args.begin(), args.end());
        std::vector<char*> v;
        for(auto& s : a) v.push_back(&s[0]);
        v.push_back(nullptr);
        Application::name        = name;
        Application::description = "What the program " + name + " is for";
        Application::add_default_options();
        // clang-format off
        Application::options_description.add_options()
            ("N", make_value<uint64_t>(128), "number of lattice sites")
            ("J", make_value<double>(0.5), "hopping prefactor")
            ("U", make_value<double>(), "interaction strength")
            ("measurement_interval", make_value<uint64_t>()->default_value(100), "interval between measurements")
            ;
        // clang-format on
        try {
            Application app(int(a.size()), v.data());
            app.output_file << "data\n";
        } catch(...) {
            ::_exit(99);
        }
        get_loggers() = Loggers(); // closes the log
        std::cout.flush();
        std::fflush(nullptr);
        ::_exit(0);
    }
    int st = 0;
    ::waitpid(p, &st, 0);
    MC_COUNT("traces", 1);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
// every fact is told on exactly one line, "<prefix><label>[:]<blanks><value>"
static void told(const char* where, const std::string& text, const std::string& label, const std::string& value)
{
    int n = 0;
    std::string got;
    for(auto& l : lines(text)) {
        std::size_t at = 0;
        while(at < l.size() && (l[at] == '#' || l[at] == ' ' || l[at] == '\t')) ++at;
        if(l.compare(at, label.size(), label)) continue;
        at += label.size();
        if(at < l.size() && l[at] != ':' && l[at] != ' ' && l[at] != '\t') continue;
        if(at < l.size() && l[at] == ':') ++at;
        while(at < l.size() && (l[at] == ' ' || l[at] == '\t')) ++at;
        got = l.substr(at);
        if(got == value) ++n;
    }
    MC_CHECK(n == 1, where, " tells ", label, " '", value, "' ", n, " times; found '", got, "'");
}
static void facts(const char* where, const std::string& text, int m, int a, bool threads)
{
    told(where, text, "ieompp", mc::str(ieompp::version));
    told(where, text, "boost", boost_version());
    told(where, text, "blaze", mc::str(BLAZE_MAJOR_VERSION, '.', BLAZE_MINOR_VERSION));
    told(where, text, "arch", Platform::architecture());
    told(where, text, "os", Platform::operating_system());
    told(where, text, "compiler", compiler());
    told(where, text, "std lib", Platform::cpp_library());
    told(where, text, "compiled by", account(accounts[a]) + "@" + machines()[m]);
    told(where, text, "endianess", byte_order());
    if(threads) told(where, text, "max threads", std::to_string(threads_now));
}
static void wipe()
{
    for(auto& f : files()) ::unlink(f.first.c_str());
    ::unlink("stdout");
}
static void part_programs()
{
    for(int m = 0; m < int(machines().size()); ++m)
        for(int a = 0; a < int(accounts.size()); ++a)
            for(int t = 1; t <= threads_max(); ++t)
                for(const std::string name : {"prog", "hubbard_real_1d"})
                    for(const std::string out : {"", "o.dat"})
                        for(int given = 0; given < 4; ++given) {
                            // every machine and account, and every number of threads, at least once with each of the others
                            if(!mc::thorough() && t > 2 && (m + a + t + given) % 5) continue;
                            MC_CASE(name, " on '", machines()[m], "' by '", account(accounts[a]), "' with ", t, " threads out ", out, " given ", given)
                            {
                                mc::distinct(mc::hash_str(mc::str(name, m, '.', a, '.', t, out, given)));
                                wipe();
                                std::strcpy(machine_name, machines()[m].c_str());
                                log_in(accounts[a]);
                                use_threads(t);
                                std::vector<std::string> args;
                                if(!out.empty()) args.push_back("--out=" + out);
                                if(given & 1) args.push_back("--N=16");
                                if(given & 2) args.push_back("--U=2.25");
                                // asking for help or the version touches no file
                                std::ofstream(name + ".txt") << "kept\n";
                                std::ofstream(name + ".rsp") << "--N=3\n";
                                std::ofstream("o.log") << "kept\n";
                                const auto before = files();
                                for(const std::string ask : {"--help", "--version"})
                                    for(int first : {0, 1}) {
                                        auto v = args;
                                        v.insert(first ? v.begin() : v.end(), ask);
                                        const int st = start(name, v);
                                        MC_CHECK(st < 99, ask, " ends with status ", st);
                                        MC_CHECK(files() == before, ask, " changes files");
                                        const auto text = slurp("stdout");
                                        if(ask == "--version") {
                                            told("--version", text, "program", name);
                                            facts("--version", text, m, a, true);
                                        } else {
                                            MC_CHECK(lines(text).size() && lines(text)[0] == name, "--help does not start with the name: ", text);
                                            MC_CHECK(text.find("What the program " + name + " is for") != std::string::npos, "--help does not describe the program: ", text);
                                            auto all = opts;
                                            all.push_back({"out", name + ".txt", "output file"});
                                            all.push_back({"response_file", "", "file to read program parameters from"});
                                            all.push_back({"help", "", ""});
                                            all.push_back({"version", "", ""});
                                            for(auto& o : all) {
                                                int n = 0;
                                                for(auto& l : lines(text)) {
                                                    const auto at = l.find_first_not_of(' ');
                                                    if(at == std::string::npos || l.compare(at, o.name.size() + 2, "--" + o.name) || (l.size() > at + o.name.size() + 2 && l[at + o.name.size() + 2] != ' ')) continue;
                                                    ++n;
                                                    MC_CHECK((l.find("(=" + o.def + ")") != std::string::npos) == !o.def.empty() && (l.find("(=") != std::string::npos) == !o.def.empty(),
                                                             "--help shows the default of ", o.name, ": ", l);
                                                }
                                                MC_CHECK(n == 1, "--help lists ", o.name, ' ', n, " times: ", text);
                                                MC_CHECK(text.find(o.text) != std::string::npos, "--help does not explain ", o.name);
                                            }
                                        }
                                    }
                                wipe();
                                // a run
                                const int st = start(name, args);
                                MC_CHECK(st == 0, "run ends with status ", st);
                                const auto f      = files();
                                const auto stem   = out.empty() ? name : "o";
                                const auto result = out.empty() ? name + ".txt" : out;
                                MC_CHECK(f.size() == 3 && f.count(result) && f.count(stem + ".log") && f.count(stem + ".rsp"), "files after the run");
                                if(f.count(result) && f.count(stem + ".log")) {
                                    const auto& o = f.at(result);
                                    const auto& l = f.at(stem + ".log");
                                    const auto data = lines(o);
                                    MC_CHECK(!data.empty() && data.back() == "data", "the header follows the data");
                                    for(std::size_t i = 0; i + 1 < data.size(); ++i) MC_CHECK(!data[i].empty() && data[i][0] == '#', "header line ", data[i]);
                                    told("the header", o, "program", name);
                                    facts("the header", o, m, a, true);
                                    facts("the log", l, m, a, false);
                                    for(auto& x : opts) {
                                        std::string v = x.def;
                                        if(x.name == "N" && (given & 1)) v = "16";
                                        if(x.name == "U" && (given & 2)) v = "2.25";
                                        if(v.empty()) continue;
                                        told("the header", o, x.name, "= " + v);
                                        told("the log", l, x.name, "= " + v);
                                    }
                                    told("the log", l, "out", "= " + result);
                                }
                                wipe();
                            }
                        }
}

int main(int argc, char** argv)
{
    std::vector<std::pair<std::string, std::function<void()>>> parts;
    auto add = [&](const char* name, void (*f)()) {
        parts.push_back({name, [f] {
                             char d[] = "/tmp/verif-c43-XXXXXX", old[4096];
                             if(!::getcwd(old, sizeof old) || !::mkdtemp(d) || ::chdir(d)) std::abort();
                             f();
                             if(::chdir(old)) std::abort();
                             ::rmdir(d);
                         }});
    };
    add("histories", part_histories);
    add("programs", part_programs);
    return mc::run(argc, argv, {parts.begin(), parts.end()});
}

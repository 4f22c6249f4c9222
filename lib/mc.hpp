// Runtime of the bounded-exhaustive explorers in /verif/harness.
//
// A harness enumerates a finite, deterministic sequence of cases (an input, an operation sequence, a
// model transition, a schedule). Every case has a number; `--only N` replays exactly one of them and
// `--upto N` replays the enumeration up to and including it, which is how a violation is confirmed
// before it is reported. The number of the running case lives in a shared mapping, so that the driver
// can name the case that crashed or hung.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_set>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

namespace mc
{
    struct Shared {
        volatile uint64_t case_no;
        volatile uint64_t steps;
    };

    struct State {
        Shared local{0, 0};
        Shared* shared = &local;
        bool thorough  = false;
        uint64_t only = 0, upto = 0; // 0 = all
        uint64_t case_no = 0;
        std::string part;
        std::string out;
        bool trace = false;
        std::map<std::string, uint64_t> counters;
        std::vector<std::string> samples;
        uint64_t sample_seen = 0, sample_next = 1;
        std::unordered_set<uint64_t> distinct;
        struct Violation {
            uint64_t case_no;
            std::string key, desc, msg;
        };
        std::vector<Violation> violations;
        std::map<std::string, std::string> info;
        std::function<std::string()> desc;
        bool stop = false;
    };

    inline State& S()
    {
        static State* s = new State;
        return *s;
    }

    inline bool thorough() { return S().thorough; }
    template <typename T>
    T pick(const T& quick, const T& deep)
    {
        return S().thorough ? deep : quick;
    }

    inline void put(std::ostream&) {}
    template <typename T, typename... Ts>
    void put(std::ostream& os, const T& t, const Ts&... ts);

    template <typename T>
    struct Put {
        static void go(std::ostream& os, const T& t) { os << t; }
    };
    template <typename A, typename B>
    struct Put<std::pair<A, B>> {
        static void go(std::ostream& os, const std::pair<A, B>& t)
        {
            os << '(';
            put(os, t.first);
            os << ',';
            put(os, t.second);
            os << ')';
        }
    };
    template <typename T>
    struct Put<std::vector<T>> {
        static void go(std::ostream& os, const std::vector<T>& t)
        {
            os << '[';
            for(std::size_t i = 0; i < t.size(); ++i) {
                if(i) os << ' ';
                const T e = t[i];
                put(os, e);
            }
            os << ']';
        }
    };
    template <typename T, typename... Ts>
    void put(std::ostream& os, const T& t, const Ts&... ts)
    {
        Put<T>::go(os, t);
        put(os, ts...);
    }
    template <typename... Ts>
    std::string str(const Ts&... ts)
    {
        std::ostringstream os;
        os.precision(17);
        put(os, ts...);
        return os.str();
    }

    inline uint64_t& counter(const char* name) { return S().counters[name]; }

    inline void violate(const std::string& key, const std::string& msg)
    {
        auto& s = S();
        const auto d = s.desc ? s.desc() : std::string("(outside a case)");
        s.violations.push_back({s.case_no, key, d, msg});
        std::cerr << "violation: case " << s.case_no << " [" << d << "]: " << msg << std::endl;
        if(s.violations.size() >= 12) s.stop = true;
    }

    // Write the result file; called at the end of main and by the crash path.
    inline std::string json_escape(const std::string& in)
    {
        std::string o;
        char b[8];
        for(unsigned char c : in) {
            if(c == '"' || c == '\\') {
                o += '\\';
                o += char(c);
            } else if(c < 32) {
                std::snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            } else
                o += char(c);
        }
        return o;
    }

    inline void write_result(bool complete)
    {
        auto& s = S();
        if(s.out.empty()) return;
        std::ofstream f(s.out);
        f << "{\"complete\":" << (complete ? "true" : "false") << ",\"cases\":" << s.case_no
          << ",\"distinct\":" << s.distinct.size() << ",\"counters\":{";
        bool first = true;
        for(auto& c : s.counters) {
            f << (first ? "" : ",") << '"' << json_escape(c.first) << "\":" << c.second;
            first = false;
        }
        f << "},\"info\":{";
        first = true;
        for(auto& c : s.info) {
            f << (first ? "" : ",") << '"' << json_escape(c.first) << "\":\""
              << json_escape(c.second) << '"';
            first = false;
        }
        f << "},\"samples\":[";
        first = true;
        for(auto& c : s.samples) {
            f << (first ? "" : ",") << '"' << json_escape(c) << '"';
            first = false;
        }
        f << "],\"violations\":[";
        first = true;
        for(auto& v : s.violations) {
            f << (first ? "" : ",") << "{\"case\":" << v.case_no << ",\"key\":\""
              << json_escape(v.key) << "\",\"desc\":\"" << json_escape(v.desc) << "\",\"msg\":\""
              << json_escape(v.msg) << "\"}";
            first = false;
        }
        f << "]}\n";
    }

    [[noreturn]] inline void finish()
    {
        write_result(true);
        std::cout.flush();
        std::cerr.flush();
        _exit(S().violations.empty() ? 0 : 1);
    }

    template <typename D>
    class Case
    {
        D _d;
        bool _run, _done = false;

    public:
        explicit Case(D d) : _d(std::move(d))
        {
            auto& s = S();
            if(s.stop) finish();
            ++s.case_no;
            if(s.upto && s.case_no > s.upto) finish();
            _run = (s.only == 0) || (s.only == s.case_no);
            if(s.only && s.case_no > s.only) finish();
            s.shared->case_no = s.case_no;
            if(_run) {
                ++s.sample_seen;
                if(s.sample_seen == s.sample_next && s.samples.size() < 12) {
                    s.samples.push_back(str("#", s.case_no, " ", _d()));
                    s.sample_next *= 5;
                }
                if(s.trace) {
                    std::cerr << "case " << s.case_no << ": " << _d() << std::endl;
                }
            }
        }
        Case(Case&&) = default;
        bool once()
        {
            auto& s = S();
            if(_done || !_run) {
                s.desc = nullptr;
                return false;
            }
            _done  = true;
            s.desc = [this] { return _d(); };
            return true;
        }
    };
    template <typename D>
    Case<D> begin(D d)
    {
        return Case<D>(std::move(d));
    }

    inline uint64_t mix(uint64_t x)
    {
        x += 0x9e3779b97f4a7c15ull;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }
    inline uint64_t hash_str(const std::string& s)
    {
        uint64_t h = 1469598103934665603ull;
        for(unsigned char c : s) h = (h ^ c) * 1099511628211ull;
        return mix(h);
    }
    inline void distinct(uint64_t h) { S().distinct.insert(h); }

    inline bool close(double a, double b, double tol) { return std::abs(a - b) <= tol; }
    inline bool close(const std::complex<double>& a, const std::complex<double>& b, double tol)
    {
        return std::abs(a - b) <= tol;
    }

    inline int run(int argc, char** argv, const std::map<std::string, std::function<void()>>& parts)
    {
        auto& s = S();
#ifdef MC_MEMORY_GB
        // code that has gone wrong must not take the machine's memory
        const rlim_t bytes = rlim_t(MC_MEMORY_GB) << 30;
        const rlimit limit{bytes, bytes};
        setrlimit(RLIMIT_AS, &limit);
#endif
        for(int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto val      = [&]() -> std::string { return (i + 1 < argc) ? argv[++i] : ""; };
            if(a == "--part")
                s.part = val();
            else if(a == "--tier")
                s.thorough = (val() == "thorough");
            else if(a == "--out")
                s.out = val();
            else if(a == "--only")
                s.only = std::strtoull(val().c_str(), nullptr, 10);
            else if(a == "--upto")
                s.upto = std::strtoull(val().c_str(), nullptr, 10);
            else if(a == "--trace")
                s.trace = true;
            else if(a == "--shm") {
                const auto p = val();
                int fd       = ::open(p.c_str(), O_RDWR | O_CREAT, 0644);
                if(fd >= 0 && ::ftruncate(fd, 4096) == 0) {
                    void* m = ::mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                    if(m != MAP_FAILED) s.shared = static_cast<Shared*>(m);
                }
            }
        }
        if(s.part == "list") {
            for(auto& p : parts) std::cout << p.first << '\n';
            return 0;
        }
        auto it = parts.find(s.part);
        if(it == parts.end()) {
            std::cerr << "no such part: " << s.part << '\n';
            return 3;
        }
        it->second();
        finish();
    }
} // namespace mc

#define MC_CASE(...)                                                                              \
    for(auto mc_case_guard = mc::begin([&]() -> std::string { return mc::str(__VA_ARGS__); });      \
        mc_case_guard.once();)

#define MC_CHECK(cond, ...)                                                                       \
    do {                                                                                          \
        static uint64_t& mc_n = mc::counter("checks");                                              \
        ++mc_n;                                                                                   \
        if(!(cond)) mc::violate("", mc::str(__VA_ARGS__));                                          \
    } while(0)

#define MC_CHECK_KEY(key, cond, ...)                                                              \
    do {                                                                                          \
        static uint64_t& mc_n = mc::counter("checks");                                              \
        ++mc_n;                                                                                   \
        if(!(cond)) mc::violate(key, mc::str(__VA_ARGS__));                                         \
    } while(0)

#define MC_COUNT(name, n)                                                                         \
    do {                                                                                          \
        static uint64_t& mc_n = mc::counter(name);                                                  \
        mc_n += (n);                                                                              \
    } while(0)

#endif

// C33: checkpoints and cleaning of output files. Everything happens in a scratch directory below the
// working directory.
#include "mc.hpp"
#include "checkpoint.hpp"
#include "crash_util.hpp"

#include <dirent.h>
#include <set>
#include <sys/wait.h>

using CD = std::complex<double>;
static std::string base;
static int dir_no = 0;

std::string read_file(const std::string& p, bool* ok = nullptr)
{
    std::ifstream f(p, std::ios::binary);
    if(ok) *ok = f.good();
    std::ostringstream s;
    if(f.good()) s << f.rdbuf();
    return s.str();
}
void write_file(const std::string& p, const std::string& c)
{
    std::ofstream f(p, std::ios::binary);
    f << c;
}
std::set<std::string> listing(const std::string& d)
{
    std::set<std::string> r;
    if(DIR* h = ::opendir(d.c_str())) {
        while(auto e = ::readdir(h))
            if(e->d_name[0] != '.') r.insert(e->d_name);
        ::closedir(h);
    }
    return r;
}
void remove_dir(const std::string& d)
{
    for(auto& n : listing(d)) ::unlink((d + "/" + n).c_str());
    ::rmdir(d.c_str());
}
std::string fresh()
{
    const auto d = base + "/d" + std::to_string(dir_no++);
    boost::filesystem::create_directory(d);
    return d;
}
std::string show(const std::string& s)
{
    std::string r = mc::str(s.size(), ":\"");
    for(unsigned char c : s.substr(0, 80)) r += (c < 32 || c > 126) ? mc::str("\\x", int(c)) : std::string(1, char(c));
    return r + '"';
}
bool skip(const std::string& l)
{
    for(unsigned char c : l) {
        if(c == ' ' || (c >= 9 && c <= 13)) continue;
        return c == '#';
    }
    return true;
}
// the leading lines up to and including the given number of entries; `lead` is set to the leading
// comments when no entry is wanted
std::string leading(const std::string& s, uint64_t entries)
{
    std::size_t p = 0;
    uint64_t n    = 0;
    while(p < s.size() && n < entries) {
        const auto e = s.find('\n', p);
        const auto l = (e == std::string::npos) ? s.substr(p) : s.substr(p, e - p);
        if(!skip(l)) ++n;
        p = (e == std::string::npos) ? s.size() : e + 1;
    }
    return s.substr(0, p);
}
void check_clean(const std::string& d, const std::string& t, uint64_t entries)
{
    const auto path = d + "/out.txt";
    clean_output_file(path, entries);
    bool ok;
    const auto bak = read_file(path + ".bak", &ok);
    MC_CHECK(ok && bak == t, entries, " entries: the backup holds ", show(bak));
    const auto got = read_file(path, &ok);
    auto want      = leading(t, entries);
    MC_CHECK(ok, "no file left");
    bool good = (got == want);
    // a last line that was cut off may be completed
    if(!want.empty() && want.back() != '\n') good = good || got == want + "\n";
    // asking for no entry may keep leading comments
    if(entries == 0 && !good)
        good = t.compare(0, got.size(), got) == 0 && (got.size() == t.size() || got.back() == '\n') && leading(got, 1) == got && leading(t, 1) != got;
    MC_CHECK(good, entries, " entries: the file holds ", show(got), " instead of ", show(want));
    MC_CHECK(listing(d) == (std::set<std::string>{"out.txt", "out.txt.bak"}), "unexpected files");
}
void clean_one(const std::string& t, uint64_t max_entries)
{
    MC_CASE("clean ", show(t), " to 0..", max_entries, " entries")
    {
        mc::distinct(mc::hash_str(t));
        const auto d = fresh();
        for(uint64_t n = 0; n <= max_entries; ++n) {
            write_file(d + "/out.txt", t);
            ::unlink((d + "/out.txt.bak").c_str());
            check_clean(d, t, n);
            MC_COUNT("traces", 1);
            MC_COUNT("states", 1);
        }
        // again, over an old backup: fewer and fewer entries
        write_file(d + "/out.txt", t);
        for(uint64_t n = max_entries; n > 0; --n) check_clean(d, read_file(d + "/out.txt"), n);
        remove_dir(d);
    }
}
void texts(const std::string& alphabet, std::size_t max_len)
{
    for(std::size_t len = 0; len <= max_len; ++len) {
        std::vector<std::size_t> w(len, 0);
        std::string t(len, alphabet[0]);
        for(;;) {
            clean_one(t, std::count(t.begin(), t.end(), '\n') + 2);
            std::size_t i = len;
            while(i > 0) {
                if(++w[i - 1] < alphabet.size()) {
                    t[i - 1] = alphabet[w[i - 1]];
                    break;
                }
                w[--i] = 0;
                t[i]   = alphabet[0];
            }
            if(i == 0) break;
        }
    }
}
void part_clean() { texts("1#\n", mc::pick(8, 9)); }
void part_blanks() { texts("1 \n\r#", mc::pick(4, 6)); }
void part_outputs()
{
    // outputs of the programs, cut off at every byte
    std::string t = "# program\tx\n#\n# CLI options:\n#\tN = 16\n\n";
    for(int i = 0; i < 4; ++i) t += mc::str(0.25 * i, "\t", 1. / (i + 1), "\n");
    for(std::size_t cut = 0; cut <= t.size(); ++cut) clean_one(t.substr(0, cut), 6);
    std::string l;
    for(int i = 0; i < 3; ++i) l += "# c\n" + std::string(70000, char('1' + i)) + "\n";
    for(std::size_t cut : {0, 1, 2, 69999, 70000, 70001, 70005, 70006}) clean_one(l.substr(0, l.size() - cut), 4);
    std::string many;
    for(int i = 0; i < 300; ++i) many += std::to_string(i) + "\n";
    clean_one(many, 301);
}

template <typename S>
std::vector<S> values();
template <>
std::vector<double> values() { return {0., -0., 1., 0.1, -1e-310, 1e300, 12345.678901234567}; }
template <>
std::vector<CD> values() { return {{0., 0.}, {1., -0.}, {0.1, -0.2}, {1e300, 1e-310}, {-1. / 3, 2. / 3}}; }

template <typename S>
bool same(const blaze::DynamicVector<S>& a, const std::vector<S>& b)
{
    if(a.size() != b.size()) return false;
    for(std::size_t i = 0; i < b.size(); ++i) {
        const S x = a[i];
        if(std::memcmp(&x, &b[i], sizeof(double) * (std::is_same<S, double>::value ? 1 : 2))) return false;
    }
    return true;
}
// every history of checkpoints of vectors of these sizes
template <typename S>
void histories(const char* name, const std::vector<std::size_t>& sizes, std::size_t depth)
{
    const auto vals = values<S>();
    std::vector<std::size_t> h(depth, 0);
    for(std::size_t len = 1; len <= depth; ++len) {
        std::vector<std::size_t> w(len, 0);
        for(;;) {
            MC_CASE(name, " checkpoints of sizes ", w)
            {
                const auto d      = fresh();
                const auto prefix = d + "/run_checkpoint_";
                std::vector<std::vector<S>> written;
                long last = -1;
                mc::distinct(mc::hash_str(mc::str(name, w)));
                for(std::size_t k = 0; k < len; ++k) {
                    const auto n = sizes[w[k]];
                    blaze::DynamicVector<S> v(n);
                    std::vector<S> m;
                    for(std::size_t i = 0; i < n; ++i) m.push_back(v[i] = vals[(i * 3 + k * 5 + n) % vals.size()]);
                    const double t = 0.25 * double(k * k) + (k == 1 ? 0.001 : 0.);
                    const auto old = listing(d);
                    write_checkpoint_file(prefix, v, t);
                    MC_CHECK(same(v, m), "writing changed the vector");
                    long no = -1;
                    int fresh_files = 0;
                    for(auto& f : listing(d)) {
                        if(old.count(f)) continue;
                        ++fresh_files;
                        std::istringstream s(f.substr(std::min<std::size_t>(f.size(), 15)));
                        s >> no;
                    }
                    MC_CHECK(fresh_files == 2 && no >= 0, "checkpoint ", k, " creates ", fresh_files, " files");
                    MC_CHECK(last < 0 || no == last + 1, "checkpoint ", k, " gets number ", no, " after ", last);
                    last = no;
                    written.push_back(m);
                    // the recorded time
                    std::istringstream info(read_file(prefix + std::to_string(no) + ".info"));
                    double r = -1;
                    info >> r;
                    MC_CHECK(r == t, "checkpoint ", k, " records time ", r, " instead of ", t);
                    MC_COUNT("transitions", 1);
                    // read back every checkpoint so far, newest first, into vectors of other sizes
                    for(std::size_t b = 0; b <= k; ++b) {
                        blaze::DynamicVector<S> x(b * 2);
                        for(std::size_t i = 0; i < x.size(); ++i) x[i] = S(7.);
                        read_checkpoint_file(prefix + std::to_string(no - long(b)) + ".blaze", x);
                        MC_CHECK(same(x, written[k - b]), "checkpoint ", k - b, " read after ", k, " differs");
                        MC_COUNT("traces", 1);
                        MC_COUNT("states", 1);
                    }
                }
                remove_dir(d);
            }
            std::size_t i = len;
            while(i > 0) {
                if(++w[i - 1] < sizes.size()) break;
                w[--i] = 0;
            }
            if(i == 0) break;
        }
    }
}
void part_checkpoints()
{
    histories<CD>("complex", {0, 1, 2, 7}, mc::pick(4, 5));
    histories<double>("real", {0, 1, 3, 100}, mc::pick(4, 5));
}
// one long run: no checkpoint replaces an earlier one
template <typename S>
void long_run(const char* name, std::size_t count)
{
    MC_CASE(name, ' ', count, " checkpoints in one run")
    {
        mc::distinct(mc::hash_str(mc::str(name, "long", count)));
        const auto d      = fresh();
        const auto prefix = d + "/run_checkpoint_";
        blaze::DynamicVector<S> v(2);
        for(std::size_t k = 0; k < count; ++k) {
            v[0] = S(double(k));
            v[1] = S(-0.5 * double(k));
            write_checkpoint_file(prefix, v, double(k));
            MC_COUNT("transitions", 1);
        }
        const auto files = listing(d);
        MC_CHECK(files.size() == 2 * count, files.size(), " files after ", count, " checkpoints");
        long first = -1;
        for(auto& f : files) {
            if(f.find(".info") == std::string::npos) continue;
            const long no = std::stol(f.substr(15));
            if(first < 0 || no < first) first = no;
        }
        for(std::size_t k = 0; k < count; ++k) {
            const auto path = prefix + std::to_string(first + long(k));
            std::istringstream info(read_file(path + ".info"));
            double r = -1;
            info >> r;
            MC_CHECK(r == double(k) || k >= 100000, "checkpoint ", k, " records time ", r);
            read_checkpoint_file(path + ".blaze", v);
            MC_CHECK(v.size() == 2 && v[0] == S(double(k)) && v[1] == S(-0.5 * double(k)), "checkpoint ", k, " differs after ", count, " checkpoints");
            MC_COUNT("states", 1);
        }
        MC_COUNT("traces", 1);
        remove_dir(d);
    }
}
void part_long()
{
    long_run<CD>("complex", mc::pick(700, 66000));
    long_run<double>("real", mc::pick(300, 1000));
}
// runs f in a child that dies at every point in turn; check is called after each death
template <typename Prepare, typename F, typename Check>
uint64_t crashes(Prepare prepare, F f, Check check)
{
    for(uint64_t k = 0;; ++k) {
        prepare();
        const pid_t pid = ::fork();
        if(pid == 0) {
            kill_at = k;
            point   = 0;
            armed   = true;
            f();
            armed = false;
            ::_exit(0);
        }
        int st = 0;
        ::waitpid(pid, &st, 0);
        const bool died = WIFEXITED(st) && WEXITSTATUS(st) == 42;
        MC_CHECK(died || (WIFEXITED(st) && WEXITSTATUS(st) == 0), "child ended with status ", st, " at point ", k);
        MC_COUNT("transitions", 1);
        MC_COUNT("states", 1);
        check(k, died);
        if(!died || k > 5000) return k;
    }
}
void part_crash()
{
    std::vector<std::string> ts{"", "1", "1\n", "#\n1\n2\n", "# c\n\n0\t1\n1\t0.5\n2\t0.25"};
    ts.push_back("# c\n" + std::string(20000, '1') + "\n2\n" + std::string(20000, '3') + "\n");
    std::string m;
    for(int i = 0; i < 4000; ++i) m += std::to_string(i) + "\t0.5\n";
    ts.push_back(m);
    for(auto& t : ts)
        for(uint64_t n : {0, 1, 2, 3, 3999}) {
            MC_CASE("the process dies while cleaning ", show(t), " to ", n, " entries")
            {
                const auto d    = fresh();
                const auto path = d + "/out.txt";
                crashes(
                    [&] {
                        write_file(path, t);
                        ::unlink((path + ".bak").c_str());
                    },
                    [&] { clean_output_file(path, n); },
                    [&](uint64_t at, bool) {
                        bool ok1, ok2;
                        const auto a = read_file(path, &ok1), b = read_file(path + ".bak", &ok2);
                        MC_CHECK((ok1 && a == t) || (ok2 && b == t), "death at point ", at, " loses the old file: ", show(a), " ", show(b));
                    });
                mc::distinct(mc::hash_str(mc::str(t, n)));
                remove_dir(d);
            }
        }
    for(std::size_t size : {1, 100, 3000})
        for(int before = 0; before <= 2; ++before) {
            MC_CASE("the process dies while writing checkpoint ", before, " of size ", size)
            {
                const auto d      = fresh();
                const auto prefix = d + "/p_";
                std::vector<std::string> files;
                blaze::DynamicVector<CD> v(size);
                for(std::size_t i = 0; i < size; ++i) v[i] = CD(i, 1. / (i + 1));
                for(int b = 0; b < before; ++b) {
                    const auto old = listing(d);
                    write_checkpoint_file(prefix, v, double(b));
                    for(auto& f : listing(d))
                        if(!old.count(f)) files.push_back(f);
                }
                std::vector<std::string> content;
                for(auto& f : files) content.push_back(read_file(d + "/" + f));
                crashes([] {}, [&] { write_checkpoint_file(prefix, v, 77.); },
                        [&](uint64_t at, bool) {
                            for(std::size_t i = 0; i < files.size(); ++i)
                                MC_CHECK(read_file(d + "/" + files[i]) == content[i], "death at point ", at, " damages ", files[i]);
                        });
                mc::distinct(mc::hash_str(mc::str(size, before)));
                remove_dir(d);
            }
        }
}
int main(int argc, char** argv)
{
    char tmpl[] = "c33-XXXXXX";
    base        = ::mkdtemp(tmpl);
    get_loggers().init(base + "/log.log");
    ::unlink((base + "/log.log").c_str());
    std::atexit([] { ::rmdir(base.c_str()); });
    return mc::run(argc, argv, {{"clean", part_clean}, {"blanks", part_blanks}, {"outputs", part_outputs}, {"checkpoints", part_checkpoints}, {"long", part_long}, {"crash", part_crash}});
}

// C54: the helpers that write and read files: what cannot be written or read is reported.
#include "mc.hpp"
#include <cassert>
#include <complex>
#include <iterator>
#include "common.hpp"
#include "fault_util.hpp"

#include <functional>
#include <map>

using CD      = std::complex<double>;
using Vec     = blaze::DynamicVector<CD>;
using CMatrix = blaze::CompressedMatrix<CD, blaze::rowMajor>;

bool slurp(const std::string& path, std::string& s)
{
    std::ifstream f(path, std::ios::binary);
    if(!f) return false;
    std::ostringstream o;
    o << f.rdbuf();
    s = o.str();
    return true;
}
void put(const std::string& path, const std::string& s)
{
    std::ofstream f(path, std::ios::binary);
    f << s;
}
bool ours(const std::string& p) { return p.find("run_") != std::string::npos; }
const char* name(fault::Mode m)
{
    switch(m) {
    case fault::once: return "fails once";
    case fault::full: return "fails for good";
    case fault::torn: return "is torn and fails for good";
    case fault::part: return "is done in parts";
    default: return "is interrupted";
    }
}
// f with every operation struck in turn; check(success, where)
void strike_all(const std::string& key, const std::function<void()>& set_up, const std::function<void()>& f, const std::function<void(bool, const std::string&)>& check)
{
    for(auto mode : {fault::once, fault::full, fault::torn, fault::part, fault::signal})
        MC_CASE(key, ": an operation ", name(mode))
        {
            mc::distinct(mc::hash_str(mc::str(key, int(mode))));
            uint64_t at = 0;
            for(; at < 3000 && !mc::S().stop; ++at) {
                set_up();
                fault::interesting = ours;
                fault::mode        = mode;
                fault::at          = at;
                fault::point       = 0;
                fault::fired = fault::failing = fault::tail = false;
                fault::armed       = true;
                bool success       = true;
                try {
                    f();
                } catch(const std::exception&) {
                    success = false;
                }
                fault::armed = false;
                std::fill(fault::watched, fault::watched + fault::LAST, false);
                MC_COUNT("transitions", 1);
                MC_COUNT("states", 1);
                MC_COUNT("traces", 1);
                const auto where = mc::str("operation ", at, " ", name(mode), success ? ", success is reported" : ", failure is reported");
                MC_CHECK(success || (fault::fired && !fault::harmless(mode)), where, ", though nothing was lost");
                check(success, where);
                if(!fault::fired) break;
            }
            MC_CHECK(at >= 1 && at < 3000, at, " operations");
        }
}
Vec vec(std::size_t n)
{
    Vec v(n);
    for(std::size_t i = 0; i < n; ++i) v[i] = CD(1. / double(i + 3), double(i) - 7.5);
    return v;
}
bool same(const Vec& a, const Vec& b)
{
    if(a.size() != b.size()) return false;
    for(std::size_t i = 0; i < a.size(); ++i)
        if(a[i] != b[i]) return false;
    return true;
}
void checkpoints()
{
    for(std::size_t n : {0, 1, 3, 600, 3000}) {
        static long number = 0; // of the next checkpoint
        const auto v       = vec(n);
        auto file          = [](long k, const char* e) { return "run_checkpoint_" + std::to_string(k) + e; };
        std::map<std::string, std::string> kept;
        strike_all(
            mc::str("writing a checkpoint of ", n, " elements"), [&] {}, [&] { write_checkpoint_file("run_checkpoint_", v, 0.375); },
            [&](bool success, const std::string& where) {
                for(auto& x : kept) {
                    std::string s;
                    MC_CHECK(slurp(x.first, s) && s == x.second, where, ", an earlier checkpoint is lost: ", x.first);
                }
                if(!success) return;
                std::string info;
                Vec back;
                // the number after a failure is up to the helper
                for(long k = number; k < number + 100; ++k)
                    if(slurp(file(k, ".info"), info)) number = k;
                bool ok = true;
                try {
                    read_checkpoint_file(file(number, ".blaze"), back);
                } catch(const std::exception&) {
                    ok = false;
                }
                MC_CHECK(ok && same(back, v), where, ", but the checkpoint cannot be read");
                MC_CHECK(slurp(file(number, ".info"), info) && info == "0.375\n", where, ", but the time of the checkpoint is lost");
                for(auto e : {".blaze", ".info"}) slurp(file(number, e), kept[file(number, e)]);
                ++number;
            });
        for(auto& x : kept) ::unlink(x.first.c_str());
        Vec back;
        strike_all(
            mc::str("reading a checkpoint of ", n, " elements"),
            [&] {
                std::ofstream f("run_old.blaze", std::ios::binary);
                blaze::Archive<std::ofstream> a(f);
                a << v;
                f.close();
                back = vec(2);
            },
            [&] { read_checkpoint_file("run_old.blaze", back); }, [&](bool success, const std::string& where) { MC_CHECK(!success || same(back, v), where, ", but the vector differs"); });
        ::unlink("run_old.blaze");
    }
    for(auto e : {".blaze", ".info"})
        for(long k = 0; k < 2000; ++k) ::unlink(("run_checkpoint_" + std::to_string(k) + e).c_str());
}
void cleaning()
{
    std::string many, wide = "# c\n";
    for(int i = 0; i < 6000; ++i) many += std::to_string(i) + "\t0.5\n";
    for(int i = 0; i < 3; ++i) wide += std::string(20000, char('1' + i)) + "\n";
    for(const std::string& t : {std::string(""), std::string("1\n"), std::string("# c\n1\n2\n3\n"), many, wide})
        for(uint64_t n : {1, 2, 5000}) {
            std::string want;
            uint64_t entries = 0;
            for(std::size_t p = 0; p < t.size() && entries < n;) {
                const auto e = t.find('\n', p);
                entries += t[p] != '#';
                want += t.substr(p, e - p + 1);
                p = e + 1;
            }
            strike_all(
                mc::str("cleaning ", t.size(), ':', t.substr(0, 12), " to ", n, " entries"),
                [&] {
                    ::unlink("run_out.txt.bak");
                    put("run_out.txt", t);
                },
                [&] { clean_output_file("run_out.txt", n); },
                [&](bool success, const std::string& where) {
                    std::string a, b;
                    const bool ok1 = slurp("run_out.txt", a), ok2 = slurp("run_out.txt.bak", b);
                    MC_CHECK((ok1 && a == t) || (ok2 && b == t), where, ", the entries are lost");
                    if(success)
                        MC_CHECK(ok1 && a == want, where, ", but the file does not hold the first entries");
                });
        }
    ::unlink("run_out.txt");
    ::unlink("run_out.txt.bak");
}
void matrices()
{
    for(std::size_t n : {0, 1, 3, 40}) {
        CMatrix m(n, n);
        for(std::size_t i = 0; i < n; ++i)
            for(std::size_t j = i % 2; j < n; j += 2) m(i, j) = CD(double(i) + 0.5, double(j));
        std::string want;
        write_matrix_file("run_matrix.blaze", m);
        slurp("run_matrix.blaze", want);
        strike_all(
            mc::str("writing a matrix of dimension ", n), [&] { put("run_matrix.blaze", "old"); }, [&] { write_matrix_file("run_matrix.blaze", m); },
            [&](bool success, const std::string& where) {
                std::string s;
                MC_CHECK(!success || (slurp("run_matrix.blaze", s) && s == want), where, ", but the matrix is not complete");
            });
    }
    ::unlink("run_matrix.blaze");
}
void responses()
{
    OptionsDescription d;
    d.add_options()("N", make_value<uint64_t>(4))("J", make_value<double>(1.))("text", make_value<std::string>("none"));
    for(std::size_t length : {0, 5, 8000, 20000})
        for(bool last : {true, false}) {
            std::string t = "--N=12\n--text=a" + std::string(length, 'b') + "\n--J=-0.5";
            if(last) t += "\n";
            VariablesMap vm;
            std::vector<std::pair<std::string, std::string>> got;
            strike_all(
                mc::str("reading a response file of ", t.size(), " characters"),
                [&] {
                    put("run_given.rsp", t);
                    vm = VariablesMap();
                    got.clear();
                },
                [&] {
                    got = read_response_file("run_given.rsp", vm, d);
                    boost::program_options::notify(vm);
                },
                [&](bool success, const std::string& where) {
                    if(!success) return;
                    MC_CHECK(vm["N"].as<uint64_t>() == 12 && vm["J"].as<double>() == -0.5 && vm["text"].as<std::string>() == "a" + std::string(length, 'b') && got.size() == 3, where,
                             ", but options are lost");
                });
        }
    ::unlink("run_given.rsp");
}

// each part in a directory of its own
std::function<void()> apart(void (*f)())
{
    return [f] {
        char d[] = "/tmp/verif-c54-XXXXXX", old[4096];
        if(!::getcwd(old, sizeof old) || !::mkdtemp(d) || ::chdir(d)) std::abort();
        f();
        if(::chdir(old)) std::abort();
        ::rmdir(d);
    };
}
int main(int argc, char** argv)
{
    get_loggers().init("/dev/null");
    return mc::run(argc, argv, {{"checkpoints", apart(checkpoints)}, {"cleaning", apart(cleaning)}, {"matrices", apart(matrices)}, {"responses", apart(responses)}});
}

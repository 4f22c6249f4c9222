// C57: the helpers that write and read files, in two processes at once on different files (or reading the same one).
#include "mc.hpp"
#include <cassert>
#include <complex>
#include <iterator>
#include "common.hpp"
#include "inter_util.hpp"

#include <dirent.h>
#include <functional>
#include <map>
#include <sys/stat.h>

using CD      = std::complex<double>;
using Vec     = blaze::DynamicVector<CD>;
using CMatrix = blaze::CompressedMatrix<CD, blaze::rowMajor>;
using Files   = std::map<std::string, std::string>;

void put(const std::string& path, const std::string& s)
{
    std::ofstream f(path, std::ios::binary);
    f << s;
}
Files files()
{
    Files f;
    DIR* d = ::opendir("side");
    if(!d) std::abort();
    while(auto* e = ::readdir(d)) {
        if(e->d_name[0] == '.') continue;
        const std::string path = std::string("side/") + e->d_name;
        std::ifstream in(path, std::ios::binary);
        std::ostringstream o;
        o << in.rdbuf();
        f[path] = o.str();
    }
    ::closedir(d);
    return f;
}
// what a process does with the files of its own name; 0 if what it saw was right
struct Job {
    std::string key;
    std::function<void(const std::string&)> set_up;
    std::function<int(const std::string&)> work;
};
void set_up(const Job* j, const std::string* names)
{
    for(auto& x : files()) ::unlink(x.first.c_str());
    for(int i = 0; i < 2; ++i) j[i].set_up("side/" + names[i]);
}
void pair(const Job& x, const Job& y, const std::string& a, const std::string& b)
{
    MC_CASE(x.key, " for ", a, " beside ", y.key, " for ", b)
    {
        mc::distinct(mc::hash_str(mc::str(x.key, y.key, a, b)));
        const Job j[2]            = {x, y};
        const std::string names[] = {a, b};
        auto body = [&](int i) -> std::function<int()> {
            return [&, i] {
                try {
                    return j[i].work("side/" + names[i]);
                } catch(const std::exception&) {
                    return 97;
                }
            };
        };
        // one after the other is what every interleaving has to give
        uint64_t ops[2];
        set_up(j, names);
        for(int i = 0; i < 2; ++i) {
            inter::Process p;
            p.start(body(i));
            p.go(~0ull);
            ops[i] = p.ops;
            MC_CHECK(p.status == 0, j[i].key, " alone ends with status ", p.status);
        }
        const Files want = files();
        for(int first = 0; first < 2; ++first)
            for(uint64_t n = 0; n <= ops[first]; ++n)
                for(uint64_t m = 1; m <= ops[1 - first]; ++m) {
                    if(mc::S().stop) break;
                    set_up(j, names);
                    inter::Process p[2];
                    p[0].start(body(0));
                    p[1].start(body(1));
                    p[first].go(n);
                    p[1 - first].go(m);
                    p[first].go(~0ull);
                    p[1 - first].go(~0ull);
                    MC_COUNT("traces", 1);
                    MC_COUNT("states", 1);
                    MC_COUNT("transitions", p[0].ops + p[1].ops);
                    const auto what = mc::str(n, " operations of ", j[first].key, ", ", m, " of the other: ");
                    for(int i = 0; i < 2; ++i) MC_CHECK(p[i].status == 0, what, j[i].key, " ends with status ", p[i].status);
                    const auto got = files();
                    for(auto& f : want) {
                        const auto g = got.find(f.first);
                        MC_CHECK(g != got.end() && g->second == f.second, what, f.first, " is not what it is alone");
                    }
                    for(auto& f : got) MC_CHECK(want.count(f.first), what, "leaves ", f.first);
                }
        for(auto& f : files()) ::unlink(f.first.c_str());
    }
}
Vec vec(std::size_t n)
{
    Vec v(n);
    for(std::size_t i = 0; i < n; ++i) v[i] = CD(double(i) + 0.5, -double(i));
    return v;
}
std::string tail(const std::string& path) { return path.substr(path.rfind('/') + 1); }
void helpers()
{
    ::mkdir("side", 0777);
    auto nothing = [](const std::string&) {};
    std::vector<Job> jobs;
    jobs.push_back({"writing two checkpoints", nothing, [](const std::string& n) {
                        write_checkpoint_file(n, vec(2), 0.375);
                        write_checkpoint_file(n, vec(n.size() % 2 + 1), 0.75);
                        return 0;
                    }});
    jobs.push_back({"reading a checkpoint", [](const std::string& n) { std::ofstream s(n + "0.blaze", std::ios::binary); blaze::Archive<std::ofstream> a(s); a << vec(3 + n.size() % 2); },
                    [](const std::string& n) {
                        Vec v;
                        read_checkpoint_file(n + "0.blaze", v);
                        return v == vec(3 + n.size() % 2) ? 0 : 1;
                    }});
    jobs.push_back({"cleaning", [](const std::string& n) { put(n, "# head of " + n + "\n1\t2\n# between\n3\t4\n5\t6\n"); put(n + ".bak", "old backup of " + n); },
                    [](const std::string& n) { clean_output_file(n, 2); return 0; }});
    jobs.push_back({"writing a matrix", [](const std::string& n) { put(n + ".blaze", "old"); },
                    [](const std::string& n) {
                        CMatrix m(2, 2);
                        m(0, 1) = CD(double(n.size()), 1.);
                        write_matrix_file(n + ".blaze", m);
                        return 0;
                    }});
    jobs.push_back({"reading a response file", [](const std::string& n) { put(n + ".rsp", "--number=" + std::to_string(n.size()) + "\n--text=of " + tail(n) + "\n"); },
                    [](const std::string& n) {
                        OptionsDescription d;
                        d.add_options()("number", make_value<int>(1), "")("text", make_value<std::string>("none"), "");
                        VariablesMap vm;
                        read_response_file(n + ".rsp", vm, d);
                        return vm["number"].as<int>() == int(n.size()) && vm["text"].as<std::string>() == "of " + tail(n) ? 0 : 1;
                    }});
    for(auto& x : jobs)
        for(auto& y : jobs) {
            if(&x <= &y) {
                pair(x, y, "a", "bb");
                pair(x, y, "run", "run.b");
            }
        }
    // readers of one file
    pair(jobs[1], jobs[1], "one", "one");
    pair(jobs[4], jobs[4], "one", "one");
    ::rmdir("side");
}
int main(int argc, char** argv)
{
    ::setenv("LOGNAME", "somebody", 1);
    get_loggers().init("/dev/null");
    return mc::run(argc, argv, {{"helpers", helpers}});
}

// Complete runs of the simulation programs, compared with a model of the time evolution.
#ifndef VERIF_SIM_UTIL_HPP
#define VERIF_SIM_UTIL_HPP
#include "sim_model.hpp"

#include <sys/stat.h>
#include <sys/wait.h>

namespace sim
{
    using LD = long double;
    using C  = std::complex<LD>;

    // ---- one run of the program in a process of its own
    struct Run {
        int status = -1;
        std::string text, log, rsp, cout;
        bool has_out = false, has_log = false, has_rsp = false;
        std::vector<std::string> header;
        std::map<std::string, std::vector<std::string>> options;
        std::vector<std::vector<double>> rows;
    };
    inline std::string& dir()
    {
        static std::string d;
        return d;
    }
    inline bool slurp(const std::string& path, std::string& s)
    {
        std::ifstream f(path, std::ios::binary);
        if(!f) return false;
        std::ostringstream o;
        o << f.rdbuf();
        s = o.str();
        return true;
    }
    inline std::string stem(const std::string& out)
    {
        const auto p = out.rfind('.');
        return p == std::string::npos ? out : out.substr(0, p);
    }
    inline void unlink_all(const std::string& out)
    {
        for(auto& x : {out, stem(out) + ".rsp", stem(out) + ".log", stem(out) + "_matrix.blaze", std::string("cout")}) ::unlink(x.c_str());
    }
    inline void parse(Run& r)
    {
        std::istringstream in(r.text);
        std::string l;
        bool data = false;
        MC_CHECK(r.text.empty() || r.text.back() == '\n', "the last line is not complete");
        while(std::getline(in, l)) {
            if(!l.empty() && l[0] == '#') {
                MC_CHECK(!data, "header line after the data: ", l);
                r.header.push_back(l);
                const auto e = l.find(" = ");
                if(l.compare(0, 2, "#\t") == 0 && e != std::string::npos) r.options[l.substr(2, e - 2)].push_back(l.substr(e + 3));
                continue;
            }
            data = true;
            r.rows.emplace_back();
            std::istringstream f(l);
            std::string cell;
            while(std::getline(f, cell, '\t')) {
                char* end = nullptr;
                r.rows.back().push_back(std::strtod(cell.c_str(), &end));
                MC_CHECK(!cell.empty() && *end == 0, "the row '", l, "' has a field that is no number: '", cell, "'");
            }
        }
    }
    inline Run start(const std::vector<std::string>& args, const std::string& out, bool logname = true)
    {
        Run r;
        std::fflush(nullptr);
        const pid_t p = ::fork();
        if(p == 0) {
            ::alarm(120);
            const int null = ::open("/dev/null", O_RDWR), co = ::open("cout", O_CREAT | O_TRUNC | O_WRONLY, 0600);
            ::dup2(null, 0);
            ::dup2(co, 1);
            if(!::getenv("SIM_STDERR")) ::dup2(null, 2);
            if(logname)
                ::setenv("LOGNAME", "somebody", 1);
            else
                ::unsetenv("LOGNAME");
            const int rc = prog::run(args);
            std::cout.flush();
            std::fflush(nullptr);
            ::_exit(rc);
        }
        int st = 0;
        ::waitpid(p, &st, 0);
        r.status  = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
        r.has_out = slurp(out, r.text);
        r.has_log = slurp(stem(out) + ".log", r.log);
        r.has_rsp = slurp(stem(out) + ".rsp", r.rsp);
        slurp("cout", r.cout);
        parse(r);
        MC_COUNT("traces", 1);
        return r;
    }

    // ---- configurations
    struct Config {
        uint64_t nx = 2, ny = 1;
        double J = 1, U = 1, filling = 0.5, kx = 0, ky = 0, dt = 0.125, t_end = 1;
        uint64_t every = 2;
    };
    struct Schedule {
        double dt, t_end;
        uint64_t every;
        bool exact; // times are represented exactly
    };
    inline const std::vector<Schedule>& schedules()
    {
        static const std::vector<Schedule> v{{0.125, 1, 2, true}, {0.25, 1, 1, true}, {0.125, 1, 3, true}, {0.25, 1.1, 1, true}, {0.5, 2, 4, true}, {0.25, 1, 5, true}, {0.125, 0, 1, true}, {0.5, 0.25, 1, true},
                                             {0.01, 0.3, 10, false}, {0.1, 1, 1, false}, {0.1, 0.7, 7, false}, {0.05, 1, 20, false},
                                             // intervals too large for a narrower integer
                                             {0.25, 0.5, 257, true}, {0.25, 0.5, 65537, true}, {0.25, 0.5, (1ull << 32) + 1, true}};
        return v;
    }
    // a program under test
    struct Program {
        std::string name;
        std::vector<std::string> options; // names of the program's options, without out
        std::map<std::string, std::string> defaults;
        std::function<std::vector<liou::Row>(const Config&)> matrix;
        std::function<std::vector<double>(const Config&, const std::vector<C>&)> observe;
        double scale = 1; // size of the values, for values close to zero
    };
    inline std::string text(double x)
    {
        std::ostringstream o;
        o.precision(17);
        o << x;
        return o.str();
    }
    inline std::string option(const Config& c, const std::string& name)
    {
        if(name == "N" || name == "Nx") return std::to_string(c.nx);
        if(name == "Ny") return std::to_string(c.ny);
        if(name == "J") return text(c.J);
        if(name == "U") return text(c.U);
        if(name == "filling_factor") return text(c.filling);
        if(name == "kx") return text(c.kx);
        if(name == "ky") return text(c.ky);
        if(name == "dt") return text(c.dt);
        if(name == "t_end") return text(c.t_end);
        if(name == "measurement_interval") return std::to_string(c.every);
        return "?";
    }
    inline bool near(double got, double want, double scale)
    {
        return std::abs(got - want) <= 6e-6 * std::abs(want) + 1e-9 * scale; // printed with six digits
    }
    inline void rows(const Program& p, const Config& c, bool exact, const Run& r, const std::string& what)
    {
        Evolution e(p.matrix(c), c.dt);
        std::size_t at = 0;
        const LD slack = exact ? 0.L : 1e-6L;
        for(uint64_t k = 0;; ++k) {
            const LD t = (LD)c.dt * k;
            if(k) {
                if(t >= c.t_end + c.dt + c.dt * slack - (exact ? 0 : 1e-12L)) break;
                if(exact && t >= c.t_end + c.dt) break;
                e.step();
            }
            if(k % c.every) continue;
            const bool due = k == 0 || t <= c.t_end + c.dt * slack;
            if(at >= r.rows.size()) {
                MC_CHECK(!due, what, ": no row for t=", (double)t, " after ", r.rows.size(), " rows");
                continue;
            }
            const auto& row = r.rows[at++];
            const auto want = p.observe(c, e.h);
            MC_COUNT("states", 1);
            MC_CHECK(row.size() == want.size() + 1 && near(row[0], double(t), 0.), what, ": row ", at - 1, " has ", row.size(), " fields, t=", row.empty() ? -1. : row[0],
                     " instead of ", want.size() + 1, " and ", (double)t);
            if(row.size() != want.size() + 1) return;
            double scale = p.scale;
            for(auto w : want) scale = std::max(scale, std::abs(w));
            for(std::size_t i = 0; i < want.size(); ++i)
                MC_CHECK(near(row[i + 1], want[i], scale), what, ": value ", i, " at t=", (double)t, " is ", row[i + 1], " expected ", want[i]);
        }
        MC_CHECK(at == r.rows.size(), what, ": ", r.rows.size(), " rows, ", at, " expected");
    }
    inline void header(const Program& p, const Config& c, const std::string& out, const Run& r, const std::string& what)
    {
        MC_CHECK(r.header.size() > 2 && r.header[0].find(p.name) != std::string::npos && r.header[0].find("# program") == 0, what, ": header starts with ", r.header.empty() ? "" : r.header[0]);
        bool exact_name = false;
        if(!r.header.empty()) {
            const auto pos = r.header[0].find(p.name);
            exact_name     = pos != std::string::npos && pos + p.name.size() == r.header[0].size() && r.header[0][pos - 1] == '\t';
        }
        MC_CHECK(exact_name, what, ": the header names another program: ", r.header.empty() ? "" : r.header[0]);
        for(auto& o : p.options) {
            const auto it = r.options.find(o);
            MC_CHECK(it != r.options.end() && it->second.size() == 1, what, ": header has ", it == r.options.end() ? 0 : it->second.size(), " entries for ", o);
            if(it == r.options.end()) continue;
            const double want = std::strtod(option(c, o).c_str(), nullptr), got = std::strtod(it->second[0].c_str(), nullptr);
            MC_CHECK(std::abs(want - got) <= 1e-5 * std::abs(want), what, ": header has ", o, " = ", it->second[0], " instead of ", option(c, o));
        }
        const auto it = r.options.find("out");
        MC_CHECK(it != r.options.end() && it->second == std::vector<std::string>{out}, what, ": header has out = ", it == r.options.end() ? "" : it->second[0], " instead of ", out);
    }
    inline void result(const Program& p, const Config& c, bool exact, const std::string& out, const Run& r, const std::string& what)
    {
        MC_CHECK(r.status == 0, what, ": the program ended with status ", r.status);
        MC_CHECK(r.has_out && r.has_log, what, ": output or log file missing");
        if(r.status || !r.has_out) return;
        header(p, c, out, r, what);
        if(p.observe) rows(p, c, exact, r, what);
    }
    // ---- the log of a run
    inline std::vector<std::string> log_lines(const Run& r)
    {
        std::vector<std::string> v;
        std::istringstream i(r.log);
        std::string l;
        while(std::getline(i, l)) v.push_back(l);
        return v;
    }
    inline bool number(const std::string& s, double& x)
    {
        char* end = nullptr;
        x         = std::strtod(s.c_str(), &end);
        return !s.empty() && *end == 0;
    }
    inline void log(const Program& p, const Config& c, const std::string& out, const Run& r)
    {
        const auto lines = log_lines(r);
        auto settings    = p.options;
        settings.push_back("out");
        for(auto& o : settings) {
            int n = 0, wrong = 0;
            for(auto& l : lines) {
                const auto at = l.find_first_not_of(" \t");
                if(at == std::string::npos || l.compare(at, o.size() + 3, o + " = ")) continue;
                const auto v    = l.substr(at + o.size() + 3);
                const auto want = o == "out" ? out : option(c, o);
                double a, b;
                const bool same = o == "out" ? v == want : number(v, a) && number(want, b) && std::abs(a - b) <= 1e-5 * std::abs(b);
                ++(same ? n : wrong);
            }
            MC_CHECK(n >= 1 && !wrong, "the log has ", n, " records of ", o, " = ", o == "out" ? out : option(c, o), " and ", wrong, " others");
        }
        const auto rows    = p.matrix(c);
        const uint64_t dim = rows.size(), sites = c.nx * c.ny;
        uint64_t elements = 0;
        for(auto& row : rows)
            for(auto& e : row) elements += std::abs(e.second) > 1e-14;
        bool told_sites = false, told_matrix = false, told_dim = false;
        Evolution e(rows, c.dt);
        uint64_t step = 0;
        std::vector<std::pair<double, double>> measured;
        for(auto& l : lines) {
            MC_CHECK(l.find("{}") == std::string::npos, "unfinished record in the log: ", l);
            double a, b;
            auto at = l.find("N = ");
            if(at != std::string::npos && l.find("site", at) != std::string::npos) {
                MC_CHECK(l.compare(at + 4, std::to_string(sites).size() + 1, std::to_string(sites) + " ") == 0, "number of sites in the log: ", l);
                told_sites = true;
            }
            at = l.find(" dimensional");
            if(at != std::string::npos) {
                const auto from = l.find_last_of(' ', at - 1);
                MC_CHECK(l.substr(from + 1, at - from - 1) == std::to_string(dim), "size of the vector in the log: ", l);
                told_dim = true;
            }
            at = l.find(" out of ");
            if(at != std::string::npos) {
                const auto from = l.find_last_of(' ', at - 1) + 1, to = at + 8, stop = l.find(' ', to), open = l.find('('), close = l.find('%');
                MC_CHECK(l.substr(from, at - from) == std::to_string(elements) && l.substr(to, stop - to) == std::to_string(dim * dim), "elements of the matrix in the log: ", l, " instead of ",
                         elements, " out of ", dim * dim);
                const double want = 100. * double(elements) / double(dim * dim);
                MC_CHECK(open != std::string::npos && close != std::string::npos && number(l.substr(open + 1, close - open - 1), a) && std::abs(a - want) <= 6e-6 * want + 6e-6,
                         "filling of the matrix in the log: ", l, " instead of ", want);
                told_matrix = true;
            }
            // integration steps
            at = l.find(" -> ");
            if(at != std::string::npos && l.find("t=") != std::string::npos && l.find(".txt") == std::string::npos) {
                const auto from = l.rfind("t=", at), to = l.find("t=", at);
                const bool ok = from != std::string::npos && to != std::string::npos && number(l.substr(from + 2, at - from - 2), a) && number(l.substr(to + 2), b);
                MC_CHECK(ok && near(a, c.dt * double(step), 0.1) && near(b, c.dt * double(step + 1), 0.1), "step ", step, " in the log: ", l);
                e.step();
                ++step;
            }
            // values: "...(time) = value"
            at = l.find(") = ");
            if(at != std::string::npos) {
                const auto from = l.rfind('(', at);
                if(from != std::string::npos && number(l.substr(from + 1, at - from - 1), a) && number(l.substr(at + 4), b)) {
                    MC_CHECK(near(a, c.dt * double(step), 0.1), "after ", step, " steps the log has a measurement at ", a);
                    measured.push_back({a, b});
                } else
                    MC_CHECK(false, "no value in the log: ", l);
            }
            at = l.find("h[0] = (");
            if(at != std::string::npos) {
                const auto comma = l.find(',', at), close = l.find(')', at);
                const bool ok = comma != std::string::npos && close != std::string::npos && number(l.substr(at + 8, comma - at - 8), a) && number(l.substr(comma + 1, close - comma - 1), b);
                MC_CHECK(ok && near(a, double(e.h[0].real()), 1.) && near(b, double(e.h[0].imag()), 1.), "coefficient in the log: ", l, " expected ", std::complex<double>(e.h[0]));
            }
        }
        MC_CHECK(told_sites && told_dim && told_matrix, "the log tells ", told_sites ? "" : "no number of sites ", told_dim ? "" : "no size of the vector ", told_matrix ? "" : "nothing about the matrix");
        const LD end = (LD)c.dt * step;
        MC_CHECK(end >= c.t_end - 1e-9 * (1 + c.t_end) && (step == 0 || end - c.dt < c.t_end + 1e-9), "the log has ", step, " steps up to ", c.t_end);
        if(p.observe(c, e.h).size() == 1) {
            MC_CHECK(measured.size() == r.rows.size(), "the log has ", measured.size(), " measurements, the output ", r.rows.size());
            for(std::size_t i = 0; i < std::min(measured.size(), r.rows.size()); ++i)
                MC_CHECK(r.rows[i].size() == 2 && near(measured[i].first, r.rows[i][0], 0.) && near(measured[i].second, r.rows[i][1], p.scale), "measurement ", i, " is ", measured[i].second, " at ",
                         measured[i].first, " in the log and ", mc::str(r.rows[i]), " in the output");
        } else
            MC_CHECK(measured.empty(), "measurements in the log of a program that writes coefficients");
        MC_COUNT("states", lines.size());
    }
    inline void one_log(const Program& p, const Config& c, bool named)
    {
        std::string key = mc::str(p.name, named ? " --out" : "");
        for(auto& o : p.options) key += " " + o + "=" + option(c, o);
        MC_CASE("log of ", key)
        {
            mc::distinct(mc::hash_str(key));
            const std::string out = named ? "result.v1.txt" : p.name + ".txt";
            std::vector<std::string> args;
            for(auto& o : p.options) args.push_back("--" + o + "=" + option(c, o));
            if(named) args.push_back("--out=" + out);
            unlink_all(out);
            const auto r = start(args, out);
            MC_CHECK(r.status == 0 && r.has_out && r.has_log, "status ", r.status);
            log(p, c, out, r);
            unlink_all(out);
        }
    }
    inline std::string data_of(const Run& r)
    {
        std::string s;
        for(auto& x : r.rows)
            for(auto& v : x) s += text(v) + ' ';
        return s;
    }
    // ways 0: joined, 1: separate arguments, 2: response file, 3: alternating, 4: as 2 without LOGNAME,
    // 5: run again with the response file that the program wrote
    inline void one(const Program& p, const Config& c, bool exact, int way, bool named, const std::vector<std::string>& omit = {})
    {
        std::string key = mc::str(p.name, " way ", way, named ? " --out" : "");
        for(auto& o : p.options)
            if(std::find(omit.begin(), omit.end(), o) == omit.end()) key += " " + o + "=" + option(c, o);
        MC_CASE(key)
        {
            mc::distinct(mc::hash_str(key));
            const std::string out = named ? "result.v1.txt" : p.name + ".txt";
            std::vector<std::string> args;
            std::string file;
            int k = 0;
            auto add = [&](const std::string& o, const std::string& v) {
                const bool in_file = way == 2 || way == 4 || (way == 3 && k++ % 2 == 0);
                if(in_file)
                    file += "--" + o + "=" + v + "\n";
                else if(way == 1 && v[0] != '-') {
                    args.push_back("--" + o);
                    args.push_back(v);
                } else
                    args.push_back("--" + o + "=" + v);
            };
            for(auto& o : p.options)
                if(std::find(omit.begin(), omit.end(), o) == omit.end()) add(o, option(c, o));
            if(named) add("out", out);
            if(!file.empty()) {
                std::ofstream("given.rsp") << file;
                args.push_back("--response_file=given.rsp");
            }
            unlink_all(out);
            const auto r = start(args, out, way != 4);
            result(p, c, exact, out, r, "run");
            MC_CHECK(r.has_rsp == file.empty(), r.has_rsp ? "wrote a response file although one was given" : "wrote no response file");
            if(way == 5 && r.has_rsp) {
                ::rename((stem(out) + ".rsp").c_str(), "given.rsp");
                const auto again = start({"--response_file=given.rsp"}, out, false);
                result(p, c, exact, out, again, "run from the written response file");
                MC_CHECK(data_of(again) == data_of(r), "the run from the written response file differs");
            }
            ::unlink("given.rsp");
            unlink_all(out);
        }
    }
    inline void help(const Program& p)
    {
        for(std::string o : {"--help", "--version"})
            MC_CASE(p.name, ' ', o)
            {
                mc::distinct(mc::hash_str(p.name + o));
                unlink_all(p.name + ".txt");
                const auto r = start({o}, p.name + ".txt");
                MC_CHECK(!r.has_out && !r.has_log && !r.has_rsp, o, " writes files");
                MC_CHECK(r.cout.find(p.name) != std::string::npos, o, " does not print the program's name: ", r.cout.substr(0, 200));
                if(o == "--help")
                    for(auto& x : p.options) MC_CHECK(r.cout.find("--" + x) != std::string::npos, "no help on ", x);
                unlink_all(p.name + ".txt");
            }
    }
    // explorer: runs in a scratch directory of its own
    inline int explore(int argc, char** argv, const std::vector<std::pair<std::string, std::function<void()>>>& parts)
    {
        std::vector<std::pair<std::string, std::function<void()>>> p;
        for(auto& x : parts) {
            auto f = x.second;
            p.push_back({x.first, [f] {
                             char d[] = "/tmp/verif-sim-XXXXXX";
                             char old[4096];
                             if(!::getcwd(old, sizeof old) || !::mkdtemp(d) || ::chdir(d)) std::abort();
                             f();
                             if(::chdir(old)) std::abort();
                             ::rmdir(d);
                         }});
        }
        return mc::run(argc, argv, {p.begin(), p.end()});
    }
} // namespace sim
#endif

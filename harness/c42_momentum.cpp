// C42: the momentum space program.
#include "prog.hpp"
#include "src/hubbard/hubbard_momentum_1d_rk4.cpp"
#include "sim_util.hpp"
#include "sea_util.hpp"

using sim::C;
using sim::Config;

double energy(const Config& c, uint64_t k) { return sim::energy(c.nx, c.J, k); }
std::vector<liou::Row> matrix(const Config& c) { return sim::momentum(c.nx, c.nx / 2, c.J, c.U); }
struct Part {
    double weight;
    bas::Word w;
};
double number(const Config& c, const std::vector<C>& h)
{
    static std::map<std::string, std::vector<std::tuple<uint64_t, uint64_t, double>>> cache;
    const uint64_t n = c.nx, q = n / 2;
    auto& t = cache[mc::str(n, '/', c.J > 0)];
    if(t.empty()) {
        std::vector<std::vector<Part>> v{{{1., {{true, q, true}}}}};
        for(uint64_t a = 0; a < n; ++a)
            for(uint64_t b = 0; b < n; ++b) {
                const uint64_t d = (a + b + n - q) % n;
                std::vector<Part> p{{2., {{true, a, true}, {true, b, false}, {false, d, false}}}};
                if(b == d) p.push_back({1., {{true, a, true}}});
                v.push_back(p);
            }
        uint64_t ground = 0;
        for(uint64_t k = 0; k < n; ++k)
            if(energy(c, k) < 0) ground |= sea::bit(k, true) | sea::bit(k, false);
        for(uint64_t i = 0; i < v.size(); ++i)
            for(uint64_t j = 0; j < v.size(); ++j) {
                double value = 0;
                for(auto& a : v[i])
                    for(auto& b : v[j]) {
                        uint64_t s = ground;
                        if(sea::apply(bas::dagger(b.w), s) && sea::apply(a.w, s) && s == ground) value += a.weight * b.weight;
                    }
                if(value != 0) t.emplace_back(i, j, value);
            }
        t.emplace_back(0, 0, 0.);
    }
    C s = 0;
    for(auto& e : t) s += (long double)std::get<2>(e) * h[std::get<0>(e)] * std::conj(h[std::get<1>(e)]);
    return double(s.real());
}

void one(const Config& c, int way)
{
    const std::string key = mc::str("N=", c.nx, " J=", c.J, " U=", c.U, " dt=", c.dt, " way ", way);
    MC_CASE(key)
    {
        mc::distinct(mc::hash_str(key));
        sim::Program p;
        p.name    = "hubbard_momentum_1d_rk4";
        p.options = {"N", "J", "U", "dt"};
        const std::string out = way == 1 ? p.name + ".txt" : "momentum.dat";
        std::vector<std::string> args;
        std::string file;
        for(auto& o : p.options) {
            const auto s = "--" + o + "=" + sim::option(c, o);
            if(way == 2)
                file += s + "\n";
            else
                args.push_back(s);
        }
        if(way != 1) args.push_back("--out=" + out);
        if(way == 2) {
            std::ofstream("given.rsp") << file;
            args.push_back("--response_file=given.rsp");
        }
        sim::unlink_all(out);
        const auto r = sim::start(args, out, way != 2);
        sim::result(p, c, true, out, r, "run");
        MC_CHECK(r.rows.empty(), "rows in the output file");
        // the particle number before and after eight steps
        sim::Evolution e(matrix(c), c.dt);
        const double first = number(c, e.h);
        for(int i = 0; i < 8; ++i) e.step();
        const double last = number(c, e.h);
        MC_COUNT("states", 2);
        std::istringstream in(r.cout);
        double a = -1, b = -1, more;
        in >> a >> b;
        MC_CHECK(in && !(in >> more), "printed ", r.cout);
        MC_CHECK(sim::near(a, first, 1.), "particle number at the start is ", a, " expected ", first);
        MC_CHECK(sim::near(b, last, 1.), "particle number after eight steps is ", b, " expected ", last);
        // the matrix file holds the matrix of the equations of motion
        std::string m;
        MC_CHECK(sim::slurp(sim::stem(out) + "_matrix.blaze", m), "no matrix file");
        const auto want = matrix(c);
        auto u = [&](std::size_t i) {
            uint64_t x = 0;
            if(8 * i + 8 <= m.size()) std::memcpy(&x, &m[8 * i], 8);
            return x;
        };
        auto f = [&](std::size_t i) {
            double x = 0;
            if(8 * i + 8 <= m.size()) std::memcpy(&x, &m[8 * i], 8);
            return x;
        };
        const uint64_t nnz = u(3);
        MC_CHECK(u(1) == want.size() && u(2) == want.size() && m.size() == 32 + nnz * 32, "matrix file of ", m.size(), " bytes: ", u(1), 'x', u(2), ", ", nnz, " elements");
        if(m.size() == 32 + nnz * 32) {
            std::vector<std::map<uint64_t, double>> got(want.size());
            for(uint64_t k = 0; k < nnz; ++k) {
                MC_CHECK(f(4 + 4 * k + 2) == 0., "matrix element with real part ", f(4 + 4 * k + 2));
                if(u(4 + 4 * k) < got.size()) got[u(4 + 4 * k)][u(4 + 4 * k + 1)] += f(4 + 4 * k + 3);
            }
            for(uint64_t i = 0; i < want.size(); ++i)
                for(uint64_t j = 0; j < want.size(); ++j) {
                    const auto w = want[i].find(j);
                    const auto g = got[i].find(j);
                    const double x = w == want[i].end() ? 0. : w->second, y = g == got[i].end() ? 0. : g->second;
                    MC_CHECK(std::abs(x - y) <= 1e-12 * (1 + std::abs(c.J) + std::abs(c.U)), "matrix file element ", i, ',', j, " is ", y, " expected ", x);
                }
        }
        ::unlink("given.rsp");
        sim::unlink_all(out);
    }
}
void runs()
{
    for(uint64_t n = 1; n <= mc::pick(11, 15); ++n) {
        if(n % 4 == 0) continue; // a momentum on the Fermi surface: rounding decides its occupation
        for(auto& j : real::couplings())
            for(double dt : {0.125, 0.01})
                for(int way = 0; way < 3; ++way) {
                    if(j.first == 0.) continue;
                    Config c;
                    c.nx = n;
                    c.J  = j.first;
                    c.U  = j.second;
                    c.dt = dt;
                    one(c, way);
                }
    }
    sim::Program p;
    p.name    = "hubbard_momentum_1d_rk4";
    p.options = {"N", "J", "U", "dt", "t_end", "measurement_interval"};
    sim::help(p);
}
int prog::explorer(int argc, char** argv)
{
    return sim::explore(argc, argv, {{"runs", runs}});
}

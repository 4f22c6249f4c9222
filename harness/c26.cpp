// C26: one Runge-Kutta step against the Taylor polynomial of the flow.
#include "ode_util.hpp"

using namespace ode;
using ieompp::ode::RK4;

const std::vector<double> steps{1., 0.5, -0.25, 0.01};

template <typename S, typename M>
void one(const M& m, const Model& model, double h, const std::vector<LC>& u, const std::vector<LC>& want, const std::vector<double>& size, const char* kind)
{
    const RK4<double> rk(model.n, h);
    auto v = vec<S>(u);
    rk.step(m, v);
    MC_COUNT("traces", 1);
    MC_CHECK(excess(v, want, size) <= 1, kind, " step of ", h, ": off by ", distance(v, want), ", ", excess(v, want, size), " times the rounding error");
    MC_CHECK(rk.step_size() == h && rk.dimension() == model.n, "step size or dimension of the integrator");
}
template <typename S>
void kinds(const Model& m, double h, const std::vector<LC>& u)
{
    double scale    = 0;
    const auto want = taylor(m, h, u, scale);
    const auto size = sizes(m, h, u, 4);
    const auto d  = dense<S>(m), d0 = d;
    const auto s  = sparse<S>(m), s0 = s;
    const auto f  = function<S>(m);
    one<S>(d, m, h, u, want, size, "dense");
    one<S>(s, m, h, u, want, size, "sparse");
    one<S>(f, m, h, u, want, size, "function");
    MC_CHECK(same(d, d0) && same(s, s0), "the matrix was changed");
    // the product itself
    auto v = vec<S>(u), w = vec<S>(u);
    ieompp::types::multiply_assign(f, v);
    ieompp::types::multiply_assign(d, w);
    const auto p = m.times(u);
    const auto psize = sizes(m, h, u, 0);
    MC_CHECK(excess(v, p, psize) <= 1 && excess(w, p, psize) <= 1, "matrix times vector");
}

template <typename S>
void all(uint64_t n, const std::vector<C>& letters, const std::string& what, const std::vector<double>& hs)
{
    uint64_t count = 1;
    for(uint64_t i = 0; i < n * n; ++i) count *= letters.size();
    for(uint64_t x = 0; x < count; ++x)
        MC_CASE(what, ' ', n, 'x', n, " matrix ", x)
        {
            mc::distinct(mc::hash_str(mc::str(what, n, '/', x)));
            Model m{n, {}};
            uint64_t r = x;
            for(uint64_t i = 0; i < n * n; ++i) {
                m.a.push_back(letters[r % letters.size()]);
                r /= letters.size();
            }
            for(double h : hs) {
                for(uint64_t k = 0; k < n; ++k) {
                    std::vector<LC> u(n);
                    u[k] = 1;
                    kinds<S>(m, h, u);
                }
                std::vector<LC> u;
                for(uint64_t k = 0; k < n; ++k) u.push_back(std::is_same<S, double>::value ? LC(1. + 2. * k) : LC(1. - 2. * k, 0.5 + k));
                kinds<S>(m, h, u);
            }
        }
}
void real_small()
{
    all<double>(1, {0, 1, -1, 2, 0.5, -3}, "real", steps);
    all<double>(2, {0, 1, -1, 2, -0.5}, "real", steps);
}
void complex_small()
{
    all<C>(1, {C(0, 0), C(1, 0), C(0, 1), C(-2, 1)}, "complex", steps);
    all<C>(2, {C(0, 0), C(1, 0), C(0, 1), C(-1, 2)}, "complex", steps);
}
void three()
{
    all<C>(3, {C(0, 0), C(1, 0), C(0, -1)}, "complex", {0.5});
    all<C>(3, {C(0, 0), C(1, -1)}, "complex", {0.5, -1.});
    if(mc::thorough()) all<C>(3, {C(0, 0), C(1, 0), C(0, -1), C(2, 1)}, "complex", {0.25});
}
// elements, steps and states of very different sizes
void tiny()
{
    const double e = std::ldexp(1., -45), b = std::ldexp(1., 30);
    all<double>(1, {e, -e, b}, "real tiny", {1., e, -e, 1e-9});
    all<double>(2, {0, 1, e, -b}, "real tiny", {1., e});
    all<C>(2, {C(0, 0), C(0, e), C(-1, e)}, "complex tiny", {0.5, -e});
    for(int p : {-900, -300, -60, -30, 60, 200})
        for(uint64_t n : {1, 2, 5, 20})
            for(int kind = 0; kind < 3; ++kind)
                MC_CASE("states times 2^", p, ", dimension ", n, ", kind ", kind)
                {
                    mc::distinct(mc::hash_str(mc::str("t", p, '/', n, '/', kind)));
                    Model m{n, {}};
                    for(uint64_t a = 0; a < n * n; ++a) {
                        m.a.push_back(C(double((a * a + 3 * a) % 5) - 2, double((2 * a + 1) % 3) - 1));
                        if(kind == 1 && a % 3) m.a.back() *= e;
                        if(kind == 2) m.a.back() *= std::ldexp(1., int(a % 5) * 10 - 40);
                    }
                    std::vector<LC> u;
                    for(uint64_t k = 0; k < n; ++k) u.push_back(LC(std::ldexp(double(k % 4) - 1.5, p), std::ldexp(double(k % 3) - 1., p)));
                    for(double h : {0.5, -0.25, 1e-7}) kinds<C>(m, h, u);
                    for(auto& x : m.a) x = x.real();
                    for(auto& x : u) x = x.real();
                    for(double h : {0.5, -0.25, 1e-7}) kinds<double>(m, h, u);
                }
}
// single elements and structured matrices of larger dimensions
void larger()
{
    for(uint64_t n = 4; n <= mc::pick(20, 28); ++n) {
        for(uint64_t a = 0; a < n * n; ++a)
            MC_CASE("dimension ", n, " element ", a)
            {
                mc::distinct(mc::hash_str(mc::str("e", n, '/', a)));
                Model m{n, std::vector<C>(n * n)};
                m.a[a] = C(1, 2);
                for(uint64_t k = 0; k < n; ++k) m.a[k * n + (k + 1) % n] += C(0, -1);
                std::vector<LC> u;
                for(uint64_t k = 0; k < n; ++k) u.push_back(LC(1. - 2. * k, 0.5 + k));
                kinds<C>(m, 0.25, u);
            }
        for(uint64_t s = 0; s < 8; ++s)
            MC_CASE("dimension ", n, " full matrix ", s)
            {
                mc::distinct(mc::hash_str(mc::str("f", n, '/', s)));
                Model m{n, {}};
                for(uint64_t a = 0; a < n * n; ++a) m.a.push_back(C(double((a * a * (s + 1) + a) % 5) - 2, double((a * (s + 2) + 1) % 3) - 1));
                for(uint64_t k = 0; k < n; ++k) {
                    std::vector<LC> u(n);
                    u[k] = LC(1, s % 2);
                    u[(k + s) % n] += LC(0, 1);
                    for(double h : steps) kinds<C>(m, h, u);
                }
            }
    }
}
// dimensions around and beyond powers of two, full and banded, after a step in another dimension
void large()
{
    std::vector<uint64_t> sizes{15, 16, 17, 31, 33, 64, 65, 100, 130, 257};
    if(mc::thorough()) sizes.insert(sizes.end(), {128, 256, 300, 513});
    for(auto n : sizes)
        for(int kind = 0; kind < 4; ++kind)
            MC_CASE("dimension ", n, " matrix of kind ", kind)
            {
                mc::distinct(mc::hash_str(mc::str("l", n, '/', kind)));
                Model m{n, std::vector<C>(n * n)}, before{3, {1, 2, 0, C(0, 1), 1, 1, 2, 0, C(1, 1)}};
                for(uint64_t i = 0; i < n; ++i)
                    for(uint64_t j = 0; j < n; ++j) {
                        auto& x = m.a[i * n + j];
                        if(kind == 0) x = C(double((i * i + 3 * j + i * j) % 5) - 2, double((2 * i + j * j) % 3) - 1) / 64.;
                        if(kind == 1 && (j + 1 == i || j == i + 1 || j + n == i + 1 || i + n == j + 1)) x = C(-1, 0);
                        if(kind == 2 && i == j) x = C(double(i % 7) - 3, double(i % 4));
                        if(kind == 3 && (i == 0 || j + 1 == n)) x = C(double((i + j) % 3) - 1, 1) / 16.;
                    }
                std::vector<LC> u;
                for(uint64_t k = 0; k < n; ++k) u.push_back(LC(double((k * k + 1) % 7) - 3, double(k % 5) - 2));
                kinds<C>(before, 0.25, {1, LC(0, 2), -1});
                kinds<C>(m, 0.25, u);
                kinds<C>(before, 0.25, {1, LC(0, 2), -1});
                if(kind == 1) {
                    for(auto& x : u) x = x.real();
                    kinds<double>(m, 0.25, u);
                }
            }
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"real_small", real_small}, {"complex_small", complex_small}, {"three", three}, {"tiny", tiny}, {"larger", larger}, {"large", large}});
}

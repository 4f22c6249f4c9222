// Model of the equations of motion and of the observables of the simulation programs.
#ifndef VERIF_SIM_MODEL_HPP
#define VERIF_SIM_MODEL_HPP
#include "real_util.hpp"
#include "wick_util.hpp"
#include "lattice_util.hpp"

namespace sim
{
    using LD = long double;
    using C  = std::complex<LD>;

    // ---- model of the time evolution: sparse rows, fourth-order Taylor steps
    struct Evolution {
        std::vector<std::vector<std::pair<uint64_t, double>>> rows; // Liouvillian
        LD dt;
        std::vector<C> h;
        Evolution(const std::vector<liou::Row>& r, LD dt_) : dt(dt_), h(r.size())
        {
            for(auto& x : r) rows.emplace_back(x.begin(), x.end());
            h[0] = 1;
        }
        void step()
        {
            std::vector<C> t(h), u(h.size());
            for(int k = 1; k <= 4; ++k) {
                for(uint64_t i = 0; i < h.size(); ++i) {
                    C s = 0;
                    for(auto& e : rows[i]) s += (LD)e.second * t[e.first];
                    u[i] = C(0, 1) * s * (dt / k);
                }
                t.swap(u);
                for(uint64_t i = 0; i < h.size(); ++i) h[i] += t[i];
            }
            MC_COUNT("transitions", 1);
        }
    };
    template <typename L>
    std::vector<liou::Row> basis1(const L& l, double J)
    {
        std::vector<liou::Row> r(l.size());
        for(uint64_t i = 0; i < l.size(); ++i)
            for(auto j : real::neighbors(l, i)) r[i][j] -= J;
        return r;
    }
    template <typename L>
    std::vector<liou::Row> basis3(const L& l, double J, double U)
    {
        const uint64_t n = l.size();
        std::vector<liou::Row> m(n + n * n * n);
        for(uint64_t row = 0; row < m.size(); ++row) {
            auto& r = m[row];
            if(row < n) {
                for(auto j : real::neighbors(l, row)) r[j] -= J;
                r[row] += U / 2;
                r[real::index3(n, row, row, row)] += U / 2;
                continue;
            }
            const uint64_t k = row - n, a = k / (n * n), b = k / n % n, c = k % n;
            for(auto j : real::neighbors(l, a)) r[real::index3(n, j, b, c)] -= J;
            for(auto j : real::neighbors(l, b)) r[real::index3(n, a, j, c)] -= J;
            for(auto j : real::neighbors(l, c)) r[real::index3(n, a, b, j)] += J;
            r[row] += U / 2;
            if(a == b && b == c) r[a] += U / 2;
        }
        return m;
    }
    // one-particle expectation values
    inline wick::Table chain_table(uint64_t n, double filling)
    {
        wick::Table t{n, std::vector<double>(n * n)};
        for(uint64_t a = 0; a < n; ++a)
            for(uint64_t b = 0; b < n; ++b) {
                const LD d     = lat::ring(a, b, n);
                t.v[a * n + b] = d ? double(std::sin(lat::pi * filling * d) / (lat::pi * d)) : filling;
            }
        return t;
    }
    inline wick::Table square_table(uint64_t nx, uint64_t ny)
    {
        const real::Square l(nx, ny, 1., 1.);
        const uint64_t n = nx * ny;
        wick::Table t{n, std::vector<double>(n * n)};
        auto s = [](uint64_t k) { return (k % 2 == 0) ? 0.L : (k % 4 == 1 ? 1.L : -1.L); }; // sin(k pi / 2)
        for(uint64_t a = 0; a < n; ++a)
            for(uint64_t b = 0; b < n; ++b) {
                const auto x = lat::ring(l.x_index(a), l.x_index(b), nx), y = lat::ring(l.y_index(a), l.y_index(b), ny);
                const auto sum = x + y, diff = x > y ? x - y : y - x;
                LD v = 0.5L;
                if(sum) v = diff ? s(sum) / sum * s(diff) / diff * 2 / (lat::pi * lat::pi) : s(sum) / sum / lat::pi;
                t.v[a * n + b] = double(v);
            }
        return t;
    }
    // <n_0>: quadratic form of the contractions, cached
    inline double occupation(const std::vector<C>& h, const std::string& key, const wick::Table& t, const std::vector<wick::Sum>& b)
    {
        static std::map<std::string, std::vector<double>> cache;
        auto& p = cache[key];
        if(p.empty())
            for(auto& x : b)
                for(auto& y : b) p.push_back(wick::pair(t, x, y));
        C s = 0;
        for(uint64_t i = 0; i < h.size(); ++i)
            for(uint64_t j = 0; j < h.size(); ++j) s += h[i] * std::conj(h[j]) * (LD)p[i * h.size() + j];
        return double(s.real());
    }
    template <typename Phase>
    double jump(const std::vector<C>& h, const wick::Table& t, const Phase& phase)
    {
        const uint64_t n = t.n;
        C s = 0;
        for(uint64_t i = 0; i < n; ++i) {
            C x = h[i];
            for(uint64_t j = 0; j < n; ++j)
                for(uint64_t k = 0; k < n; ++k) x += h[n + n * n * i + n * j + k] * (2.L * t(j, k) - (j == k ? 1.L : 0.L));
            s += std::polar(1.L, (LD)phase(i)) * x;
        }
        return double(std::norm(s));
    }
    // momentum space, single creator of momentum q
    inline double energy(uint64_t n, double J, uint64_t k) { return double(-2 * (LD)J * std::cos(-lat::pi + 2 * lat::pi * k / n)); }
    inline std::vector<liou::Row> momentum(uint64_t n, uint64_t q, double J, double U)
    {
        std::vector<liou::Row> m(n * n + 1);
        m[0][0] = energy(n, J, q) + U / 2;
        for(uint64_t a = 0; a < n; ++a)
            for(uint64_t b = 0; b < n; ++b) {
                const uint64_t row = 1 + a * n + b, d = (a + b + n - q) % n;
                m[row][row] = energy(n, J, a) + energy(n, J, b) - energy(n, J, d) + U / 2;
                m[row][0] = m[0][row] = U / (2. * n);
            }
        return m;
    }
} // namespace sim
#endif

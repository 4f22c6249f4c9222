// Symmetric tables of one-particle expectation values and full Wick contractions.
#ifndef VERIF_WICK_UTIL_HPP
#define VERIF_WICK_UTIL_HPP
#include "basis_util.hpp"

namespace wick
{
    using bas::Op;
    using bas::Word;

    struct Table { // n(a,b) = <c+_a c_b> for either spin
        uint64_t n;
        std::vector<double> v;
        double operator()(uint64_t a, uint64_t b) const { return v[a * n + b]; }
    };
    // dyadic values, so that sums are exact; from 100 on tables of the same kind without that property
    inline Table table(uint64_t n, int which)
    {
        if(which >= 200) { // weak correlations
            Table t = table(n, which - 200);
            for(uint64_t i = 0; i < n * n; ++i) t.v[i] = i % (n + 1) == 0 ? 0.5 : std::ldexp(t.v[i], -30);
            return t;
        }
        if(which >= 100) {
            Table t = table(n, which - 100);
            for(auto& x : t.v) x = x * 0.9 + 1. / 300;
            return t;
        }
        Table t{n, std::vector<double>(n * n)};
        for(uint64_t a = 0; a < n; ++a)
            for(uint64_t b = a; b < n; ++b) {
                double x;
                if(which == 0) // half filling without correlations
                    x = a == b ? 0.5 : 0.;
                else if(which == 1)
                    x = double((5 * a * b + 3 * (a + b) + 1) % 8) / 8. - (a == b ? 0. : 0.375);
                else if(which == 2) // different on every diagonal element
                    x = a == b ? double((a + 1) % 4) / 4. : double((7 * a + 5 * b + a * b) % 16) / 16. - 0.4375;
                else
                    x = double((a * a + b * b + which) % 4) / 4. - 0.25;
                t.v[a * n + b] = t.v[b * n + a] = x;
            }
        return t;
    }

    inline double contraction(const Table& n, const Op& x, const Op& y)
    {
        if(x.up != y.up || x.creator == y.creator) return 0.;
        if(x.creator) return n(x.index, y.index);
        return (x.index == y.index ? 1. : 0.) - n(y.index, x.index);
    }
    // sum over all complete contractions
    inline double full(const Table& n, const Word& w)
    {
        MC_COUNT("transitions", 1);
        if(w.empty()) return 1.;
        if(w.size() % 2) return 0.;
        double s = 0;
        for(std::size_t j = 1; j < w.size(); ++j) {
            const double c = contraction(n, w[0], w[j]);
            if(c == 0.) continue;
            Word r;
            for(std::size_t k = 1; k < w.size(); ++k)
                if(k != j) r.push_back(w[k]);
            s += (j % 2 ? c : -c) * full(n, r);
        }
        return s;
    }
    struct Term {
        double c;
        Word w;
    };
    using Sum = std::vector<Term>;
    // basis element with its normal ordering at infinite temperature
    inline std::vector<Sum> basis1(uint64_t n)
    {
        std::vector<Sum> r;
        for(uint64_t i = 0; i < n; ++i) r.push_back({{1., {{true, i, true}}}});
        return r;
    }
    inline std::vector<Sum> basis3(uint64_t n)
    {
        auto r = basis1(n);
        for(uint64_t a = 0; a < n; ++a)
            for(uint64_t b = 0; b < n; ++b)
                for(uint64_t c = 0; c < n; ++c) {
                    Sum s{{2., {{true, a, true}, {true, b, false}, {false, c, false}}}};
                    if(b == c) s.push_back({-1., {{true, a, true}}});
                    r.push_back(s);
                }
        return r;
    }
    inline double pair(const Table& n, const Sum& a, const Sum& b)
    {
        double v = 0;
        for(auto& x : a)
            for(auto& y : b) {
                Word w(x.w);
                const auto d = bas::dagger(y.w);
                w.insert(w.end(), d.begin(), d.end());
                v += x.c * y.c * full(n, w);
            }
        MC_COUNT("states", 1);
        return v;
    }
} // namespace wick
#endif

// Many-body model of a Hubbard Liouvillian: operators as lists of weighted words over Fock modes, overlaps by
// exhaustive application to every Fock basis state.
#ifndef VERIF_LIOU_UTIL_HPP
#define VERIF_LIOU_UTIL_HPP
#include "basis_util.hpp"
#include "fock.hpp"

#include <map>

namespace liou
{
    struct WTerm {
        double c;
        fock::Word w;
    };
    using Sum = std::vector<WTerm>;

    inline int mode(uint64_t i, bool up) { return int(2 * i + (up ? 1 : 0)); }
    inline fock::Word to_fock(const bas::Word& w)
    {
        fock::Word r;
        for(auto& o : w) r.push_back({o.creator, mode(o.index, o.up)});
        return r;
    }

    using State = std::map<uint32_t, double>;
    inline void apply(const Sum& s, uint32_t in, double c, State& out)
    {
        for(auto& t : s) {
            uint32_t x     = in;
            const int sign = fock::apply(t.w, x);
            MC_COUNT("transitions", 1);
            if(sign) out[x] += c * sign * t.c;
        }
    }
    // [H, A] applied to a basis state
    inline State commutator(const Sum& H, const Sum& A, uint32_t in)
    {
        State r, a, h;
        apply(A, in, 1., a);
        for(auto& x : a) apply(H, x.first, x.second, r);
        apply(H, in, 1., h);
        for(auto& x : h) apply(A, x.first, -x.second, r);
        return r;
    }
    // overlaps 2 tr(B_j^dagger [H, A]) / dim for all j
    inline std::vector<double> overlaps(const Sum& H, const Sum& A, const std::vector<Sum>& B, int modes)
    {
        std::vector<double> r(B.size(), 0.);
        for(uint32_t in = 0; in < (1u << modes); ++in) {
            const auto c = commutator(H, A, in);
            MC_COUNT("states", 1);
            if(c.empty()) continue;
            for(std::size_t j = 0; j < B.size(); ++j) {
                State b;
                apply(B[j], in, 1., b);
                for(auto& x : b) {
                    auto it = c.find(x.first);
                    if(it != c.end()) r[j] += x.second * it->second;
                }
            }
        }
        for(auto& x : r) x *= 2. / double(1u << modes);
        return r;
    }

    // rows of a compressed matrix exactly as stored
    template <typename M>
    std::vector<std::vector<std::pair<uint64_t, std::complex<double>>>> rows(const M& m)
    {
        std::vector<std::vector<std::pair<uint64_t, std::complex<double>>>> r(m.rows());
        for(std::size_t i = 0; i < m.rows(); ++i)
            for(auto it = m.begin(i); it != m.end(i); ++it)
                r[i].push_back({it->index(), std::complex<double>(it->value())});
        return r;
    }

    using Row = std::map<uint64_t, double>;

    // compare one stored row with its expected elements: sorted, one element per column
    template <typename R>
    void compare(const R& got, const Row& want, double tol, uint64_t row, const std::string& what)
    {
        static uint64_t& n = mc::counter("checks");
        ++n;
        uint64_t last = 0;
        bool first    = true;
        Row g;
        for(auto& e : got) {
            if(!first && e.first <= last) {
                mc::violate("", mc::str(what, " row ", row, ": column ", e.first, " stored after column ", last));
                return;
            }
            first = false;
            last  = e.first;
            if(!(std::abs(e.second.imag()) <= tol)) {
                mc::violate("", mc::str(what, " element (", row, ',', e.first, ") is complex: ", e.second));
                return;
            }
            g[e.first] = e.second.real();
        }
        for(auto& e : want) {
            const auto it  = g.find(e.first);
            const double v = it == g.end() ? 0. : it->second;
            if(!(std::abs(v - e.second) <= tol)) {
                mc::violate("", mc::str(what, " element (", row, ',', e.first, ") is ", v, " expected ", e.second));
                return;
            }
        }
        for(auto& e : g)
            if(!want.count(e.first) && !(std::abs(e.second) <= tol)) {
                mc::violate("", mc::str(what, " element (", row, ',', e.first, ") is ", e.second, " expected none"));
                return;
            }
    }
} // namespace liou
#endif

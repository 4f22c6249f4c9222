// Wick expansion of the commutator with the Hamiltonian: rows of the normal ordered Liouvillian.
#ifndef VERIF_NO_UTIL_HPP
#define VERIF_NO_UTIL_HPP
#include "real_util.hpp"

namespace no
{
    using bas::Op;
    using bas::Word;
    using Fn = std::function<double(uint64_t, uint64_t)>; // <c+_a c_b>

    // every partial contraction of a word
    struct Wick {
        const Fn& n;
        uint64_t size;
        liou::Row out; // coefficients of the normal ordered products in the basis

        double contraction(const Op& x, const Op& y) const
        {
            if(x.up != y.up || x.creator == y.creator) return 0.;
            if(x.creator) return n(x.index, y.index);
            return (x.index == y.index ? 1. : 0.) - n(y.index, x.index);
        }
        // what is left uncontracted, in order
        void leaf(double c, const Word& w)
        {
            MC_COUNT("states", 1);
            if(w.size() == 1) {
                if(w[0].creator && w[0].up) out[w[0].index] += c;
            } else if(w.size() == 3) {
                // N[..] is antisymmetric: bring to the order creator up, creator down, annihilator down
                int pos[3] = {-1, -1, -1};
                for(int i = 0; i < 3; ++i) {
                    const int k = w[i].creator ? (w[i].up ? 0 : 1) : (w[i].up ? 3 : 2);
                    if(k == 3 || pos[k] >= 0) return;
                    pos[k] = i;
                }
                const int inv = (pos[0] > pos[1]) + (pos[0] > pos[2]) + (pos[1] > pos[2]);
                out[real::index3(size, w[pos[0]].index, w[pos[1]].index, w[pos[2]].index)] += inv % 2 ? -c : c;
            }
        }
        void expand(double c, const Word& todo, const Word& done)
        {
            MC_COUNT("transitions", 1);
            if(todo.empty()) {
                leaf(c, done);
                return;
            }
            const Op x = todo.front();
            Word rest(todo.begin() + 1, todo.end());
            Word d = done; // leave x uncontracted
            d.push_back(x);
            if(d.size() <= 3) expand(c, rest, d);
            for(std::size_t j = 0; j < rest.size(); ++j) {
                const double v = contraction(x, rest[j]);
                if(v == 0.) continue;
                Word r(rest);
                r.erase(r.begin() + j);
                // x passes nothing, its partner passes j operators
                expand(j % 2 ? -c * v : c * v, r, done);
            }
        }
    };
    struct BTerm {
        double c;
        Word w;
    };

    template <typename L>
    liou::Row expected(const L& l, const Fn& t, uint64_t row, double J, double U)
    {
        const uint64_t n = l.size();
        std::vector<BTerm> A, H;
        if(row < n)
            A.push_back({1., Word{{true, row, true}}});
        else {
            const uint64_t k = row - n, a = k / (n * n), b = k / n % n, c = k % n;
            A.push_back({1., Word{{true, a, true}, {true, b, false}, {false, c, false}}});
            A.push_back({-t(b, c), Word{{true, a, true}}});
        }
        for(uint64_t i = 0; i < n; ++i) {
            for(bool up : {false, true})
                for(auto j : real::neighbors(l, i)) H.push_back({-J, Word{{true, i, up}, {false, j, up}}});
            H.push_back({U, Word{{true, i, true}, {false, i, true}, {true, i, false}, {false, i, false}}});
        }
        Wick w{t, n, {}};
        for(auto& h : H)
            for(auto& a : A) {
                // terms that share no site commute (an even product with disjoint modes)
                bool share = false;
                for(auto& x : h.w)
                    for(auto& y : a.w) share = share || (x.index == y.index && x.up == y.up);
                if(!share || h.c * a.c == 0.) continue;
                Word ha(h.w), ah(a.w);
                ha.insert(ha.end(), a.w.begin(), a.w.end());
                ah.insert(ah.end(), h.w.begin(), h.w.end());
                w.expand(h.c * a.c, ha, {});
                w.expand(-h.c * a.c, ah, {});
            }
        return w.out;
    }
} // namespace no
#endif

// Occupation number model of the Fermi sea: one bit per (momentum, spin).
#ifndef VERIF_SEA_UTIL_HPP
#define VERIF_SEA_UTIL_HPP
#include "basis_util.hpp"

namespace sea
{
    // energies given by a table; Float as the real dispersion class has it
    struct Table {
        using Float = double;
        std::vector<double> e;
        double operator()(std::size_t i) const { return e.at(i); }
    };

    inline uint64_t bit(uint64_t k, bool up) { return uint64_t(1) << (2 * k + (up ? 1 : 0)); }

    template <typename D>
    uint64_t ground(const D& d, uint64_t n, double fermi)
    {
        uint64_t s = 0;
        for(uint64_t k = 0; k < n; ++k)
            if(d(k) < fermi) s |= bit(k, true) | bit(k, false);
        return s;
    }

    // apply a product, right-most factor first; false: the state vanishes
    inline bool apply(const bas::Word& w, uint64_t& s)
    {
        for(std::size_t i = w.size(); i-- > 0;) {
            const auto b = bit(w[i].index, w[i].up);
            if(bool(s & b) == w[i].creator) return false;
            s ^= b;
        }
        return true;
    }
} // namespace sea
#endif

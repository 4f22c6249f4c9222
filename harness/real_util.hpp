// Real space lattices for the matrix explorers: ring and torus neighbours by integer arithmetic.
#ifndef VERIF_REAL_UTIL_HPP
#define VERIF_REAL_UTIL_HPP
#include "liou_util.hpp"

namespace real
{
    using namespace ieompp::lattices;
    using Chain  = PeriodicChain<double>;
    using Square = PeriodicSquareLattice<double>;

    inline Chain make(const Chain*, uint64_t nx, uint64_t) { return Chain(nx, 1.); }
    inline Square make(const Square*, uint64_t nx, uint64_t ny) { return Square(nx, ny, 1., 1.); }

    // neighbours with multiplicity
    inline std::vector<uint64_t> neighbors(const Chain& l, uint64_t i)
    {
        const uint64_t n = l.size();
        return {(i + 1) % n, (i + n - 1) % n};
    }
    inline std::vector<uint64_t> neighbors(const Square& l, uint64_t i)
    {
        const uint64_t nx = l.size_x(), ny = l.size_y(), x = l.x_index(i), y = l.y_index(i);
        return {uint64_t(l.index((x + 1) % nx, y)), uint64_t(l.index((x + nx - 1) % nx, y)),
                uint64_t(l.index(x, (y + 1) % ny)), uint64_t(l.index(x, (y + ny - 1) % ny))};
    }
    inline const std::vector<std::pair<double, double>>& couplings()
    {
        static const std::vector<std::pair<double, double>> v{{1, 1}, {0.5, -3}, {-2, 0.25}, {0, 1.5}, {1.25, 0}, {-0.75, 8}, {std::ldexp(1., -34), -3}, {0.5, std::ldexp(-1., -36)}, {std::ldexp(-1., -34), std::ldexp(3., -36)}};
        return v;
    }
    template <typename L>
    liou::Sum hamiltonian(const L& l, double J, double U)
    {
        liou::Sum H;
        for(uint64_t i = 0; i < l.size(); ++i) {
            for(bool up : {false, true})
                for(auto j : neighbors(l, i)) H.push_back({-J, liou::to_fock(bas::Word{{true, i, up}, {false, j, up}})});
            H.push_back({U, liou::to_fock(bas::Word{{true, i, true}, {false, i, true}, {true, i, false}, {false, i, false}})});
        }
        return H;
    }
    inline uint64_t index3(uint64_t n, uint64_t a, uint64_t b, uint64_t c) { return n + n * n * a + n * b + c; }
} // namespace real
#endif

// Occupation number model of fermions (Jordan-Wigner order: mode 0 first).
#ifndef VERIF_FOCK_HPP
#define VERIF_FOCK_HPP
#include <complex>
#include <cstdint>
#include <vector>

namespace fock
{
    struct Op {
        bool creator;
        int mode;
    };
    using Word = std::vector<Op>;

    // apply one operator to a basis state; returns the sign, 0 if the state vanishes
    inline int apply(const Op& op, uint32_t& s)
    {
        const uint32_t bit = 1u << op.mode;
        if(bool(s & bit) == op.creator) return 0;
        const int sign = (__builtin_popcount(s & (bit - 1)) & 1) ? -1 : 1;
        s ^= bit;
        return sign;
    }

    // apply a product, right-most factor first
    inline int apply(const Word& w, uint32_t& s)
    {
        int sign = 1;
        for(std::size_t i = w.size(); i-- > 0;) {
            sign *= apply(w[i], s);
            if(!sign) return 0;
        }
        return sign;
    }

    template <typename T>
    struct Matrix { // dense, column = input state
        int modes;
        std::vector<T> v;
        explicit Matrix(int m) : modes(m), v((std::size_t(1) << m) << m) {}
        std::size_t dim() const { return std::size_t(1) << modes; }
        T& at(uint32_t out, uint32_t in) { return v[(std::size_t(out) << modes) + in]; }
        const T& at(uint32_t out, uint32_t in) const { return v[(std::size_t(out) << modes) + in]; }
        void add(const T& c, const Word& w)
        {
            for(uint32_t in = 0; in < dim(); ++in) {
                uint32_t out = in;
                const int s  = apply(w, out);
                if(s) at(out, in) += c * T(s);
            }
        }
        bool operator==(const Matrix& o) const { return v == o.v; }
    };
    template <typename T>
    T trace_of_product(const Matrix<T>& a, const Matrix<T>& b)
    {
        T t = T();
        for(uint32_t i = 0; i < a.dim(); ++i)
            for(uint32_t j = 0; j < a.dim(); ++j) t += a.at(i, j) * b.at(j, i);
        return t;
    }
} // namespace fock
#endif

// Shared by the lattice explorers.
#ifndef VERIF_LATTICE_UTIL_HPP
#define VERIF_LATTICE_UTIL_HPP

#include "mc.hpp"

#include <algorithm>
#include <limits>
#include <set>
#include <type_traits>

namespace lat
{
    const long double pi = std::acos(-1.0L);

    template <typename Float>
    bool near(const Float& a, long double b, long double ulps = 8)
    {
        const long double eps = std::numeric_limits<Float>::epsilon();
        return std::abs((long double)a - b) <= ulps * eps * std::max(1.0L, std::abs(b));
    }

    template <typename T>
    struct Name;
#define LAT_NAME(T)                                                                               \
    template <>                                                                                   \
    struct Name<T> {                                                                              \
        static const char* get() { return #T; }                                                   \
    };
    LAT_NAME(float)
    LAT_NAME(double)
    LAT_NAME(long double)
    LAT_NAME(int)
    LAT_NAME(long)
    LAT_NAME(unsigned)
    LAT_NAME(unsigned long)

    // ring distance by walking around the ring
    inline uint64_t ring(uint64_t a, uint64_t b, uint64_t n)
    {
        const uint64_t up = (b >= a) ? b - a : n - (a - b);
        return std::min(up, (n - up) % n);
    }

    // all sites of small sizes, the ones around the ends and the middle of large ones
    inline std::vector<uint64_t> sites(uint64_t n, uint64_t all)
    {
        std::set<uint64_t> s;
        if(n <= all) {
            for(uint64_t i = 0; i < n; ++i) s.insert(i);
        } else {
            for(uint64_t i = 0; i < 3; ++i) {
                s.insert(i);
                s.insert(n - 1 - i);
                s.insert(n / 2 - 1 + i);
                s.insert(n / 3 + i);
            }
        }
        return std::vector<uint64_t>(s.begin(), s.end());
    }

    template <typename Array>
    std::vector<uint64_t> sorted(const Array& a)
    {
        std::vector<uint64_t> v(a.begin(), a.end());
        std::sort(v.begin(), v.end());
        return v;
    }
}

#endif

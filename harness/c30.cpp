// C30: number helpers.
#include "mc.hpp"
#include "ieompp/types/number.hpp"

#include <limits>
#include <type_traits>

using namespace ieompp::types;

template <typename F>
const char* name();
template <> const char* name<float>() { return "float"; }
template <> const char* name<double>() { return "double"; }
template <> const char* name<long double>() { return "long double"; }

// values around zero, epsilon, one and the tolerances
template <typename F>
std::vector<F> grid(bool fine)
{
    const F e = std::numeric_limits<F>::epsilon();
    std::vector<F> v{0, 1, 2, F(0.5), F(1e-3), F(1e6), 3};
    for(F x : {e, e / 2, e / 4, 2 * e, 3 * e}) v.push_back(x);
    for(F x : {e, e / 2, 2 * e}) v.push_back(1 + x);
    if(fine)
        for(F t : {F(0.125), F(1e-3)})
            for(F x : {-2 * e, -e, -e / 2, F(0), e / 2, e, 2 * e}) v.push_back(t + x);
    const auto n = v.size();
    for(std::size_t i = 1; i < n; ++i) v.push_back(-v[i]);
    return v;
}
template <typename F>
const std::vector<F>& tolerances()
{
    static const std::vector<F> t{0, F(1e-3), F(0.125), 1, std::numeric_limits<F>::epsilon()};
    return t;
}

template <typename F>
void reals()
{
    const F e = std::numeric_limits<F>::epsilon();
    const auto g = grid<F>(true);
    for(auto a : g)
        MC_CASE(name<F>(), ' ', a)
        {
            mc::distinct(mc::hash_str(mc::str(name<F>(), a)));
            MC_CHECK(IsZero(a) == (std::abs(a) < e), "IsZero");
            MC_CHECK(conjugate(a) == a, "conjugate of a real number");
            for(auto t : tolerances<F>()) {
                const F limit = t + e;
                MC_CHECK(IsZero(a, t) == (std::abs(a) < limit), "IsZero with tolerance ", t);
            }
            for(auto b : g) {
                const volatile F d = a - b;
                const F dev = d < 0 ? -d : F(d);
                MC_CHECK(IsEqual(a, b) == (dev < e), "IsEqual to ", b);
                MC_CHECK(IsEqual(a, b) == IsEqual(b, a), "IsEqual to ", b, " is not symmetric");
                for(auto t : tolerances<F>()) {
                    const F limit = t + e;
                    MC_CHECK(IsEqual(a, b, t) == (dev < limit), "IsEqual to ", b, " with tolerance ", t);
                }
            }
        }
}
template <typename F>
void complexes()
{
    using C = std::complex<F>;
    const F e = std::numeric_limits<F>::epsilon();
    const auto g = grid<F>(false);
    for(auto ar : g)
        for(auto ai : g)
            MC_CASE("complex<", name<F>(), "> ", ar, ' ', ai)
            {
                mc::distinct(mc::hash_str(mc::str('c', name<F>(), ar, '/', ai)));
                const C a(ar, ai);
                const auto c = conjugate(a);
                MC_CHECK(c.real() == ar && c.imag() == -ai, "conjugate ", c);
                MC_CHECK(conjugate(c) == a, "conjugate twice");
                MC_CHECK(IsZero(a) == (std::abs(ar) < e && std::abs(ai) < e), "IsZero");
                for(auto t : tolerances<F>()) MC_CHECK(IsZero(a, t) == (std::abs(ar) < t + e && std::abs(ai) < t + e), "IsZero with tolerance ", t);
                for(auto br : g)
                    for(auto bi : g) {
                        const C b(br, bi);
                        const F dr = std::abs(ar - br), di = std::abs(ai - bi);
                        MC_CHECK(IsEqual(a, b) == (dr < e && di < e), "IsEqual to ", b);
                        for(auto t : tolerances<F>())
                            MC_CHECK(IsEqual(a, b, t) == (dr < t + e && di < t + e), "IsEqual to ", b, " with tolerance ", t);
                        using L = std::complex<long double>;
                        const L want(( long double)ar * br + (long double)ai * bi, (long double)ai * br - (long double)ar * bi);
                        const auto p = multiply_with_conjugate(a, b);
                        const auto s = add_conjugate_products(a, b);
                        const long double tol = 4 * (long double)e * ((long double)std::abs(ar * br) + std::abs(ai * bi) + std::abs(ai * br) + std::abs(ar * bi));
                        MC_CHECK(std::abs((long double)p.real() - want.real()) <= tol && std::abs((long double)p.imag() - want.imag()) <= tol,
                                 "product with the conjugate of ", b, " is ", p);
                        MC_CHECK(std::abs((long double)s - 2 * want.real()) <= 2 * tol, "sum of conjugate products with ", b, " is ", s);
                    }
            }
}
// small integers: everything is exact
void exact()
{
    using C = std::complex<double>;
    for(int ar = -4; ar <= 4; ++ar)
        for(int ai = -4; ai <= 4; ++ai)
            MC_CASE("integer complex ", ar, ' ', ai)
            {
                mc::distinct(mc::hash_str(mc::str('i', ar, '/', ai)));
                for(int br = -4; br <= 4; ++br)
                    for(int bi = -4; bi <= 4; ++bi) {
                        const C a(ar, ai), b(br, bi);
                        MC_CHECK(multiply_with_conjugate(a, b) == C(ar * br + ai * bi, ai * br - ar * bi), "product with the conjugate of ", b);
                        MC_CHECK(add_conjugate_products(a, b) == 2 * (ar * br + ai * bi), "sum of conjugate products with ", b);
                        MC_CHECK(IsEqual(a, b) == (ar == br && ai == bi), "IsEqual to ", b);
                    }
            }
}
template <typename I>
void integers(const char* what)
{
    std::vector<I> v{0, 1, 2, 3, 100, std::numeric_limits<I>::max(), std::numeric_limits<I>::min(), I(std::numeric_limits<I>::max() - 1), I(std::numeric_limits<I>::min() + 1)};
    if(std::is_signed<I>::value)
        for(int x : {-1, -2, -100}) v.push_back(I(x));
    for(auto a : v)
        MC_CASE(what, ' ', +a)
        {
            mc::distinct(mc::hash_str(mc::str(what, +a)));
            MC_CHECK(IsZero(a) == (a == 0), "IsZero");
            MC_CHECK(conjugate(a) == a, "conjugate");
            for(auto b : v) MC_CHECK(IsEqual(a, b) == (a == b), "IsEqual to ", +b);
        }
}
void ints()
{
    integers<int>("int");
    integers<unsigned>("unsigned");
    integers<int64_t>("int64");
    integers<uint64_t>("uint64");
    integers<int8_t>("int8");
    integers<uint8_t>("uint8");
    integers<int16_t>("int16");
    integers<uint16_t>("uint16");
}

int main(int argc, char** argv)
{
    static_assert(IsComplex<std::complex<float>>::value && IsComplex<std::complex<long double>>::value && !IsComplex<double>::value && !IsComplex<int>::value, "");
    static_assert(std::is_same<RealType<std::complex<float>>::Type, float>::value && std::is_same<RealType<double>::Type, double>::value, "");
    return mc::run(argc, argv,
                   {{"float", reals<float>}, {"double", reals<double>}, {"ldouble", reals<long double>},
                    {"cfloat", complexes<float>}, {"cdouble", complexes<double>}, {"cldouble", complexes<long double>},
                    {"exact", exact}, {"integers", ints}});
}

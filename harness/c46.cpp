// C46: scalar products, insertion of elements, products in place and printed matrices.
#include <iterator>
#include "mc.hpp"
#include "ieompp/types/number.hpp"
#include "ieompp/types/dot_product.hpp"
#include "ieompp/types/blaze.hpp"
#include "ieompp/types/multiply_assign.hpp"
#include "ieompp/types/blaze/multiply_assign.hpp"
#include "ieompp/types/function_matrix.hpp"
#include <blaze/math/StaticVector.h>

#include <map>
#include <sstream>

using namespace ieompp::types;
using C = std::complex<double>;

// ---- scalar products
template <typename T>
void numbers(const char* name, const std::vector<T>& v)
{
    for(auto& a : v)
        for(auto& b : v)
            MC_CASE("product of ", name, ' ', a, " and ", b)
            {
                mc::distinct(mc::hash_str(mc::str(name, '/', a, '/', b)));
                MC_CHECK(dot_product(a, b) == T(a * b), "product is ", dot_product(a, b));
                MC_CHECK((std::is_same<decltype(dot_product(a, b)), T>::value), "type of the product");
            }
}
template <typename T>
T number(int i);
template <> int number(int i) { return i - 1; }
template <> double number(int i) { return 0.5 * i - 0.75; }
template <> float number(int i) { return 0.5f * i - 0.75f; }
template <> C number(int i) { return C(i - 1, 0.5 - (i == 2 ? 2 : 0)); }
template <typename V, typename T>
void vectors(const char* name, std::size_t n, const std::function<V(std::size_t)>& make)
{
    // all pairs of vectors over three numbers
    std::size_t all = 1;
    for(std::size_t i = 0; i < n; ++i) all *= 3;
    for(std::size_t x = 0; x < all; ++x)
        for(std::size_t y = 0; y < all; ++y)
            MC_CASE("product of ", name, " vectors of ", n, ": ", x, " and ", y)
            {
                mc::distinct(mc::hash_str(mc::str(name, '/', n, '/', x, '/', y)));
                V a = make(n), b = make(n);
                T want = T();
                std::size_t p = x, q = y;
                for(std::size_t i = 0; i < n; ++i, p /= 3, q /= 3) {
                    a[i] = number<T>(int(p % 3));
                    b[i] = number<T>(int(q % 3));
                    want += a[i] * b[i];
                }
                const V ca = a, cb = b;
                const T got = dot_product(ca, cb);
                MC_CHECK(std::abs(got - want) <= 1e-14 * double(n), "product is ", got, " instead of ", want);
                bool same = true;
                for(std::size_t i = 0; i < n; ++i) same = same && ca[i] == a[i] && cb[i] == b[i];
                MC_CHECK(same, "the vectors changed");
            }
}
void products()
{
    numbers<int>("int", {-70000 / 2, -3, -1, 0, 1, 2, 46340});
    numbers<int64_t>("int64_t", {-3037000499, -7, 0, 1, 3037000499});
    numbers<uint64_t>("uint64_t", {0, 1, 3, 4294967295u, 4294967296u});
    numbers<float>("float", {-1.5f, 0.f, 0.1f, 3e18f});
    numbers<double>("double", {-1e150, -0.1, -0., 0., 1. / 3, 2., 1e155});
    numbers<long double>("long double", {-0.1L, 0.L, 1.L / 3, 1e2000L});
    for(std::size_t n = 1; n <= mc::pick(4, 5); ++n) {
        vectors<blaze::DynamicVector<double>, double>("real", n, [](std::size_t k) { return blaze::DynamicVector<double>(k); });
        vectors<blaze::DynamicVector<C>, C>("complex", n, [](std::size_t k) { return blaze::DynamicVector<C>(k); });
    }
    vectors<blaze::StaticVector<double, 1>, double>("real static", 1, [](std::size_t) { return blaze::StaticVector<double, 1>(); });
    vectors<blaze::StaticVector<double, 2>, double>("real static", 2, [](std::size_t) { return blaze::StaticVector<double, 2>(); });
    vectors<blaze::StaticVector<float, 2>, float>("float static", 2, [](std::size_t) { return blaze::StaticVector<float, 2>(); });
    vectors<blaze::StaticVector<double, 3>, double>("real static", 3, [](std::size_t) { return blaze::StaticVector<double, 3>(); });
    vectors<blaze::StaticVector<C, 3>, C>("complex static", 3, [](std::size_t) { return blaze::StaticVector<C, 3>(); });
}

// ---- insertion: every sequence of positions, in a model and in the matrix
template <typename T, bool SO, typename Index>
void insertions(const char* name, uint64_t rows, uint64_t columns, int depth)
{
    const uint64_t cells = rows * columns;
    std::vector<uint64_t> seq;
    std::function<void()> go = [&] {
        MC_CASE(name, ' ', rows, 'x', columns, " cells ", seq)
        {
            mc::distinct(mc::hash_str(mc::str(name, rows, 'x', columns, '/', seq)));
            blaze::CompressedMatrix<T, SO> m(rows, columns);
            std::map<uint64_t, T> model;
            int k = 0;
            for(auto c : seq) {
                const T v       = number<T>(k % 3) + T(3 * (k + 1));
                const bool twice = model.count(c);
                bool refused    = false;
                try {
                    matrix_insert(m, Index(c / columns), Index(c % columns), v);
                } catch(const std::invalid_argument&) {
                    refused = true;
                }
                MC_CHECK(refused == twice, "insertion ", k, twice ? " of an element that is there was accepted" : " was refused");
                if(!twice) model[c] = v;
                ++k;
                MC_COUNT("transitions", 1);
            }
            MC_CHECK(m.nonZeros() == model.size() && m.rows() == rows && m.columns() == columns, m.nonZeros(), " elements instead of ", model.size());
            for(uint64_t c = 0; c < cells; ++c) {
                const T want = model.count(c) ? model[c] : T();
                const T got  = static_cast<const blaze::CompressedMatrix<T, SO>&>(m)(c / columns, c % columns);
                MC_CHECK(got == want, "element ", c / columns, ',', c % columns, " is ", got, " instead of ", want);
            }
            MC_COUNT("traces", 1);
        }
        if(int(seq.size()) == depth) return;
        for(uint64_t c = 0; c < cells; ++c) {
            seq.push_back(c);
            go();
            seq.pop_back();
        }
    };
    go();
}
// rows and columns beyond a byte and sixteen bits
template <typename T, bool SO>
void far_insertions(const char* name, uint64_t rows, uint64_t columns)
{
    std::vector<uint64_t> r, c;
    for(uint64_t x : {0, 1, 254, 255, 256, 257, 300, 65535, 65536, 65537, 70000}) {
        if(x < rows) r.push_back(x);
        if(x < columns) c.push_back(x);
    }
    for(int order = 0; order < 3; ++order)
        MC_CASE(name, ' ', rows, 'x', columns, " far elements, order ", order)
        {
            mc::distinct(mc::hash_str(mc::str(name, rows, 'x', columns, "/far", order)));
            std::vector<std::pair<uint64_t, uint64_t>> at;
            for(auto i : r)
                for(auto j : c) at.push_back({i, j});
            if(order == 1) std::reverse(at.begin(), at.end());
            if(order == 2)
                for(std::size_t i = 0; i < at.size(); ++i) std::swap(at[i], at[(i * 7 + 3) % at.size()]);
            blaze::CompressedMatrix<T, SO> m(rows, columns);
            bool refused = false;
            try {
                for(std::size_t i = 0; i < at.size(); ++i) matrix_insert(m, at[i].first, at[i].second, T(i + 1));
            } catch(const std::invalid_argument&) {
                refused = true;
            }
            MC_CHECK(!refused, "an insertion was refused");
            MC_CHECK(m.nonZeros() == at.size(), m.nonZeros(), " elements instead of ", at.size());
            const auto& k = m;
            for(std::size_t i = 0; i < at.size(); ++i)
                MC_CHECK(k(at[i].first, at[i].second) == T(i + 1), "element ", at[i].first, ',', at[i].second, " is ", k(at[i].first, at[i].second));
            MC_COUNT("traces", 1);
        }
}
void inserts()
{
    far_insertions<double, blaze::rowMajor>("real", 300, 300);
    far_insertions<double, blaze::rowMajor>("real", 70001, 2);
    far_insertions<C, blaze::columnMajor>("complex by columns", 2, 70001);
    far_insertions<C, blaze::rowMajor>("complex", 3, 70001);
    const int d = mc::pick(3, 5);
    insertions<double, blaze::rowMajor, uint64_t>("real", 2, 2, d + 1);
    insertions<double, blaze::rowMajor, int>("real, int", 1, 3, d + 1);
    insertions<C, blaze::rowMajor, uint64_t>("complex", 3, 2, d);
    insertions<C, blaze::columnMajor, uint32_t>("complex by columns", 2, 3, d);
    insertions<double, blaze::columnMajor, std::size_t>("real by columns", 3, 1, d + 1);
}

// ---- products in place: every matrix over three numbers; vectors between of other sizes
template <typename T, typename Make>
void in_place(const char* name, uint64_t n, const Make& make)
{
    uint64_t all = 1;
    for(uint64_t i = 0; i < n * n; ++i) all *= 3;
    for(uint64_t x = 0; x < all; ++x)
        for(int times = 1; times <= 6; ++times) // from the third on with tiny elements or tiny vectors
            MC_CASE(name, " matrix ", n, " number ", x, ' ', times, " times")
            {
                const double small = times > 2 && times % 2 ? std::ldexp(1., -40) : 1, little = times > 2 && !(times % 2) ? std::ldexp(1., -70) : 1;
                mc::distinct(mc::hash_str(mc::str(name, n, '/', x, '/', times)));
                std::vector<T> a;
                for(uint64_t i = 0, p = x; i < n * n; ++i, p /= 3) a.push_back(number<T>(int(p % 3)) * (i % 2 || times > 4 ? small : 1.));
                blaze::DynamicVector<T> v(n);
                std::vector<T> model(n);
                for(uint64_t i = 0; i < n; ++i) v[i] = model[i] = (number<T>(int(i * i % 3)) + T(i)) * (i % 2 || times > 4 ? little : 1.);
                const auto m = make(a, n);
                std::vector<double> sizes(n);
                for(uint64_t i = 0; i < n; ++i) sizes[i] = std::abs(v[i]);
                for(int t = 0; t < times; ++t) {
                    multiply_assign(m, v);
                    std::vector<T> w(n);
                    std::vector<double> s(n);
                    for(uint64_t i = 0; i < n; ++i)
                        for(uint64_t j = 0; j < n; ++j) s[i] += std::abs(a[i * n + j]) * sizes[j];
                    sizes = s;
                    for(uint64_t i = 0; i < n; ++i)
                        for(uint64_t j = 0; j < n; ++j) w[i] += a[i * n + j] * model[j];
                    model = w;
                    MC_COUNT("transitions", 1);
                }
                MC_CHECK(v.size() == n, "the vector has ", v.size(), " elements");
                for(uint64_t i = 0; i < std::min<uint64_t>(n, v.size()); ++i)
                    MC_CHECK(std::abs(v[i] - model[i]) <= 1e-14 * sizes[i], "component ", i, " is ", v[i], " instead of ", model[i]);
                for(uint64_t i = 0; i < n; ++i)
                    for(uint64_t j = 0; j < n; ++j) MC_CHECK(T(m(i, j)) == a[i * n + j], "the matrix changed");
            }
}
// products one after the other, in different dimensions and kinds
template <typename T>
void turn(int n, int kind, int seed)
{
    auto f = [seed](std::size_t i, std::size_t j) { return T(double((i * 5 + j * 3 + seed) % 7) - 2); };
    blaze::DynamicVector<T> v(n);
    std::vector<T> model(n);
    for(int i = 0; i < n; ++i) {
        v[i] = T(double((i + seed) % 4) - 1);
        for(int j = 0; j < n; ++j) model[i] += f(i, j) * T(double((j + seed) % 4) - 1);
    }
    if(kind)
        multiply_assign(FunctionMatrix<T>(n, n, f), v);
    else {
        blaze::DynamicMatrix<T> m(n, n);
        for(int i = 0; i < n; ++i)
            for(int j = 0; j < n; ++j) m(i, j) = f(i, j);
        multiply_assign(m, v);
    }
    MC_CHECK(int(v.size()) == n, "the vector has ", v.size(), " elements after a product in dimension ", n);
    for(int i = 0; i < std::min<int>(n, v.size()); ++i) MC_CHECK(std::abs(v[i] - model[i]) <= 1e-12, "component ", i, " is ", v[i], " instead of ", model[i], " in dimension ", n);
    MC_COUNT("transitions", 1);
}
void turns()
{
    const int dims[] = {1, 2, 3, 40};
    const int length = mc::pick(3, 4), what = 12; // dimension, type and kind
    uint64_t all = 1;
    for(int i = 0; i < length; ++i) all *= what;
    for(uint64_t x = 0; x < all; ++x) {
        std::string text;
        for(int i = 0, y = int(x); i < length; ++i, y /= what) text += mc::str(' ', y % what);
        MC_CASE("products in turn:", text)
        {
            mc::distinct(mc::hash_str("turns" + text));
            for(int i = 0, y = int(x); i < length; ++i, y /= what) {
                const int n = dims[y % 4], kind = y / 4 % 3;
                if(kind == 2)
                    turn<C>(n, 1, i);
                else
                    turn<double>(n, kind, i);
            }
        }
    }
}
template <typename T>
void places(const char* name)
{
    for(uint64_t n = 1; n <= 3; ++n) {
        in_place<T>(mc::str("dense ", name).c_str(), n, [](const std::vector<T>& a, uint64_t k) {
            blaze::DynamicMatrix<T> m(k, k);
            for(uint64_t i = 0; i < k * k; ++i) m(i / k, i % k) = a[i];
            return m;
        });
        in_place<T>(mc::str("sparse ", name).c_str(), n, [](const std::vector<T>& a, uint64_t k) {
            blaze::CompressedMatrix<T> m(k, k);
            for(uint64_t i = 0; i < k * k; ++i)
                if(a[i] != T()) m.set(i / k, i % k, a[i]);
            return m;
        });
        in_place<T>(mc::str("function ", name).c_str(), n, [](const std::vector<T>& a, uint64_t k) {
            return FunctionMatrix<T>(k, k, [a, k](std::size_t i, std::size_t j) { return a[i * k + j]; });
        });
        in_place<T>(mc::str("function, 32 bit ", name).c_str(), n, [](const std::vector<T>& a, uint64_t k) {
            return FunctionMatrix<T, uint32_t>(uint32_t(k), uint32_t(k), [a, k](uint32_t i, uint32_t j) { return a[i * k + j]; });
        });
    }
}
void place()
{
    places<double>("real");
    places<C>("complex");
}

// ---- printed matrices: one line per row, one sign and digit per element, whatever the stream was set to
template <typename T>
std::string shown(const T& v);
template <> std::string shown(const double& v)
{
    char b[64];
    std::snprintf(b, sizeof b, "%+.1f", v);
    return b;
}
template <> std::string shown(const int& v)
{
    char b[64];
    std::snprintf(b, sizeof b, "%+d", v);
    return b;
}
template <> std::string shown(const C& v) { return "(" + shown(v.real()) + "," + shown(v.imag()) + ")"; }
template <typename T, typename Index>
void printed(const char* name)
{
    const std::vector<std::function<void(std::ostream&)>> states{
        [](std::ostream&) {}, [](std::ostream& s) { s << std::scientific << std::setprecision(9); }, [](std::ostream& s) { s << std::showpos << std::setprecision(17); },
        [](std::ostream& s) { s << std::hexfloat << std::boolalpha; }, [](std::ostream& s) { s << std::fixed << std::setprecision(0) << std::left << std::setfill('*'); }};
    std::vector<std::pair<Index, Index>> shapes{{300, 1}, {2, 257}, {257, 3}};
    for(Index r = 0; r < 5; ++r)
        for(Index c = 0; c < 5; ++c) shapes.push_back({r, c});
    for(auto& shape : shapes) {
            const auto r = shape.first, c = shape.second;
            for(std::size_t s = 0; s < states.size(); ++s)
                for(int twice = 0; twice < 2; ++twice)
                    MC_CASE(name, ' ', r, 'x', c, " stream ", s, twice ? " twice" : "")
                    {
                        mc::distinct(mc::hash_str(mc::str(name, r, 'x', c, '/', s, '/', twice)));
                        const FunctionMatrix<T, Index> m(r, c, [](Index i, Index j) { return number<T>(int(i % 3)) + number<T>(int(j % 3)) + number<T>(int((i * j) % 3)); });
                        std::string want;
                        for(Index i = 0; i < r; ++i) {
                            for(Index j = 0; j < c; ++j) want += shown<T>(m(i, j)) + " ";
                            want += "\n";
                        }
                        std::ostringstream o, fresh;
                        states[s](o);
                        states[s](fresh);
                        o << m;
                        if(twice) o << m;
                        MC_CHECK(o.str() == want + (twice ? want : ""), "printed ", o.str(), " instead of ", want);
                        // numbers printed afterwards come out as without the matrix
                        o.str("");
                        o << 0.123456789 << ' ' << 42 << ' ' << 1e-9 << ' ' << true;
                        fresh << 0.123456789 << ' ' << 42 << ' ' << 1e-9 << ' ' << true;
                        MC_CHECK(o.str() == fresh.str(), "numbers after the matrix are printed as ", o.str(), " instead of ", fresh.str());
                    }
    }
}
void print()
{
    printed<double, std::size_t>("real");
    printed<C, std::size_t>("complex");
    printed<int, int>("integer");
}

int main(int argc, char** argv) { return mc::run(argc, argv, {{"products", products}, {"inserts", inserts}, {"turns", turns}, {"place", place}, {"print", print}}); }

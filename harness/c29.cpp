// C29: matrix predicates.
#include "mc.hpp"
#include "ieompp/types/number.hpp"
#ifdef ODE_EIGEN
#include "ieompp/types/eigen/traits.hpp"
#else
#include "ieompp/types/blaze.hpp"
#endif
#include "ieompp/types/matrix_check.hpp"
#include "ieompp/types/function_matrix.hpp"

using namespace ieompp::types;
using C = std::complex<double>;

template <typename S>
struct Model {
    uint64_t r, c;
    std::vector<S> v;
    S at(uint64_t i, uint64_t j) const { return v[i * c + j]; }
    bool square() const { return r == c; }
    bool symmetric() const
    {
        if(!square()) return false;
        for(uint64_t i = 0; i < r; ++i)
            for(uint64_t j = 0; j < c; ++j)
                if(at(i, j) != at(j, i)) return false;
        return true;
    }
    bool hermitian() const
    {
        if(!square()) return false;
        for(uint64_t i = 0; i < r; ++i)
            for(uint64_t j = 0; j < c; ++j)
                if(C(at(i, j)) != std::conj(C(at(j, i)))) return false;
        return true;
    }
    bool zero() const
    {
        for(auto& x : v)
            if(x != S()) return false;
        return true;
    }
};

#ifdef ODE_EIGEN
template <typename S, bool SO>
using Dense = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic, SO ? Eigen::ColMajor : Eigen::RowMajor>;
#else
template <typename S, bool SO>
using Dense = blaze::DynamicMatrix<S, SO>;
#endif
template <typename S, bool SO>
Dense<S, SO> dense(const Model<S>& m)
{
    Dense<S, SO> r(m.r, m.c);
    for(uint64_t i = 0; i < m.r; ++i)
        for(uint64_t j = 0; j < m.c; ++j) r(i, j) = m.at(i, j);
    return r;
}
#ifndef ODE_EIGEN
template <typename S, bool SO>
blaze::CompressedMatrix<S, SO> sparse(const Model<S>& m, bool zeros)
{
    blaze::CompressedMatrix<S, SO> r(m.r, m.c);
    for(uint64_t i = 0; i < m.r; ++i)
        for(uint64_t j = 0; j < m.c; ++j)
            if(m.at(i, j) != S() || (zeros && (i + j) % 2)) r.set(i, j, m.at(i, j));
    return r;
}
#endif

template <typename M, typename S>
void predicates(const M& x, const Model<S>& m, const char* kind)
{
    MC_CHECK(is_quadratic(x) == m.square(), kind, ": is_quadratic");
    MC_CHECK(is_symmetric(x) == m.symmetric(), kind, ": is_symmetric reports ", is_symmetric(x));
    MC_CHECK(is_hermitian(x) == m.hermitian(), kind, ": is_hermitian reports ", is_hermitian(x));
}
// a matrix with rows() and cols(), as Eigen has them
template <typename S>
struct Plain {
    Model<S> m;
    std::size_t rows() const { return m.r; }
    std::size_t cols() const { return m.c; }
    S operator()(std::size_t i, std::size_t j) const { return m.at(i, j); }
};
template <typename S>
void compare(const FunctionMatrix<S, std::size_t>& f, const Model<S>& m)
{
    auto fun = [](const Model<S>& x) { return FunctionMatrix<S, std::size_t>(x.r, x.c, [x](std::size_t i, std::size_t j) { return x.at(i, j); }); };
    auto eq  = [&](const Model<S>& o, bool want, const std::string& what) {
        const Plain<S> p{o};
        const auto g = fun(o);
        MC_CHECK((f == p) == want && (f != p) == !want, "function matrix against ", what);
        MC_CHECK((f == g) == want && (f != g) == !want && (g == f) == want, "function matrix against function ", what);
    };
    eq(m, true, "its copy");
    for(uint64_t i = 0; i < m.r * m.c; ++i) {
        auto o = m;
        o.v[i] += S(1);
        eq(o, false, mc::str("a copy with element ", i, " changed"));
        for(int e : {-50, -36, -24}) {
            o.v[i] = m.v[i] + S(std::ldexp(1., e));
            if(std::abs(o.v[i] - m.v[i]) == std::ldexp(1., e)) eq(o, false, mc::str("a copy with element ", i, " changed by 2^", e));
        }
    }
    for(int k = 0; k < 4; ++k) {
        const uint64_t r = m.r + (k == 0) - (k == 1), c = m.c + (k == 2) - (k == 3);
        Model<S> o{r, c, std::vector<S>(r * c)};
        for(uint64_t i = 0; i < std::min(r, m.r); ++i)
            for(uint64_t j = 0; j < std::min(c, m.c); ++j) o.v[i * c + j] = m.at(i, j);
        eq(o, false, mc::str("a matrix of size ", r, 'x', c));
    }
}
template <typename S>
void check(const Model<S>& m)
{
    const auto d  = dense<S, false>(m);
    const auto d2 = dense<S, true>(m);
#ifdef ODE_EIGEN
    const FunctionMatrix<S, std::size_t> e(m.r, m.c, [&m](std::size_t i, std::size_t j) { return m.at(i, j); });
    MC_CHECK((e == d) && !(e != d2), "function matrix against the dense matrix with the same elements");
    if(m.r > 1 && m.c > 1) {
        auto o = d;
        o(m.r - 1, m.c - 2) += S(2);
        MC_CHECK(!(e == o) && (e != o), "function matrix against another dense matrix");
    }
#else
    const auto s  = sparse<S, false>(m, true);
    const auto s2 = sparse<S, true>(m, false);
    predicates(s, m, "sparse");
    predicates(s2, m, "sparse by columns");
    MC_CHECK(IsZero(s) == m.zero(), "sparse: IsZero reports ", IsZero(s));
    MC_CHECK(IsZero(s2) == m.zero(), "sparse by columns: IsZero reports ", IsZero(s2));
#endif
    const FunctionMatrix<S, std::size_t> f(m.r, m.c, [&m](std::size_t i, std::size_t j) { return m.at(i, j); });
    predicates(d, m, "dense");
    predicates(d2, m, "dense by columns");
    predicates(f, m, "function");
    MC_CHECK(IsZero(d) == m.zero(), "dense: IsZero reports ", IsZero(d));
    MC_CHECK(IsZero(d2) == m.zero(), "dense by columns: IsZero reports ", IsZero(d2));
    MC_CHECK(f.rows() == m.r && f.cols() == m.c, "size of the function matrix");
    for(uint64_t i = 0; i < m.r; ++i)
        for(uint64_t j = 0; j < m.c; ++j) MC_CHECK(f(i, j) == m.at(i, j), "function matrix element ", i, ' ', j);
    compare(f, m);
}

template <typename S>
void all(uint64_t r, uint64_t c, const std::vector<S>& letters, const std::string& what)
{
    uint64_t count = 1;
    for(uint64_t i = 0; i < r * c; ++i) count *= letters.size();
    for(uint64_t x = 0; x < count; ++x)
        MC_CASE(what, ' ', r, 'x', c, " matrix ", x)
        {
            mc::distinct(mc::hash_str(mc::str(what, r, 'x', c, '/', x)));
            Model<S> m{r, c, {}};
            uint64_t k = x;
            for(uint64_t i = 0; i < r * c; ++i) {
                m.v.push_back(letters[k % letters.size()]);
                k /= letters.size();
            }
            check(m);
        }
}
template <typename S>
void shapes(uint64_t max, const std::vector<S>& letters, const std::string& what, uint64_t elements)
{
    for(uint64_t r = 1; r <= max; ++r)
        for(uint64_t c = 1; c <= max; ++c)
            if(r * c <= elements) all(r, c, letters, what);
}
// large matrices with exactly one element breaking a predicate
template <typename S>
void single(uint64_t n, const S& up, const S& low, const S& diag, const S& change, const std::string& what)
{
    for(uint64_t a = 0; a <= n * n; ++a)
        MC_CASE(what, ' ', n, 'x', n, " element ", a)
        {
            mc::distinct(mc::hash_str(mc::str("s", what, n, '/', a)));
            Model<S> m{n, n, std::vector<S>(n * n)};
            for(uint64_t i = 0; i < n; ++i)
                for(uint64_t j = 0; j < n; ++j) m.v[i * n + j] = i < j ? up * double(j + i * n) : (i > j ? low * double(i + j * n) : diag);
            if(a < n * n) m.v[a] += change;
            check(m);
        }
}
void singles()
{
    for(uint64_t n = 2; n <= mc::pick(12, 20); ++n) {
        single<double>(n, 1, 1, 3, 1, "symmetric");
        single<double>(n, 0, 0, 0, -2, "zero");
        single<C>(n, C(1, 2), C(1, -2), C(2, 0), C(0, 1), "hermitian");
        single<C>(n, C(1, 2), C(1, -2), C(2, 0), C(1, 0), "hermitian, real change");
        single<C>(n, C(1, 2), C(1, 2), C(2, 1), C(0, 1), "complex symmetric");
        single<C>(n, C(), C(), C(), C(0, 1), "complex zero");
    }
}
// sizes that a narrower integer cannot hold
void large()
{
    for(uint64_t n : {255, 256, 257, 300})
        for(int kind = 0; kind < 3; ++kind)
            for(auto a : std::vector<std::pair<uint64_t, uint64_t>>{{0, 1}, {n - 1, 0}, {0, n - 1}, {n - 1, n - 2}, {n / 2, 3}, {n - 2, n - 1}, {n - 1, n - 1}, {n, n}})
                MC_CASE("kind ", kind, " dimension ", n, " element ", a.first, ',', a.second)
                {
                    mc::distinct(mc::hash_str(mc::str("large", kind, '/', n, '/', a.first, '/', a.second)));
                    Model<C> m{n, n, std::vector<C>(n * n)};
                    for(uint64_t i = 0; i < n && kind; ++i)
                        for(uint64_t j = 0; j < n; ++j) m.v[i * n + j] = C(double(1 + (i * j) % 7), kind == 1 ? double(i) - double(j) : double(i + j));
                    if(a.first < n) m.v[a.first * n + a.second] += C(1, 1);
                    const auto d = dense<C, false>(m);
                    const auto e = dense<C, true>(m);
                    const FunctionMatrix<C, std::size_t> f(n, n, [&m](std::size_t i, std::size_t j) { return m.at(i, j); });
                    predicates(d, m, "dense");
                    predicates(e, m, "dense by columns");
                    predicates(f, m, "function");
                    MC_CHECK(IsZero(d) == m.zero() && IsZero(e) == m.zero(), "IsZero");
                    auto o = f;
                    MC_CHECK(f == o && !(f != o), "function matrix against its copy");
                    Model<C> p = m;
                    p.v[n * n - 2] += C(1, 0);
                    const FunctionMatrix<C, std::size_t> g(n, n, [&p](std::size_t i, std::size_t j) { return p.at(i, j); });
                    MC_CHECK(!(f == g) && f != g, "function matrix against a copy with another element");
                }
    // one row or column, the last element set
    for(uint64_t n : {256, 257, 65536, 65537, 70000})
        for(bool row : {true, false})
            for(int64_t at : {int64_t(-1), int64_t(0), int64_t(n - 1)})
                MC_CASE(row ? "row of " : "column of ", n, " with element ", at)
                {
                    mc::distinct(mc::hash_str(mc::str("line", row, n, '/', at)));
                    Model<double> m{row ? 1 : n, row ? n : 1, std::vector<double>(n)};
                    if(at >= 0) m.v[at] = 1;
                    const auto d = dense<double, false>(m);
                    const auto e = dense<double, true>(m);
                    MC_CHECK(IsZero(d) == m.zero() && IsZero(e) == m.zero(), "IsZero");
                    predicates(d, m, "dense");
                    predicates(e, m, "dense by columns");
                }
    // function matrices: shapes alone and an early difference
    for(uint64_t n : std::vector<uint64_t>{65537, 70000, (1ull << 32) + 1, (1ull << 33) + 2}) {
        MC_CASE("function matrix of dimension ", n)
        {
            mc::distinct(mc::hash_str(mc::str("fun", n)));
            const FunctionMatrix<double, uint64_t> f(n, n, [](uint64_t i, uint64_t j) { return i == 1 && j == 0 ? 1. : 0.; });
            MC_CHECK(is_quadratic(f) && !is_symmetric(f) && !is_hermitian(f), "with a single element (1,0)");
            for(uint64_t k : std::vector<uint64_t>{1, n - 1, n + 1, n % 65536, n % (1ull << 32)}) {
                if(k == n) continue;
                const FunctionMatrix<double, uint64_t> g(n, k, [](uint64_t, uint64_t) { return 0.; }), h(k, n, [](uint64_t, uint64_t) { return 0.; });
                MC_CHECK(!is_quadratic(g) && !is_symmetric(g) && !is_hermitian(g) && !is_quadratic(h) && !is_symmetric(h), "of ", k, " rows or columns");
                MC_CHECK(!(f == g) && f != g && !(h == f) && h != f, "compared with ", k, " rows or columns");
                MC_CHECK(g.rows() == n && g.cols() == k && h.rows() == k && h.cols() == n, "size");
            }
        }
    }
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
                   {{"tiny", [] {
                         const double e = std::ldexp(1., -50);
                         shapes<double>(3, {0, e}, "tiny", 9);
                         shapes<double>(3, {1, 1 + e, 1 - e}, "nearly one", mc::pick(6, 9));
                         shapes<C>(3, {C(0, 0), C(0, e)}, "tiny imaginary", 9);
                         shapes<C>(2, {C(1, 1), C(1, -1), C(1 + e, 1), C(1, e - 1), C(1, 0)}, "nearly hermitian", 4);
                         for(uint64_t n = 2; n <= 6; ++n)
                             for(int x : {-40, -30, -20}) {
                                 single<double>(n, 1, 1, 3, std::ldexp(1., x), mc::str("symmetric 2^", x));
                                 single<C>(n, C(1, 2), C(1, -2), C(2, 0), C(0, std::ldexp(1., x)), mc::str("hermitian 2^", x));
                             }
                     }},
                    {"real", [] { shapes<double>(mc::pick(4, 5), {0, 1}, "real", mc::pick(12, 16)); }},
                    {"real3", [] { shapes<double>(3, {0, 1, -1}, "real -1 0 1", mc::pick(9, 9)); }},
                    {"complex", [] { shapes<C>(3, {C(0, 0), C(1, 0), C(0, 1)}, "complex", 9); }},
                    {"complex2", [] { shapes<C>(3, {C(0, 0), C(1, 1), C(1, -1), C(0, 1), C(0, -1), C(-1, 0)}, "complex 6", mc::pick(4, 6)); }},
                    {"single", singles},
                    {"large", large}});
}

// Stand-in for the parts of the Blaze library (absent here) that ieompp uses. Eager evaluation, plain
// containers. Compressed matrices keep what is appended exactly as it was appended, so that an explorer
// can see unsorted or repeated columns; reading an element adds up what is stored for it.
#ifndef VERIF_SHIM_BLAZE_HPP
#define VERIF_SHIM_BLAZE_HPP

#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <initializer_list>
#include <iostream>
#include <new>
#include <numeric>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <vector>

namespace blaze
{
    using std::size_t;
    constexpr bool rowMajor     = false;
    constexpr bool columnMajor  = true;
    constexpr bool columnVector = false;
    constexpr bool rowVector    = true;

    namespace detail
    {
        template <typename T>
        struct IsComplex : std::false_type {
        };
        template <typename T>
        struct IsComplex<std::complex<T>> : std::true_type {
        };
        template <typename T>
        struct IsScalar
            : std::integral_constant<bool, std::is_arithmetic<T>::value || IsComplex<T>::value> {
        };
        inline void fail(const char* what)
        {
            std::cerr << "blaze stand-in: " << what << std::endl;
            std::abort();
        }
        inline void require(bool cond, const char* what)
        {
            if(!cond) fail(what);
        }
        inline void allocatable(size_t n, size_t size)
        {
            if(n > (size_t(1) << 40) / size) throw std::bad_alloc();
        }
        // real * complex of another precision etc.
        template <typename A, typename B>
        struct Common {
            using Type = typename std::common_type<A, B>::type;
        };
        template <typename A, typename B>
        struct Common<std::complex<A>, B> {
            using Type = std::complex<typename std::common_type<A, B>::type>;
        };
        template <typename A, typename B>
        struct Common<A, std::complex<B>> {
            using Type = std::complex<typename std::common_type<A, B>::type>;
        };
        template <typename A, typename B>
        struct Common<std::complex<A>, std::complex<B>> {
            using Type = std::complex<typename std::common_type<A, B>::type>;
        };
        template <typename A, typename B>
        using CommonT = typename Common<A, B>::Type;
        // type of scalar times vector, only for scalars
        template <typename S, typename A, bool TF, bool = IsScalar<S>::value>
        struct Scaled {
        };
        template <typename S, typename A, bool TF>
        struct Scaled<S, A, TF, true>;
    } // namespace detail

    template <typename V, bool TF>
    struct Vec {
        const V& operator~() const { return static_cast<const V&>(*this); }
        const V& self() const { return static_cast<const V&>(*this); }
    };

    template <typename T, size_t N, bool TF = columnVector>
    class StaticVector : public Vec<StaticVector<T, N, TF>, TF>
    {
        std::array<T, N> _d;

    public:
        using ElementType = T;
        StaticVector() { _d.fill(T()); }
        explicit StaticVector(const T& v) { _d.fill(v); }
        StaticVector(std::initializer_list<T> l)
        {
            detail::require(l.size() <= N, "too many initialisers");
            _d.fill(T());
            std::copy(l.begin(), l.end(), _d.begin());
        }
        template <typename V>
        StaticVector(const Vec<V, TF>& v)
        {
            detail::require(v.self().size() == N, "vector sizes differ");
            for(size_t i = 0; i < N; ++i) _d[i] = v.self()[i];
        }
        static constexpr size_t size() { return N; }
        T& operator[](size_t i)
        {
            detail::require(i < N, "vector index");
            return _d[i];
        }
        const T& operator[](size_t i) const
        {
            detail::require(i < N, "vector index");
            return _d[i];
        }
        T& operator()(size_t i) { return (*this)[i]; }
        const T& operator()(size_t i) const { return (*this)[i]; }
        auto begin() { return _d.begin(); }
        auto end() { return _d.end(); }
        auto begin() const { return _d.begin(); }
        auto end() const { return _d.end(); }
        template <typename V>
        StaticVector& operator+=(const Vec<V, TF>& v)
        {
            for(size_t i = 0; i < N; ++i) _d[i] += v.self()[i];
            return *this;
        }
        template <typename V>
        StaticVector& operator-=(const Vec<V, TF>& v)
        {
            for(size_t i = 0; i < N; ++i) _d[i] -= v.self()[i];
            return *this;
        }
        template <typename S>
        typename std::enable_if<detail::IsScalar<S>::value, StaticVector&>::type operator*=(const S& s)
        {
            for(auto& x : _d) x *= s;
            return *this;
        }
        template <typename S>
        typename std::enable_if<detail::IsScalar<S>::value, StaticVector&>::type operator/=(const S& s)
        {
            for(auto& x : _d) x /= s;
            return *this;
        }
        T* data() { return _d.data(); }
        const T* data() const { return _d.data(); }
        auto cbegin() const { return _d.begin(); }
        auto cend() const { return _d.end(); }
        T& at(size_t i) { return _d.at(i); }
        const T& at(size_t i) const { return _d.at(i); }
        void reset() { _d.fill(T()); }
        void swap(StaticVector& o) noexcept { _d.swap(o._d); }
    };

    template <typename T, bool TF = columnVector>
    class DynamicVector : public Vec<DynamicVector<T, TF>, TF>
    {
        std::vector<T> _d;

    public:
        using ElementType = T;
        DynamicVector()   = default;
        explicit DynamicVector(size_t n) : _d(n) {}
        DynamicVector(size_t n, const T& v) : _d(n, v) {}
        DynamicVector(std::initializer_list<T> l) : _d(l) {}
        template <typename V>
        DynamicVector(const Vec<V, TF>& v) : _d(v.self().size())
        {
            for(size_t i = 0; i < _d.size(); ++i) _d[i] = v.self()[i];
        }
        DynamicVector& operator=(const T& v)
        {
            std::fill(_d.begin(), _d.end(), v);
            return *this;
        }
        DynamicVector& operator=(std::initializer_list<T> l)
        {
            _d = l;
            return *this;
        }
        size_t size() const { return _d.size(); }
        size_t capacity() const { return _d.capacity(); }
        // Blaze leaves the elements unspecified when they are not preserved: make that visible
        void resize(size_t n, bool preserve = true)
        {
            if(preserve) {
                _d.resize(n);
            } else if(n != _d.size()) {
                _d.assign(n, T(7.25e11));
            }
        }
        void reserve(size_t n) { _d.reserve(n); }
        void extend(size_t n, bool preserve = true) { resize(_d.size() + n, preserve); }
        void reset() { std::fill(_d.begin(), _d.end(), T()); }
        void clear() { _d.clear(); }
        void swap(DynamicVector& o) noexcept { _d.swap(o._d); }
        T& operator[](size_t i)
        {
            detail::require(i < _d.size(), "vector index");
            return _d[i];
        }
        const T& operator[](size_t i) const
        {
            detail::require(i < _d.size(), "vector index");
            return _d[i];
        }
        T& operator()(size_t i) { return (*this)[i]; }
        const T& operator()(size_t i) const { return (*this)[i]; }
        T& at(size_t i) { return _d.at(i); }
        const T& at(size_t i) const { return _d.at(i); }
        T* data() { return _d.data(); }
        const T* data() const { return _d.data(); }
        auto begin() { return _d.begin(); }
        auto end() { return _d.end(); }
        auto begin() const { return _d.begin(); }
        auto end() const { return _d.end(); }
        auto cbegin() const { return _d.begin(); }
        auto cend() const { return _d.end(); }
        template <typename V>
        DynamicVector& operator+=(const Vec<V, TF>& v)
        {
            detail::require(v.self().size() == size(), "vector sizes differ");
            for(size_t i = 0; i < _d.size(); ++i) _d[i] += v.self()[i];
            return *this;
        }
        template <typename V>
        DynamicVector& operator-=(const Vec<V, TF>& v)
        {
            detail::require(v.self().size() == size(), "vector sizes differ");
            for(size_t i = 0; i < _d.size(); ++i) _d[i] -= v.self()[i];
            return *this;
        }
        template <typename V>
        DynamicVector& operator*=(const Vec<V, TF>& v)
        {
            detail::require(v.self().size() == size(), "vector sizes differ");
            for(size_t i = 0; i < _d.size(); ++i) _d[i] *= v.self()[i];
            return *this;
        }
        size_t nonZeros() const { return _d.size() - std::count(_d.begin(), _d.end(), T()); }
        void shrinkToFit() { _d.shrink_to_fit(); }
        template <typename S>
        typename std::enable_if<detail::IsScalar<S>::value, DynamicVector&>::type scale(const S& s)
        {
            return *this *= s;
        }
        template <typename S>
        typename std::enable_if<detail::IsScalar<S>::value, DynamicVector&>::type operator*=(const S& s)
        {
            for(auto& x : _d) x = x * s;
            return *this;
        }
        template <typename S>
        typename std::enable_if<detail::IsScalar<S>::value, DynamicVector&>::type operator/=(const S& s)
        {
            for(auto& x : _d) x = x / s;
            return *this;
        }
    };

    template <typename T, bool TF = columnVector>
    class CompressedVector : public Vec<CompressedVector<T, TF>, TF>
    {
        std::vector<T> _d;

    public:
        using ElementType  = T;
        CompressedVector() = default;
        explicit CompressedVector(size_t n) : _d(n) {}
        size_t size() const { return _d.size(); }
        T& operator[](size_t i) { return _d.at(i); }
        const T& operator[](size_t i) const { return _d.at(i); }
        T& operator()(size_t i) { return _d.at(i); }
        const T& operator()(size_t i) const { return _d.at(i); }
        void reset() { std::fill(_d.begin(), _d.end(), T()); }
        void resize(size_t n, bool = true) { _d.resize(n); }
    };

    namespace detail
    {
        template <typename S, typename A, bool TF>
        struct Scaled<S, A, TF, true> {
            using Type = DynamicVector<CommonT<S, typename A::ElementType>, TF>;
        };
    } // namespace detail

    template <typename A, typename B, bool TF>
    auto operator+(const Vec<A, TF>& a, const Vec<B, TF>& b)
    {
        using T = detail::CommonT<typename A::ElementType, typename B::ElementType>;
        detail::require(a.self().size() == b.self().size(), "vector sizes differ");
        DynamicVector<T, TF> r(a.self().size());
        for(size_t i = 0; i < r.size(); ++i) r[i] = T(a.self()[i]) + T(b.self()[i]);
        return r;
    }
    template <typename A, typename B, bool TF>
    auto operator-(const Vec<A, TF>& a, const Vec<B, TF>& b)
    {
        using T = detail::CommonT<typename A::ElementType, typename B::ElementType>;
        detail::require(a.self().size() == b.self().size(), "vector sizes differ");
        DynamicVector<T, TF> r(a.self().size());
        for(size_t i = 0; i < r.size(); ++i) r[i] = T(a.self()[i]) - T(b.self()[i]);
        return r;
    }
    template <typename A, bool TF>
    auto operator-(const Vec<A, TF>& a)
    {
        DynamicVector<typename A::ElementType, TF> r(a.self().size());
        for(size_t i = 0; i < r.size(); ++i) r[i] = -a.self()[i];
        return r;
    }
    template <typename S, typename A, bool TF>
    auto operator*(const S& s, const Vec<A, TF>& a) ->
        typename detail::Scaled<S, A, TF>::Type
    {
        DynamicVector<detail::CommonT<S, typename A::ElementType>, TF> r(a.self().size());
        for(size_t i = 0; i < r.size(); ++i) r[i] = s * a.self()[i];
        return r;
    }
    template <typename S, typename A, bool TF>
    auto operator*(const Vec<A, TF>& a, const S& s) ->
        typename detail::Scaled<S, A, TF>::Type
    {
        return s * a;
    }
    template <typename S, typename A, bool TF>
    auto operator/(const Vec<A, TF>& a, const S& s) ->
        typename detail::Scaled<S, A, TF>::Type
    {
        DynamicVector<detail::CommonT<S, typename A::ElementType>, TF> r(a.self().size());
        for(size_t i = 0; i < r.size(); ++i) r[i] = a.self()[i] / s;
        return r;
    }
    template <typename A, bool TF>
    auto trans(const Vec<A, TF>& a)
    {
        DynamicVector<typename A::ElementType, !TF> r(a.self().size());
        for(size_t i = 0; i < r.size(); ++i) r[i] = a.self()[i];
        return r;
    }
    // inner product
    template <typename A, typename B>
    auto operator*(const Vec<A, rowVector>& a, const Vec<B, columnVector>& b)
    {
        using T = detail::CommonT<typename A::ElementType, typename B::ElementType>;
        detail::require(a.self().size() == b.self().size(), "vector sizes differ");
        T r = T();
        for(size_t i = 0; i < a.self().size(); ++i) r += T(a.self()[i]) * T(b.self()[i]);
        return r;
    }
    // componentwise product
    template <typename A, typename B, bool TF>
    auto operator*(const Vec<A, TF>& a, const Vec<B, TF>& b)
    {
        using T = detail::CommonT<typename A::ElementType, typename B::ElementType>;
        detail::require(a.self().size() == b.self().size(), "vector sizes differ");
        DynamicVector<T, TF> r(a.self().size());
        for(size_t i = 0; i < r.size(); ++i) r[i] = T(a.self()[i]) * T(b.self()[i]);
        return r;
    }
    template <typename A, bool TA, typename B, bool TB>
    auto dot(const Vec<A, TA>& a, const Vec<B, TB>& b)
    {
        using T = detail::CommonT<typename A::ElementType, typename B::ElementType>;
        detail::require(a.self().size() == b.self().size(), "vector sizes differ");
        T r = T();
        for(size_t i = 0; i < a.self().size(); ++i) r += T(a.self()[i]) * T(b.self()[i]);
        return r;
    }
    template <typename A, typename B, bool TF>
    bool operator==(const Vec<A, TF>& a, const Vec<B, TF>& b)
    {
        if(a.self().size() != b.self().size()) return false;
        for(size_t i = 0; i < a.self().size(); ++i)
            if(!(a.self()[i] == b.self()[i])) return false;
        return true;
    }
    template <typename A, typename B, bool TF>
    bool operator!=(const Vec<A, TF>& a, const Vec<B, TF>& b)
    {
        return !(a == b);
    }
    template <typename A, bool TF>
    size_t size(const Vec<A, TF>& a)
    {
        return a.self().size();
    }
    // componentwise functions
#define VERIF_MAP(NAME, EXPR)                                                                                          \
    template <typename A, bool TF>                                                                                     \
    auto NAME(const Vec<A, TF>& a)                                                                                     \
    {                                                                                                                  \
        auto f  = [](const typename A::ElementType& x) { return EXPR; };                                               \
        using T = typename std::decay<decltype(f(a.self()[0]))>::type;                                                 \
        DynamicVector<T, TF> r(a.self().size());                                                                       \
        for(size_t i = 0; i < r.size(); ++i) r[i] = f(a.self()[i]);                                                    \
        return r;                                                                                                      \
    }
    namespace detail
    {
        template <typename T>
        T conj_of(const T& x)
        {
            return x;
        }
        template <typename T>
        std::complex<T> conj_of(const std::complex<T>& x)
        {
            return std::conj(x);
        }
    } // namespace detail
    VERIF_MAP(conj, detail::conj_of(x))
    VERIF_MAP(real, std::real(x))
    VERIF_MAP(imag, std::imag(x))
    VERIF_MAP(abs, std::abs(x))
    VERIF_MAP(cos, std::cos(x))
    VERIF_MAP(sin, std::sin(x))
    VERIF_MAP(exp, std::exp(x))
    VERIF_MAP(sqrt, std::sqrt(x))
#undef VERIF_MAP
    template <typename A, bool TF>
    auto ctrans(const Vec<A, TF>& a)
    {
        return trans(conj(a));
    }
    template <typename A, bool TF>
    auto sum(const Vec<A, TF>& a)
    {
        typename A::ElementType r{};
        for(size_t i = 0; i < a.self().size(); ++i) r += a.self()[i];
        return r;
    }
    template <typename A, bool TF>
    auto sqrNorm(const Vec<A, TF>& a)
    {
        decltype(std::norm(a.self()[0])) r{};
        for(size_t i = 0; i < a.self().size(); ++i) r += std::norm(a.self()[i]);
        return r;
    }
    template <typename A, bool TF>
    auto norm(const Vec<A, TF>& a)
    {
        double r = 0;
        for(size_t i = 0; i < a.self().size(); ++i) r += std::norm(a.self()[i]);
        return std::sqrt(r);
    }
    template <typename T, size_t N, bool TF>
    void reset(StaticVector<T, N, TF>& v)
    {
        v = StaticVector<T, N, TF>();
    }
    template <typename T, bool TF>
    void reset(DynamicVector<T, TF>& v)
    {
        v.reset();
    }
    template <typename T, bool TF>
    void clear(DynamicVector<T, TF>& v)
    {
        v.clear();
    }
    template <typename T, bool TF>
    void swap(DynamicVector<T, TF>& a, DynamicVector<T, TF>& b) noexcept
    {
        a.swap(b);
    }
    template <typename A, bool TF>
    std::ostream& operator<<(std::ostream& os, const Vec<A, TF>& a)
    {
        for(size_t i = 0; i < a.self().size(); ++i) os << a.self()[i] << (TF == rowVector ? ' ' : '\n');
        return os;
    }

    template <typename M>
    struct Mat {
        const M& self() const { return static_cast<const M&>(*this); }
    };

    template <typename T, bool SO = rowMajor>
    class DynamicMatrix : public Mat<DynamicMatrix<T, SO>>
    {
        size_t _r = 0, _c = 0;
        std::vector<T> _d;

    public:
        using ElementType = T;
        DynamicMatrix()   = default;
        DynamicMatrix(size_t r, size_t c) : _r(r), _c(c), _d(r * c) {}
        DynamicMatrix(size_t r, size_t c, const T& v) : _r(r), _c(c), _d(r * c, v) {}
        DynamicMatrix(std::initializer_list<std::initializer_list<T>> l) : _r(l.size()), _c(0)
        {
            for(auto& row : l) _c = std::max(_c, row.size());
            _d.assign(_r * _c, T());
            size_t i = 0;
            for(auto& row : l) {
                std::copy(row.begin(), row.end(), _d.begin() + i * _c);
                ++i;
            }
        }
        DynamicMatrix& operator=(const T& v)
        {
            std::fill(_d.begin(), _d.end(), v);
            return *this;
        }
        size_t rows() const { return _r; }
        size_t columns() const { return _c; }
        T& operator()(size_t i, size_t j)
        {
            detail::require(i < _r && j < _c, "matrix index");
            return _d[i * _c + j];
        }
        const T& operator()(size_t i, size_t j) const
        {
            detail::require(i < _r && j < _c, "matrix index");
            return _d[i * _c + j];
        }
        void resize(size_t r, size_t c, bool preserve = true)
        {
            std::vector<T> n(r * c, preserve ? T() : T(7.25e11));
            if(preserve)
                for(size_t i = 0; i < std::min(r, _r); ++i)
                    for(size_t j = 0; j < std::min(c, _c); ++j) n[i * c + j] = _d[i * _c + j];
            else if(r == _r && c == _c)
                return;
            _d.swap(n);
            _r = r;
            _c = c;
        }
        void reserve(size_t) {}
        void reset() { std::fill(_d.begin(), _d.end(), T()); }
        void clear()
        {
            _r = _c = 0;
            _d.clear();
        }
        void swap(DynamicMatrix& o) noexcept
        {
            std::swap(_r, o._r);
            std::swap(_c, o._c);
            _d.swap(o._d);
        }
        template <typename S>
        typename std::enable_if<detail::IsScalar<S>::value, DynamicMatrix&>::type operator*=(const S& s)
        {
            for(auto& x : _d) x = x * s;
            return *this;
        }
        template <typename F>
        void mc_row(size_t i, F f) const
        {
            for(size_t j = 0; j < _c; ++j) f(j, _d[i * _c + j]);
        }
    };

    template <typename T, bool SO = rowMajor>
    class CompressedMatrix : public Mat<CompressedMatrix<T, SO>>
    {
    public:
        using ElementType = T;
        struct Element {
            size_t idx;
            T val;
            size_t index() const { return idx; }
            const T& value() const { return val; }
            T& value() { return val; }
        };
        using Iterator      = typename std::vector<Element>::iterator;
        using ConstIterator = typename std::vector<Element>::const_iterator;

    private:
        size_t _r = 0, _c = 0;
        std::vector<std::vector<Element>> _d; // one list per row (column for columnMajor)
        std::vector<bool> _final;
        // append() writes into memory reserved before: for the matrix as a whole, when the rows are appended in
        // order and each is finalised, or for the row
        size_t _n = 0, _cap = 0;
        std::vector<size_t> _row_cap;
        void recount()
        {
            _n = 0;
            for(auto& x : _d) _n += x.size();
            _cap = std::max(_cap, _n);
        }
        typename std::vector<Element>::iterator put(size_t m, typename std::vector<Element>::iterator at, const Element& e)
        {
            at   = _d[m].insert(at, e);
            _cap = std::max(_cap, ++_n);
            return at;
        }
        size_t major() const { return SO == columnMajor ? _c : _r; }

    public:
        CompressedMatrix() = default;
        CompressedMatrix(size_t r, size_t c) : _r(r), _c(c), _d(major()), _final(major(), false) {}
        CompressedMatrix(size_t r, size_t c, size_t nonzeros) : CompressedMatrix(r, c) { _cap = nonzeros; }
        CompressedMatrix(size_t r, size_t c, const std::vector<size_t>& nonzeros) : CompressedMatrix(r, c)
        {
            for(size_t i = 0; i < nonzeros.size(); ++i) reserve(i, nonzeros[i]);
        }
        template <typename M, typename = typename M::ElementType>
        explicit CompressedMatrix(const M& m) : CompressedMatrix(m.rows(), m.columns())
        {
            for(size_t i = 0; i < _r; ++i)
                for(size_t j = 0; j < _c; ++j)
                    if(m(i, j) != T()) set(i, j, m(i, j));
        }
        size_t rows() const { return _r; }
        size_t columns() const { return _c; }
        size_t capacity() const { return std::max(_cap, _n); }
        size_t nonZeros() const { return _n; }
        size_t nonZeros(size_t i) const { return _d.at(i).size(); }
        void reserve(size_t n)
        {
            detail::allocatable(n, sizeof(Element));
            _cap = std::max(_cap, n);
        }
        void reserve(size_t i, size_t n)
        {
            detail::allocatable(n, sizeof(Element));
            detail::require(i < major(), "reserve: row index");
            _row_cap.resize(major(), 0);
            _row_cap[i] = std::max(_row_cap[i], n);
        }
        // resize keeps the stored elements of the remaining rows even without preserve, as Blaze does for
        // a matrix of the same size: a missing reset() shows
        void resize(size_t r, size_t c, bool preserve = true)
        {
            if(r == _r && c == _c) return;
            if(preserve) {
                CompressedMatrix n(r, c);
                for(size_t i = 0; i < std::min(n._d.size(), _d.size()); ++i)
                    for(auto& e : _d[i])
                        if(e.idx < (SO == columnMajor ? r : c)) n._d[i].push_back(e);
                n._cap = _cap;
                n.recount();
                swap(n);
            } else {
                // memory first: a matrix is unchanged when there is none
                const size_t n = SO == columnMajor ? c : r;
                _final.reserve(n);
                _d.resize(n);
                _r = r;
                _c = c;
                _final.assign(n, false);
                _row_cap.clear();
                recount();
            }
        }
        void reset()
        {
            for(auto& x : _d) x.clear();
            _final.assign(major(), false);
            _n = 0;
        }
        void reset(size_t i)
        {
            _n -= _d.at(i).size();
            _d.at(i).clear();
        }
        void clear()
        {
            _r = _c = _n = _cap = 0;
            _row_cap.clear();
            _d.clear();
            _final.clear();
        }
        void swap(CompressedMatrix& o) noexcept
        {
            std::swap(_r, o._r);
            std::swap(_c, o._c);
            _d.swap(o._d);
            _final.swap(o._final);
            std::swap(_n, o._n);
            std::swap(_cap, o._cap);
            _row_cap.swap(o._row_cap);
        }
        void append(size_t i, size_t j, const T& v, bool check = false)
        {
            detail::require(i < _r && j < _c, "append: matrix index");
            if(check && v == T()) return;
            const auto m = SO == columnMajor ? j : i, k = SO == columnMajor ? i : j;
            detail::require(!_final[m], "append to a finalised row");
            if(m < _row_cap.size() && _row_cap[m])
                detail::require(_d[m].size() < _row_cap[m], "append beyond the memory reserved for the row");
            else {
                detail::require(m == 0 || _final[m - 1], "append to a row before the previous one is finalised");
                detail::require(_n < _cap, "append beyond the memory reserved for the matrix");
            }
            _d[m].push_back({k, v});
            ++_n;
        }
        void finalize(size_t i)
        {
            detail::require(i < _final.size(), "finalize: row index");
            for(size_t k = i + 1; k > 0 && !_final[k - 1]; --k) _final[k - 1] = true;
        }
        void finalize()
        {
            for(size_t k = 0; k < _final.size(); ++k) _final[k] = true;
        }
        Iterator lowerBound(size_t m, size_t k)
        {
            return std::lower_bound(_d[m].begin(), _d[m].end(), k,
                                    [](const Element& e, size_t x) { return e.idx < x; });
        }
        Iterator insert(size_t i, size_t j, const T& v)
        {
            detail::require(i < _r && j < _c, "insert: matrix index");
            const auto m = SO == columnMajor ? j : i, k = SO == columnMajor ? i : j;
            auto it = lowerBound(m, k);
            if(it != _d[m].end() && it->idx == k) throw std::invalid_argument("Bad access index");
            return put(m, it, Element{k, v});
        }
        Iterator set(size_t i, size_t j, const T& v)
        {
            detail::require(i < _r && j < _c, "set: matrix index");
            const auto m = SO == columnMajor ? j : i, k = SO == columnMajor ? i : j;
            auto it = lowerBound(m, k);
            if(it != _d[m].end() && it->idx == k) {
                it->val = v;
                return it;
            }
            return put(m, it, Element{k, v});
        }
        void erase(size_t i, size_t j)
        {
            const auto m = SO == columnMajor ? j : i, k = SO == columnMajor ? i : j;
            auto it = lowerBound(m, k);
            if(it != _d[m].end() && it->idx == k) {
                --_n;
                _d[m].erase(it);
            }
        }
        Iterator begin(size_t i) { return _d.at(i).begin(); }
        Iterator end(size_t i) { return _d.at(i).end(); }
        ConstIterator begin(size_t i) const { return _d.at(i).begin(); }
        ConstIterator end(size_t i) const { return _d.at(i).end(); }
        ConstIterator cbegin(size_t i) const { return _d.at(i).begin(); }
        ConstIterator cend(size_t i) const { return _d.at(i).end(); }
        T& operator()(size_t i, size_t j)
        {
            detail::require(i < _r && j < _c, "matrix index");
            const auto m = SO == columnMajor ? j : i, k = SO == columnMajor ? i : j;
            auto it = lowerBound(m, k);
            if(it == _d[m].end() || it->idx != k) it = put(m, it, Element{k, T()});
            return it->val;
        }
        T operator()(size_t i, size_t j) const
        {
            detail::require(i < _r && j < _c, "matrix index");
            const auto m = SO == columnMajor ? j : i, k = SO == columnMajor ? i : j;
            T r = T();
            for(auto& e : _d[m])
                if(e.idx == k) r += e.val;
            return r;
        }
        template <typename S>
        typename std::enable_if<detail::IsScalar<S>::value, CompressedMatrix&>::type
        operator*=(const S& s)
        {
            for(auto& x : _d)
                for(auto& e : x) e.val = e.val * s;
            return *this;
        }
        template <typename F>
        void mc_row(size_t i, F f) const
        {
            if(SO == rowMajor) {
                for(auto& e : _d[i]) f(e.idx, e.val);
            } else {
                for(size_t j = 0; j < _c; ++j) f(j, (*this)(i, j));
            }
        }
    };

    template <typename M, typename V>
    auto operator*(const Mat<M>& m, const Vec<V, columnVector>& v)
    {
        using T = detail::CommonT<typename M::ElementType, typename V::ElementType>;
        detail::require(m.self().columns() == v.self().size(), "matrix and vector sizes differ");
        DynamicVector<T, columnVector> r(m.self().rows());
        for(size_t i = 0; i < r.size(); ++i) {
            T s = T();
            m.self().mc_row(i, [&](size_t j, const typename M::ElementType& x) {
                s += T(x) * T(v.self()[j]);
            });
            r[i] = s;
        }
        return r;
    }
    template <typename A, typename B>
    bool operator==(const Mat<A>& a, const Mat<B>& b)
    {
        if(a.self().rows() != b.self().rows() || a.self().columns() != b.self().columns()) return false;
        for(size_t i = 0; i < a.self().rows(); ++i)
            for(size_t j = 0; j < a.self().columns(); ++j)
                if(!(a.self()(i, j) == b.self()(i, j))) return false;
        return true;
    }
    template <typename A, typename B>
    bool operator!=(const Mat<A>& a, const Mat<B>& b)
    {
        return !(a == b);
    }
    template <typename M>
    size_t rows(const Mat<M>& m)
    {
        return m.self().rows();
    }
    template <typename M>
    size_t columns(const Mat<M>& m)
    {
        return m.self().columns();
    }
    template <typename M>
    size_t nonZeros(const Mat<M>& m)
    {
        return m.self().nonZeros();
    }
    template <typename T, bool SO>
    DynamicMatrix<T, SO> trans(const DynamicMatrix<T, SO>& m)
    {
        DynamicMatrix<T, SO> r(m.columns(), m.rows());
        for(size_t i = 0; i < m.rows(); ++i)
            for(size_t j = 0; j < m.columns(); ++j) r(j, i) = m(i, j);
        return r;
    }
    template <typename T, bool SO>
    CompressedMatrix<T, SO> trans(const CompressedMatrix<T, SO>& m)
    {
        CompressedMatrix<T, SO> r(m.columns(), m.rows());
        for(size_t i = 0; i < m.rows(); ++i)
            m.mc_row(i, [&](size_t j, const T& x) { r(j, i) += x; });
        return r;
    }
    template <typename M>
    std::ostream& operator<<(std::ostream& os, const Mat<M>& m)
    {
        for(size_t i = 0; i < m.self().rows(); ++i) {
            for(size_t j = 0; j < m.self().columns(); ++j) os << m.self()(i, j) << ' ';
            os << '\n';
        }
        return os;
    }

    // Archives: type tag, sizes, raw elements.
    template <typename Stream>
    class Archive
    {
        Stream& _s;

        template <typename T>
        void put(const T& t)
        {
            _s.write(reinterpret_cast<const char*>(&t), sizeof t);
        }
        template <typename T>
        T get()
        {
            T t{};
            if(!_s.read(reinterpret_cast<char*>(&t), sizeof t))
                throw std::runtime_error("Archive: unexpected end");
            return t;
        }

    public:
        explicit Archive(Stream& s) : _s(s) {}
        Archive& flush()
        {
            _s.flush();
            return *this;
        }
        template <typename T, bool TF>
        Archive& operator<<(const DynamicVector<T, TF>& v)
        {
            put<uint64_t>(0x564543ull + sizeof(T));
            put<uint64_t>(v.size());
            for(auto& x : v) put(x);
            return *this;
        }
        template <typename T, bool TF>
        Archive& operator>>(DynamicVector<T, TF>& v)
        {
            if(get<uint64_t>() != 0x564543ull + sizeof(T))
                throw std::runtime_error("Archive: not a vector of this type");
            const auto n = get<uint64_t>();
            if(n > (1ull << 32)) throw std::runtime_error("Archive: size");
            v.resize(n, false);
            for(auto& x : v) x = get<T>();
            return *this;
        }
        template <typename T, bool SO>
        Archive& operator<<(const CompressedMatrix<T, SO>& m)
        {
            put<uint64_t>(0x4d4154ull + sizeof(T));
            put<uint64_t>(m.rows());
            put<uint64_t>(m.columns());
            put<uint64_t>(m.nonZeros());
            for(size_t i = 0; i < (SO ? m.columns() : m.rows()); ++i)
                for(auto it = m.begin(i); it != m.end(i); ++it) {
                    put<uint64_t>(i);
                    put<uint64_t>(it->index());
                    put(it->value());
                }
            return *this;
        }
        template <typename T, bool SO>
        Archive& operator>>(CompressedMatrix<T, SO>& m)
        {
            if(get<uint64_t>() != 0x4d4154ull + sizeof(T))
                throw std::runtime_error("Archive: not a matrix of this type");
            const auto rows = get<uint64_t>(), columns = get<uint64_t>();
            const auto n = get<uint64_t>();
            if(rows > (1ull << 32) || columns > (1ull << 32)) throw std::runtime_error("Archive: size");
            CompressedMatrix<T, SO> r(rows, columns);
            for(uint64_t k = 0; k < n; ++k) {
                const auto major = get<uint64_t>(), minor = get<uint64_t>();
                r.set(SO ? minor : major, SO ? major : minor, get<T>());
            }
            m = r;
            return *this;
        }
    };
} // namespace blaze

namespace blaze
{
    using std::complex;
}

#endif

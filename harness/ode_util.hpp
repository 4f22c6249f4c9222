// Fourth-order Taylor model of an integration step and matrices of every kind.
#ifndef VERIF_ODE_UTIL_HPP
#define VERIF_ODE_UTIL_HPP
#include "mc.hpp"
#ifdef ODE_EIGEN
#include "ieompp/types/eigen/traits.hpp"
#include "ieompp/types/multiply_assign.hpp"
#include "ieompp/types/eigen/multiply_assign.hpp"
#else
#include "ieompp/types/blaze.hpp"
#include "ieompp/types/multiply_assign.hpp"
#include "ieompp/types/blaze/multiply_assign.hpp"
#endif
#include "ieompp/types/function_matrix.hpp"
#include "ieompp/ode/rk4.hpp"

namespace ode
{
    using C  = std::complex<double>;
    using LC = std::complex<long double>;

    struct Model { // square matrix
        uint64_t n;
        std::vector<C> a;
        C at(uint64_t i, uint64_t j) const { return a[i * n + j]; }
        std::vector<LC> times(const std::vector<LC>& v) const
        {
            std::vector<LC> r(n);
            for(uint64_t i = 0; i < n; ++i)
                for(uint64_t j = 0; j < n; ++j) r[i] += LC(at(i, j)) * v[j];
            return r;
        }
    };
    // Taylor polynomial of exp(h A) through fourth order; scale: size of the largest intermediate
    inline std::vector<LC> taylor(const Model& m, double h, const std::vector<LC>& u, double& scale)
    {
        std::vector<LC> r(u), t(u);
        for(auto& x : u) scale = std::max(scale, double(std::abs(x)));
        for(int k = 1; k <= 4; ++k) {
            t = m.times(t);
            for(auto& x : t) x *= (long double)h / k;
            for(uint64_t i = 0; i < r.size(); ++i) {
                r[i] += t[i];
                scale = std::max(scale, double(std::abs(t[i])) * 24);
            }
        }
        return r;
    }

    // per component, the sum of the sizes of all contributions: what rounding errors are proportional to
    inline std::vector<double> sizes(const Model& m, double h, const std::vector<LC>& u, int orders)
    {
        std::vector<double> t(m.n), r(m.n), a;
        for(auto& x : m.a) a.push_back(std::abs(x));
        for(uint64_t i = 0; i < m.n; ++i) t[i] = r[i] = double(std::abs(u[i]));
        if(!orders) std::fill(r.begin(), r.end(), 0.);
        for(int k = 1; k <= std::max(orders, 1); ++k) {
            std::vector<double> w(m.n);
            for(uint64_t i = 0; i < m.n; ++i)
                for(uint64_t j = 0; j < m.n; ++j) w[i] += a[i * m.n + j] * t[j];
            for(uint64_t i = 0; i < m.n; ++i) r[i] += (t[i] = w[i] * (orders ? std::abs(h) / k : 1.));
        }
        return r;
    }
    // largest deviation in units of the rounding error allowed
    template <typename V>
    double excess(const V& a, const std::vector<LC>& b, const std::vector<double>& size)
    {
        if(uint64_t(a.size()) != b.size()) return INFINITY;
        const double eps = 1e-15 * (20. + double(b.size()));
        double worst     = 0;
        for(uint64_t i = 0; i < b.size(); ++i) {
            const double x = double(std::abs(LC(C(a[i])) - b[i]));
            if(!(x <= eps * size[i])) {
                const double e = x / (eps * size[i]);
                if(!(e <= worst)) worst = e;
            }
        }
        return worst;
    }

    template <typename S>
    S cast(const C& c);
    template <>
    inline double cast<double>(const C& c) { return c.real(); }
    template <>
    inline C cast<C>(const C& c) { return c; }

    template <typename S>
    using Fun = ieompp::types::FunctionMatrix<S, std::size_t>;

#ifdef ODE_EIGEN
    template <typename S>
    using Vec = Eigen::Matrix<S, Eigen::Dynamic, 1>;
    template <typename S>
    Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> dense(const Model& m)
    {
        Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> r(m.n, m.n);
        for(uint64_t i = 0; i < m.n; ++i)
            for(uint64_t j = 0; j < m.n; ++j) r(i, j) = cast<S>(m.at(i, j));
        return r;
    }
    template <typename S>
    Eigen::SparseMatrix<S> sparse(const Model& m)
    {
        Eigen::SparseMatrix<S> r(m.n, m.n);
        for(uint64_t j = 0; j < m.n; ++j)
            for(uint64_t i = 0; i < m.n; ++i)
                if(m.at(i, j) != C()) r.insert(i, j) = cast<S>(m.at(i, j));
        r.makeCompressed();
        return r;
    }
    template <typename S>
    bool same(const Eigen::SparseMatrix<S>& a, const Eigen::SparseMatrix<S>& b)
    {
        using D = Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>;
        return a.nonZeros() == b.nonZeros() && D(a) == D(b);
    }
    template <typename S, int R, int K>
    bool same(const Eigen::Matrix<S, R, K>& a, const Eigen::Matrix<S, R, K>& b)
    {
        return a == b;
    }
#else
    template <typename S>
    using Vec = blaze::DynamicVector<S, blaze::columnVector>;
    template <typename S>
    blaze::DynamicMatrix<S> dense(const Model& m)
    {
        blaze::DynamicMatrix<S> r(m.n, m.n);
        for(uint64_t i = 0; i < m.n; ++i)
            for(uint64_t j = 0; j < m.n; ++j) r(i, j) = cast<S>(m.at(i, j));
        return r;
    }
    template <typename S>
    blaze::CompressedMatrix<S> sparse(const Model& m)
    {
        blaze::CompressedMatrix<S> r(m.n, m.n, m.n * m.n);
        for(uint64_t i = 0; i < m.n; ++i) {
            for(uint64_t j = 0; j < m.n; ++j)
                if(m.at(i, j) != C()) r.append(i, j, cast<S>(m.at(i, j)));
            r.finalize(i);
        }
        return r;
    }
    template <typename M>
    bool same(const M& a, const M& b)
    {
        return a == b;
    }
#endif
    template <typename S>
    Fun<S> function(const Model& m)
    {
        return Fun<S>(m.n, m.n, [m](std::size_t i, std::size_t j) { return cast<S>(m.at(i, j)); });
    }
    template <typename S>
    Vec<S> vec(const std::vector<LC>& v)
    {
        Vec<S> r(v.size());
        for(uint64_t i = 0; i < v.size(); ++i) r[i] = cast<S>(C(v[i]));
        return r;
    }
    template <typename V>
    double distance(const V& a, const std::vector<LC>& b)
    {
        if(uint64_t(a.size()) != b.size()) return INFINITY;
        long double d = 0;
        for(uint64_t i = 0; i < b.size(); ++i) {
            const auto x = std::abs(LC(C(a[i])) - b[i]);
            if(!(x <= d)) d = x;
        }
        return double(d);
    }
} // namespace ode
#endif

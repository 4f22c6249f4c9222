// C37: tables and bases built by several threads.
#include "omp_util.hpp"
#include "basis_util.hpp"
#include "ieompp/types/dot_product.hpp"
#include "ieompp/models/hubbard/dispersion.hpp"
#include "ieompp/models/hubbard_momentum_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/expectation_value.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/1d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump/2d.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump_no.hpp"

using namespace bas;
using namespace ieompp::lattices;
using namespace ieompp::models;
namespace real = hubbard_real_space;
using omp::Values;
using Chain  = PeriodicChain<double>;
using Square = PeriodicSquareLattice<double>;

template <typename B>
Values flatten(const B& b)
{
    Values v{double(b.size())};
    for(const auto& m : b) {
        v.push_back(double(m.size()));
        for(const auto& o : m) {
            v.push_back(o.creator);
            v.push_back(double(o.index1));
            v.push_back(o.index2);
        }
    }
    return v;
}
template <typename J>
Values coefficients(const J& j, uint64_t n)
{
    Values v;
    for(uint64_t i = 0; i < n; ++i) {
        v.push_back(j.fourier_coefficient(i).real());
        v.push_back(j.fourier_coefficient(i).imag());
    }
    return v;
}
template <typename J>
Values coefficients3(const J& j)
{
    Values v;
    for(const auto& c : j.fourier_coefficients()) {
        v.push_back(c.real());
        v.push_back(c.imag());
    }
    return v;
}
double ev(const Operator& a, const Operator& b) { return a.index1 == b.index1 ? 0.5 : 0.25; }

// 3 threads under every schedule where it is affordable
void tables()
{
    for(uint64_t n : {1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 30}) {
        omp::subject(mc::str("dispersion of a chain of ", n), 4, 0, [=] {
            const Chain bz(n), l(n, 0.5);
            const hubbard::Dispersion<double> d(bz, l, 1.25);
            Values v;
            for(uint64_t i = 0; i < n; ++i) v.push_back(d(i));
            return v;
        });
        omp::subject(mc::str("expectation values of a chain of ", n), 4, 0, [=] {
            const Chain l(n, 0.5);
            const real::ExpectationValue1DHalfFilled<double, Chain> e(l, 0.25, 0.75);
            Values v;
            for(uint64_t i = 0; i < n; ++i)
                for(uint64_t j = 0; j < n; ++j) v.push_back(e(i, j));
            return v;
        });
    }
    for(auto s : std::vector<std::pair<uint64_t, uint64_t>>{{1, 1}, {2, 3}, {3, 2}, {4, 4}, {5, 3}}) {
        const auto nx = s.first, ny = s.second;
        omp::subject(mc::str("dispersion of a square lattice ", nx, 'x', ny), 4, 0, [=] {
            const Square bz(nx, ny), l(nx, ny, 1., 0.5);
            const hubbard::Dispersion<double> d(bz, l, 1.25);
            Values v;
            for(uint64_t i = 0; i < nx * ny; ++i) v.push_back(d(i));
            return v;
        });
        omp::subject(mc::str("expectation values of a square lattice ", nx, 'x', ny), 4, 0, [=] {
            const Square l(nx, ny, 1., 1.);
            const real::ExpectationValue2DHalfFilled<double, Square> e(l);
            Values v;
            for(uint64_t i = 0; i < nx * ny; ++i)
                for(uint64_t j = 0; j < nx * ny; ++j) v.push_back(e(i, j));
            return v;
        });
    }
}
void bases()
{
    for(uint64_t n : {1, 2, 3, 4, 5, 9, 16})
        omp::subject(mc::str("conjugate of the one-operator basis of ", n), 4, 0, [=] {
            const real::Basis1Operator<Monomial> b{Chain(n, 1.)};
            return flatten(b.get_conjugate());
        });
    for(uint64_t n : {1, 2, 3}) {
        omp::subject(mc::str("conjugate of the three-operator basis of ", n), 4, 0, [=] {
            const real::Basis3Operator<Monomial> b{Chain(n, 1.)};
            return flatten(b.get_conjugate());
        });
        omp::subject(mc::str("conjugate of the momentum basis of ", n), 4, 0, [=] {
            const hubbard_momentum_space::Basis3Operator<Monomial> b(n - 1, Chain(n));
            auto v = flatten(b.get_conjugate());
            const auto w = flatten(b);
            v.insert(v.end(), w.begin(), w.end());
            return v;
        });
        omp::subject(mc::str("momentum basis of ", n, " conjugated in place"), 4, 0, [=] {
            hubbard_momentum_space::Basis3Operator<Monomial> b(0, Chain(n));
            b.conjugate();
            return flatten(b);
        });
    }
    omp::subject("conjugate of the three-operator basis of 2x2", 4, 0, [=] {
        const real::Basis3Operator<Monomial> b{Square(2, 2, 1., 1.)};
        return flatten(b.get_conjugate());
    });
}
void fourier()
{
    for(uint64_t n : {1, 2, 3, 4, 5, 8, 17}) {
        using B1 = real::Basis1Operator<Monomial>;
        using B3 = real::Basis3Operator<Monomial>;
        omp::subject(mc::str("coefficients of the Fermi jump, one operator, ", n), 4, 0,
                     [=] { return coefficients(real::FermiJump1D<double, B1>(Chain(n, 1.), ev, 0.75), n); });
        omp::subject(mc::str("coefficients of the normal-ordered Fermi jump, one operator, ", n), 4, 0,
                     [=] { return coefficients(real::FermiJump1D_NO<double, B1>(Chain(n, 1.), ev), n); });
        if(n > 3) continue;
        omp::subject(mc::str("coefficients of the normal-ordered Fermi jump, three operators, ", n), 4, 0,
                     [=] { return coefficients(real::FermiJump1D_NO<double, B3>(Chain(n, 1.), ev), n); });
        omp::subject(mc::str("coefficients of the Fermi jump, three operators, ", n), 4, 0, [=] {
            const B3 b{Chain(n, 1.)};
            return coefficients3(real::FermiJump1D<double, B3>(b, Chain(n, 1.), ev, 0.75));
        });
    }
    for(auto s : std::vector<std::pair<uint64_t, uint64_t>>{{1, 1}, {1, 2}, {2, 2}}) {
        using B3 = real::Basis3Operator<Monomial>;
        const auto nx = s.first, ny = s.second;
        omp::subject(mc::str("coefficients of the Fermi jump in two dimensions, ", nx, 'x', ny), 4, 0, [=] {
            const Square l(nx, ny, 1., 0.5);
            const B3 b{l};
            return coefficients3(real::FermiJump2D<double, B3>(b, l, ev, Square::Vector{0.5, 0.75}));
        });
    }
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"tables", tables}, {"bases", bases}, {"fourier", fourier}});
}

// C18: momentum space Liouvillian matrix.
#include "liou_util.hpp"
#include "ieompp/models/hubbard_momentum_space/blaze_sparse.hpp"

using namespace bas;
using namespace ieompp::lattices;
using namespace ieompp::models::hubbard_momentum_space;

// integer arithmetic on momenta
template <typename L>
struct Arith;
template <typename F, typename I>
struct Arith<PeriodicChain<F, I>> {
    uint64_t n;
    explicit Arith(const PeriodicChain<F, I>& l) : n(l.size()) {}
    uint64_t add(uint64_t a, uint64_t b, uint64_t c) const { return (a + b + n - c) % n; }
    double energy(const PeriodicChain<F, I>& bz, double J, double dx, uint64_t i) const { return -2 * J * std::cos(double(bz[i]) * dx); }
};
template <typename F, typename I>
struct Arith<PeriodicSquareLattice<F, I>> {
    const PeriodicSquareLattice<F, I>& l;
    explicit Arith(const PeriodicSquareLattice<F, I>& x) : l(x) {}
    uint64_t add(uint64_t a, uint64_t b, uint64_t c) const
    {
        const auto nx = l.size_x(), ny = l.size_y();
        return l.index((l.x_index(a) + l.x_index(b) + nx - l.x_index(c)) % nx, (l.y_index(a) + l.y_index(b) + ny - l.y_index(c)) % ny);
    }
    double energy(const PeriodicSquareLattice<F, I>& bz, double J, double dx, uint64_t i) const
    {
        const auto k = bz[i];
        return -2 * J * (std::cos(double(k[0]) * dx) + std::cos(double(k[1]) * dx));
    }
};

template <typename Matrix, typename L>
void formula(const L& bz, const L& lattice, double dx, uint64_t q, double J, double U, const std::string& what)
{
    MC_CASE(what, " q=", q, " J=", J, " U=", U)
    {
        mc::distinct(mc::hash_str(mc::str(what, '/', q, '/', J, '/', U)));
        const Basis3Operator<Monomial> basis(q, bz);
        const Arith<L> ar(bz);
        const auto n = bz.size();
        const auto l = make_liouvillian(bz, lattice, J, U);
        Matrix m;
        for(int round = 0; round < 2; ++round) {
            if(round == 1) init_matrix(make_liouvillian(bz, lattice, J + 1., U + 2.), m, basis, lattice);
            init_matrix(l, m, basis, lattice);
            MC_COUNT("traces", 1);
            MC_CHECK(m.rows() == n * n + 1 && m.columns() == n * n + 1, "size ", m.rows(), 'x', m.columns());
            if(m.rows() != n * n + 1) break;
            const auto got   = liou::rows(m);
            const double tol = 3e-14 * (std::abs(J) + std::abs(U));
            auto e           = [&](uint64_t i) { return ar.energy(bz, J, dx, i); };
            liou::Row r0;
            r0[0] = e(q) + U / 2;
            for(uint64_t i = 1; i <= n * n; ++i) r0[i] = U / (2. * n);
            liou::compare(got[0], r0, tol, 0, round ? "refilled" : "matrix");
            for(uint64_t k1 = 0; k1 < n; ++k1)
                for(uint64_t k2 = 0; k2 < n; ++k2) {
                    const auto row = 1 + k1 * n + k2;
                    const auto k3  = ar.add(k1, k2, q);
                    liou::compare(got[row], liou::Row{{0, U / (2. * n)}, {row, e(k1) + e(k2) - e(k3) + U / 2}}, tol, row,
                                  round ? "refilled" : "matrix");
                    MC_COUNT("elements", 2);
                }
        }
    }
}

// projection evaluated in Fock space, compared element by element
template <typename L>
void trace(const L& bz, const L& lattice, double dx, uint64_t q, double J, double U, const std::string& what)
{
    MC_CASE("Fock space ", what, " q=", q, " J=", J, " U=", U)
    {
        mc::distinct(mc::hash_str(mc::str("f", what, '/', q, '/', J, '/', U)));
        const Basis3Operator<Monomial> basis(q, bz);
        const Arith<L> ar(bz);
        const auto n = bz.size();
        blaze::CompressedMatrix<double> m;
        init_matrix(make_liouvillian(bz, lattice, J, U), m, basis, lattice);
        MC_COUNT("traces", 1);
        liou::Sum H;
        for(uint64_t k = 0; k < n; ++k)
            for(bool up : {false, true})
                H.push_back({ar.energy(bz, J, dx, k), liou::to_fock(Word{{true, k, up}, {false, k, up}})});
        for(uint64_t k1 = 0; k1 < n; ++k1)
            for(uint64_t k2 = 0; k2 < n; ++k2)
                for(uint64_t k3 = 0; k3 < n; ++k3)
                    H.push_back({U / n, liou::to_fock(Word{{true, k1, true}, {false, k2, true}, {true, k3, false}, {false, ar.add(k1, k3, k2), false}})});
        std::vector<liou::Sum> B{{{1., liou::to_fock(Word{{true, q, true}})}}};
        for(uint64_t k1 = 0; k1 < n; ++k1)
            for(uint64_t k2 = 0; k2 < n; ++k2) {
                const auto k3 = ar.add(k1, k2, q);
                liou::Sum s{{2., liou::to_fock(Word{{true, k1, true}, {true, k2, false}, {false, k3, false}})}};
                if(k2 == k3) s.push_back({-1., liou::to_fock(Word{{true, k1, true}})});
                B.push_back(s);
            }
        const auto got = liou::rows(m);
        MC_CHECK(got.size() == B.size(), "rows ", got.size());
        for(uint64_t i = 0; i < B.size() && i < got.size(); ++i) {
            const auto o = liou::overlaps(H, B[i], B, int(2 * n));
            liou::Row want;
            for(uint64_t j = 0; j < o.size(); ++j) want[j] = o[j];
            liou::compare(got[i], want, 1e-12 * (std::abs(J) + std::abs(U)), i, "matrix");
        }
    }
}

const std::vector<std::pair<double, double>>& couplings()
{
    static const std::vector<std::pair<double, double>> v{{1, 1}, {0.5, -3}, {-2, 0.25}, {0, 1.5}, {1.25, 0}, {-0.75, 8}, {std::ldexp(1., -34), -3}, {0.5, std::ldexp(-1., -36)}, {std::ldexp(-1., -34), std::ldexp(3., -36)}};
    return v;
}

void fock_chain()
{
    for(uint64_t n = 1; n <= mc::pick(5, 6); ++n)
        for(uint64_t q = 0; q < n; ++q)
            for(auto& c : couplings()) {
                if(n > 4 && c.first != 1) continue;
                const PeriodicChain<double> bz(n), lattice(n, 1.);
                trace(bz, lattice, 1., q, c.first, c.second, mc::str("N=", n));
            }
}
void fock_square()
{
    for(auto s : std::vector<std::pair<int, int>>{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 1}, {1, 3}, {2, 3}, {3, 2}})
        for(uint64_t q = 0; q < uint64_t(s.first * s.second); ++q)
            for(auto& c : couplings()) {
                if(s.first * s.second > 4 && (c.first != 1 || !mc::thorough())) continue;
                const PeriodicSquareLattice<double> bz(s.first, s.second), lattice(s.first, s.second, 1., 1.);
                trace(bz, lattice, 1., q, c.first, c.second, mc::str(s.first, 'x', s.second));
            }
}
void chains()
{
    for(uint64_t n = 1; n <= mc::pick(32, 56); ++n)
        for(uint64_t q = 0; q < n; ++q)
            for(auto& c : couplings()) {
                const PeriodicChain<double> bz(n), lattice(n, 1.);
                formula<blaze::CompressedMatrix<double>>(bz, lattice, 1., q, c.first, c.second, mc::str("chain N=", n));
            }
    for(uint64_t n : {3, 4, 7, 10})
        for(uint64_t q = 0; q < n; ++q)
            for(auto& c : couplings()) {
                const PeriodicChain<double> bz(n), lattice(n, 1.);
                formula<blaze::CompressedMatrix<std::complex<double>>>(bz, lattice, 1., q, c.first, c.second, mc::str("complex chain N=", n));
            }
}
void squares()
{
    const auto all = mc::pick<uint64_t>(7, 9);
    for(uint64_t nx = 1; nx <= all; ++nx)
        for(uint64_t ny = 1; ny <= all; ++ny) {
            if(nx * ny > mc::pick<uint64_t>(30, 56)) continue;
            for(uint64_t q = 0; q < nx * ny; ++q)
                for(auto& c : couplings()) {
                    const PeriodicSquareLattice<double> bz(nx, ny), lattice(nx, ny, 1., 1.);
                    formula<blaze::CompressedMatrix<double>>(bz, lattice, 1., q, c.first, c.second, mc::str("square ", nx, 'x', ny));
                }
        }
}
// more basis elements than a byte or 16 bits count, other spacings of the lattice, couplings left out
void large()
{
    for(uint64_t n : {40, 260})
        for(uint64_t q : {uint64_t(0), n / 3, n - 1}) {
            const PeriodicChain<double> bz(n), lattice(n, 1.);
            formula<blaze::CompressedMatrix<double>>(bz, lattice, 1., q, 1.25, -3., mc::str("chain N=", n));
        }
    for(uint64_t q : {0, 77, 271}) {
        const PeriodicSquareLattice<double> bz(16, 17), lattice(16, 17, 1., 1.);
        formula<blaze::CompressedMatrix<double>>(bz, lattice, 1., q, 1.25, -3., "square 16x17");
    }
}
void spacings()
{
    for(uint64_t n = 1; n <= 7; ++n)
        for(double dx : {0.5, 1. / 3, 1.75})
            for(uint64_t q = 0; q < n; ++q)
                for(auto& c : couplings()) {
                    const PeriodicChain<double> bz(n), lattice(n, dx);
                    formula<blaze::CompressedMatrix<double>>(bz, lattice, dx, q, c.first, c.second, mc::str("chain N=", n, " dx=", dx));
                    const PeriodicSquareLattice<double> bz2(n, 3), lattice2(n, 3, dx, dx);
                    formula<blaze::CompressedMatrix<double>>(bz2, lattice2, dx, q, c.first, c.second, mc::str("square ", n, "x3 dx=", dx));
                }
}
void defaults()
{
    for(uint64_t n = 1; n <= 6; ++n)
        MC_CASE("default couplings, N=", n)
        {
            mc::distinct(mc::hash_str(mc::str("default/", n)));
            const PeriodicChain<double> bz(n), lattice(n, 1.);
            for(double J : {1., 0.25, -2.}) {
                const auto l = J == 1. ? make_liouvillian<double>(bz, lattice) : make_liouvillian(bz, lattice, J);
                MC_CHECK(l.U == 1., "interaction ", l.U);
                const Arith<PeriodicChain<double>> ar(bz);
                for(uint64_t k = 0; k < n; ++k)
                    MC_CHECK(mc::close(l.dispersion(k), ar.energy(bz, J, 1., k), 1e-12 * (1 + std::abs(J))), "energy ", k, " is ", l.dispersion(k));
            }
        }
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"fock_chain", fock_chain}, {"fock_square", fock_square}, {"chains", chains}, {"squares", squares}, {"large", large}, {"spacings", spacings}, {"defaults", defaults}});
}

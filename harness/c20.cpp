// C20: real space Liouvillian matrix.
#include "real_util.hpp"
#include "ieompp/models/hubbard_real_space/blaze_sparse.hpp"

using namespace bas;
using namespace ieompp::models::hubbard_real_space;

// closed form: hopping of each operator plus the interaction
template <typename L>
liou::Row expected(const L& l, uint64_t row, double J, double U)
{
    const uint64_t n = l.size();
    liou::Row r;
    if(row < n) {
        for(auto j : real::neighbors(l, row)) r[j] -= J;
        r[row] += U / 2;
        r[real::index3(n, row, row, row)] += U / 2;
        return r;
    }
    const uint64_t k = row - n, a = k / (n * n), b = k / n % n, c = k % n;
    for(auto j : real::neighbors(l, a)) r[real::index3(n, j, b, c)] -= J;
    for(auto j : real::neighbors(l, b)) r[real::index3(n, a, j, c)] -= J;
    for(auto j : real::neighbors(l, c)) r[real::index3(n, a, b, j)] += J;
    r[row] += U / 2;
    if(a == b && b == c) r[a] += U / 2;
    return r;
}

template <typename Matrix, typename L>
void formula(uint64_t nx, uint64_t ny, double J, double U, const std::string& what)
{
    MC_CASE(what, ' ', nx, 'x', ny, " J=", J, " U=", U)
    {
        mc::distinct(mc::hash_str(mc::str(what, nx, 'x', ny, '/', J, '/', U)));
        const L l        = real::make((const L*)nullptr, nx, ny);
        const uint64_t n = l.size();
        const Basis3Operator<Monomial> basis(l);
        Matrix m;
        for(int round = 0; round < 3; ++round) {
            if(round == 1) init_matrix(make_liouvillian(J + 1., U + 2.), m, basis, l);
            if(round == 2) {
                m = Matrix(n + 2, n + 1);
                for(uint64_t i = 0; i < n + 2; ++i) m.set(i, i % 2, 5.);
            }
            init_matrix(make_liouvillian(J, U), m, basis, l);
            MC_COUNT("traces", 1);
            MC_CHECK(m.rows() == basis.size() && m.columns() == basis.size(), "size ", m.rows(), 'x', m.columns());
            if(m.rows() != n + n * n * n) break;
            const auto got = liou::rows(m);
            for(uint64_t row = 0; row < got.size(); ++row) {
                liou::compare(got[row], expected(l, row, J, U), 1e-14 * (std::abs(J) + std::abs(U)), row,
                              round == 0 ? "matrix" : (round == 1 ? "refilled" : "refilled from another size"));
                MC_COUNT("rows", 1);
            }
        }
    }
}

template <typename L>
void trace(uint64_t nx, uint64_t ny, double J, double U, const std::string& what)
{
    MC_CASE("Fock space ", what, ' ', nx, 'x', ny, " J=", J, " U=", U)
    {
        mc::distinct(mc::hash_str(mc::str("f", what, nx, 'x', ny, '/', J, '/', U)));
        const L l        = real::make((const L*)nullptr, nx, ny);
        const uint64_t n = l.size();
        const Basis3Operator<Monomial> basis(l);
        blaze::CompressedMatrix<double> m;
        init_matrix(make_liouvillian(J, U), m, basis, l);
        MC_COUNT("traces", 1);
        const auto H = real::hamiltonian(l, J, U);
        std::vector<liou::Sum> B;
        for(uint64_t i = 0; i < n; ++i) B.push_back({{1., liou::to_fock(Word{{true, i, true}})}});
        for(uint64_t a = 0; a < n; ++a)
            for(uint64_t b = 0; b < n; ++b)
                for(uint64_t c = 0; c < n; ++c) {
                    liou::Sum s{{2., liou::to_fock(Word{{true, a, true}, {true, b, false}, {false, c, false}})}};
                    if(b == c) s.push_back({-1., liou::to_fock(Word{{true, a, true}})});
                    B.push_back(s);
                }
        const auto got = liou::rows(m);
        MC_CHECK(got.size() == B.size(), "rows ", got.size());
        for(uint64_t i = 0; i < B.size() && i < got.size(); ++i) {
            const auto o = liou::overlaps(H, B[i], B, int(2 * n));
            liou::Row want;
            for(uint64_t j = 0; j < o.size(); ++j) want[j] = o[j];
            liou::compare(got[i], want, 1e-12 * (std::abs(J) + std::abs(U)), i, "matrix");
        }
    }
}

void fock_chain()
{
    for(uint64_t n = 1; n <= mc::pick(4, 5); ++n)
        for(auto& c : real::couplings())
            if(n <= 3 || c.first == 1 || (n == 4 && c.first == 0.5)) trace<real::Chain>(n, 1, c.first, c.second, "chain");
}
void fock_square()
{
    for(auto s : std::vector<std::pair<int, int>>{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 1}, {1, 3}, {1, 5}})
        for(auto& c : real::couplings())
            if(s.first * s.second <= 3 || (c.first == 1 && (s.second < 5 || mc::thorough()))) trace<real::Square>(s.first, s.second, c.first, c.second, "square");
}
void chains()
{
    for(uint64_t n = 1; n <= mc::pick(18, 30); ++n)
        for(auto& c : real::couplings()) {
            formula<blaze::CompressedMatrix<double>, real::Chain>(n, 1, c.first, c.second, "chain");
            if(n < 6) formula<blaze::CompressedMatrix<std::complex<double>>, real::Chain>(n, 1, c.first, c.second, "complex chain");
        }
}
// J and U are one when not given
void defaults()
{
    for(uint64_t n : {1, 2, 3, 5})
        MC_CASE("default couplings, N=", n)
        {
            mc::distinct(mc::hash_str(mc::str("default/", n)));
            const real::Chain l(n, 1.);
            const Basis3Operator<Monomial> basis(l);
            for(double J : {1., 0.25, -2.}) {
                const auto L = J == 1. ? make_liouvillian<double>() : make_liouvillian(J);
                MC_CHECK(L.J == J && L.U == 1., "couplings ", L.J, ' ', L.U);
                blaze::CompressedMatrix<double> m;
                init_matrix(L, m, basis, l);
                const auto got = liou::rows(m);
                for(uint64_t row = 0; row < got.size(); ++row) liou::compare(got[row], expected(l, row, J, 1.), 1e-12 * (2 + std::abs(J)), row, "matrix");
            }
        }
}
// more basis elements than a 16-bit number counts
void large()
{
    formula<blaze::CompressedMatrix<double>, real::Chain>(42, 1, 0.5, 3., "chain");
    formula<blaze::CompressedMatrix<double>, real::Square>(6, 7, 0.5, 3., "square");
}
void squares()
{
    const auto all = mc::pick<uint64_t>(6, 9), sites = mc::pick<uint64_t>(18, 30);
    for(uint64_t nx = 1; nx <= all; ++nx)
        for(uint64_t ny = 1; ny <= all; ++ny)
            if(nx * ny <= sites)
                for(auto& c : real::couplings()) formula<blaze::CompressedMatrix<double>, real::Square>(nx, ny, c.first, c.second, "square");
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"fock_chain", fock_chain}, {"fock_square", fock_square}, {"chains", chains}, {"squares", squares}, {"large", large}, {"defaults", defaults}});
}

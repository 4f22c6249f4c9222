// C21: kinetic matrices in the one-operator basis.
#include "real_util.hpp"
#include "ieompp/models/hubbard_real_space/blaze_sparse.hpp"
#include "ieompp/models/hubbard_real_space/blaze_sparse_no.hpp"

using namespace bas;
using namespace ieompp::models::hubbard_real_space;

template <typename Matrix, typename L, typename F>
void matrix(const L& l, double J, double U, F fill, const std::string& what)
{
    const uint64_t n = l.size();
    const Basis1Operator<Monomial> basis(l);
    Matrix m;
    for(int round = 0; round < 3; ++round) {
        if(round == 1) fill(make_liouvillian(J + 1., U + 2.), m, basis, l);
        if(round == 2) {
            m = Matrix(n + 2, n + 1);
            for(uint64_t i = 0; i < n + 2; ++i) m.set(i, i % 2, 5.);
        }
        fill(make_liouvillian(J, U), m, basis, l);
        MC_CHECK(m.rows() == n && m.columns() == n, what, " size ", m.rows(), 'x', m.columns());
        if(m.rows() != n) return;
        const auto got = liou::rows(m);
        for(uint64_t row = 0; row < n; ++row) {
            liou::Row want;
            for(auto j : real::neighbors(l, row)) want[j] -= J;
            liou::compare(got[row], want, 1e-14 * std::abs(J), row, what);
        }
    }
}

template <typename L>
void kinetic(uint64_t nx, uint64_t ny, double J, double U, const std::string& name)
{
    MC_CASE(name, ' ', nx, 'x', ny, " J=", J)
    {
        mc::distinct(mc::hash_str(mc::str(name, nx, 'x', ny, '/', J)));
        const L l    = real::make((const L*)nullptr, nx, ny);
        auto plain   = [](const auto& a, auto& m, const auto& b, const auto& c) { init_kinetic_matrix(a, m, b, c); };
        auto ordered = [](const auto& a, auto& m, const auto& b, const auto& c) { init_kinetic_matrix_no(a, m, b, c); };
        matrix<blaze::CompressedMatrix<double>>(l, J, U, plain, "matrix");
        matrix<blaze::CompressedMatrix<double>>(l, J, U, ordered, "normal-ordered matrix");
        matrix<blaze::CompressedMatrix<std::complex<double>>>(l, J, U, plain, "complex matrix");
        matrix<blaze::CompressedMatrix<std::complex<double>>>(l, J, U, ordered, "complex normal-ordered matrix");
    }
}

void chains()
{
    for(uint64_t n = 1; n <= mc::pick(150, 400); ++n)
        for(auto& c : real::couplings()) kinetic<real::Chain>(n, 1, c.first, c.second, "chain");
}
void squares()
{
    const auto all = mc::pick<uint64_t>(14, 24);
    for(uint64_t nx = 1; nx <= all; ++nx)
        for(uint64_t ny = 1; ny <= all; ++ny)
            for(auto& c : real::couplings()) kinetic<real::Square>(nx, ny, c.first, c.second, "square");
}
void large()
{
    for(uint64_t n : {300, 70000}) kinetic<real::Chain>(n, 1, 0.5, 3., "chain");
    for(auto s : std::vector<std::pair<int, int>>{{20, 15}, {260, 270}, {2, 35000}}) kinetic<real::Square>(s.first, s.second, 0.5, 3., "square");
}
// the kinetic matrix is what the commutator with the hopping gives on every Fock state
void fock_chain()
{
    for(uint64_t n = 1; n <= mc::pick(4, 5); ++n)
        for(auto& c : real::couplings())
            MC_CASE("Fock space chain ", n, " J=", c.first)
            {
                mc::distinct(mc::hash_str(mc::str("f", n, '/', c.first)));
                const real::Chain l(n, 1.);
                const Basis1Operator<Monomial> basis(l);
                blaze::CompressedMatrix<double> m;
                init_kinetic_matrix(make_liouvillian(c.first, 0.), m, basis, l);
                const auto H = real::hamiltonian(l, c.first, 0.);
                std::vector<liou::Sum> B;
                for(uint64_t i = 0; i < n; ++i) B.push_back({{1., liou::to_fock(Word{{true, i, true}})}});
                const auto got = liou::rows(m);
                MC_CHECK(got.size() == n, "rows ", got.size());
                for(uint64_t i = 0; i < n && i < got.size(); ++i) {
                    const auto o = liou::overlaps(H, B[i], B, int(2 * n));
                    liou::Row want;
                    for(uint64_t j = 0; j < o.size(); ++j) want[j] = o[j];
                    liou::compare(got[i], want, 1e-12 * std::abs(c.first), i, "matrix");
                }
            }
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"chains", chains}, {"squares", squares}, {"fock", fock_chain}, {"large", large}});
}

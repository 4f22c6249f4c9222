// C22: Liouvillian matrix for operators normal ordered with respect to one-particle expectation values.
#include "no_util.hpp"
#include "ieompp/models/hubbard_real_space/blaze_sparse_no.hpp"

using namespace bas;
using no::expected;
using namespace ieompp::models::hubbard_real_space;

// a symmetric, translation invariant table: value by periodic distance
struct Table {
    uint64_t nx, ny;
    std::vector<double> v; // by (dx, dy)
    double operator()(uint64_t a, uint64_t b) const { return v[dist(a, b)]; }
    std::function<uint64_t(uint64_t, uint64_t)> dist;
};

inline uint64_t ring(uint64_t a, uint64_t b, uint64_t n)
{
    const auto d = (a + n - b) % n;
    return std::min(d, n - d);
}
Table table(const real::Chain& l, int which)
{
    const uint64_t n = l.size();
    Table t{n, 1, {}, {}};
    for(uint64_t d = 0; d <= n / 2; ++d) t.v.push_back(double((7 * d * d + 3 * which * d + 5 * (which + 1)) % 16) / 16. - (d ? 0.4375 : 0.));
    t.dist = [n](uint64_t a, uint64_t b) { return ring(a, b, n); };
    return t;
}
Table table(const real::Square& l, int which)
{
    const uint64_t nx = l.size_x(), ny = l.size_y();
    Table t{nx, ny, {}, {}};
    const uint64_t w = ny / 2 + 1;
    for(uint64_t x = 0; x <= nx / 2; ++x)
        for(uint64_t y = 0; y < w; ++y) t.v.push_back(double((7 * x * x + 5 * y + 3 * x * y + 3 * which * (x + y) + 5 * (which + 1)) % 16) / 16. - (x + y ? 0.4375 : 0.));
    t.dist = [&l, nx, ny, w](uint64_t a, uint64_t b) {
        return ring(l.x_index(a), l.x_index(b), nx) * w + ring(l.y_index(a), l.y_index(b), ny);
    };
    return t;
}

template <typename Matrix, typename L>
void matrix(uint64_t nx, uint64_t ny, int which, double J, double U, const std::string& what)
{
    MC_CASE(what, ' ', nx, 'x', ny, " table ", which, " J=", J, " U=", U)
    {
        mc::distinct(mc::hash_str(mc::str(what, nx, 'x', ny, '/', which, '/', J, '/', U)));
        const L l        = real::make((const L*)nullptr, nx, ny);
        const uint64_t n = l.size();
        const Table t    = table(l, which), other = table(l, which + 1);
        const Basis3Operator<Monomial> basis(l);
        const no::Fn fn = [&t](uint64_t a, uint64_t b) { return t(a, b); }, fn2 = [&other](uint64_t a, uint64_t b) { return other(a, b); };
        const bool two = n <= 5; // the matrix in between is checked as well
        std::vector<liou::Row> first, second;
        for(uint64_t row = 0; row < basis.size(); ++row) {
            first.push_back(expected(l, fn, row, J, U));
            if(two) second.push_back(expected(l, fn2, row, J + 1., U - 2.));
        }
        Matrix m;
        for(int round = 0; round < 3; ++round) {
            if(round == 1)
                init_matrix_no(make_liouvillian(J + 1., U - 2.), m, basis, l, other);
            else
                init_matrix_no(make_liouvillian(J, U), m, basis, l, t);
            if(round == 1 && !two) continue;
            const auto& want = round == 1 ? second : first;
            MC_COUNT("traces", 1);
            MC_CHECK(m.rows() == basis.size() && m.columns() == basis.size(), "size ", m.rows(), 'x', m.columns());
            if(m.rows() != want.size()) break;
            const auto got = liou::rows(m);
            for(uint64_t row = 0; row < want.size() && !mc::S().stop; ++row)
                liou::compare(got[row], want[row], 1e-14 * (4 * std::abs(J) + std::abs(U)), row, round ? "refilled" : "matrix");
        }
    }
}

template <typename Matrix, typename L>
void all(uint64_t nx, uint64_t ny, const std::string& what)
{
    for(int which = 0; which < 3; ++which)
        for(auto& c : real::couplings()) matrix<Matrix, L>(nx, ny, which, c.first, c.second, what);
}
using RealM    = blaze::CompressedMatrix<double>;
using ComplexM = blaze::CompressedMatrix<std::complex<double>>;

void chains()
{
    for(uint64_t n = 1; n <= mc::pick(9, 12); ++n) all<RealM, real::Chain>(n, 1, "chain");
    all<ComplexM, real::Chain>(3, 1, "complex chain");
}
void squares()
{
    for(uint64_t nx = 1; nx <= mc::pick(4, 5); ++nx)
        for(uint64_t ny = 1; ny <= mc::pick(4, 5); ++ny)
            if(nx * ny <= mc::pick(8, 12)) all<RealM, real::Square>(nx, ny, "square");
}
void large()
{
    const std::vector<uint64_t> sizes{20, 42};
    for(auto n : sizes) matrix<RealM, real::Chain>(n, 1, 1, 0.5, 3., "chain");
    matrix<RealM, real::Square>(4, 5, 1, 0.5, 3., "square");
    matrix<RealM, real::Square>(6, 7, 1, 0.5, 3., "square");
}

int main(int argc, char** argv) { return mc::run(argc, argv, {{"chains", chains}, {"squares", squares}, {"large", large}}); }

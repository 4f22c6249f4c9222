// C45: the parts a simulation program is set up from. SETUP selects which of the exclusive headers is
// built in: 1, 2 three-operator basis on chain and square; 3, 4 one-operator basis; 5, 6 normal ordered
// matrix on chain and square; 7 momentum space.
#include <cassert>
#include <complex>
#include <iterator>
#include "common.hpp"
#include "vector.hpp"
#include "rk4.hpp"
#include "real_util.hpp"
#include "lattice_util.hpp"
#include "sim_model.hpp"
#if SETUP == 7
#include "src/hubbard/momentum_space/momentum_space_1d.hpp"
#include "ieompp/models/hubbard_momentum_space/liouvillian.hpp"
#else
#include "no_util.hpp"
#if SETUP == 3 || SETUP == 4
#include "src/hubbard/real_space/basis1.hpp"
#else
#include "src/hubbard/real_space/basis3.hpp"
#endif
#if SETUP % 2
#include "src/hubbard/real_space/expectation_value_1d.hpp"
#include "src/hubbard/real_space/periodic_chain.hpp"
using Lat = real::Chain;
#else
#include "src/hubbard/real_space/expectation_value_2d.hpp"
#include "src/hubbard/real_space/periodic_square_lattice.hpp"
using Lat = real::Square;
#endif
#if SETUP < 5
#include "src/hubbard/real_space/matrix.hpp"
#if SETUP == 1
#include "src/hubbard/real_space/fermi_jump.hpp"
#endif
#else
#include "src/hubbard/real_space/matrix_no.hpp"
#if SETUP == 5
#include "src/hubbard/real_space/fermi_jump_no.hpp"
#endif
#endif
#include "src/hubbard/real_space/liouvillian.hpp"
#include "src/hubbard/real_space/site_occupation.hpp"
#endif

#include <dirent.h>

using CD = std::complex<double>;

static std::string base; // scratch directory

template <typename T>
T real_or_complex(double re, double im);
template <>
double real_or_complex<double>(double re, double) { return re; }
template <>
CD real_or_complex<CD>(double re, double im) { return {re, im}; }

// elements of a complex matrix, i times a real matrix
template <typename Matrix>
void compare(const Matrix& m, const std::vector<liou::Row>& want, double tol, const char* what)
{
    MC_CHECK(m.rows() == want.size() && m.columns() == want.size(), what, " has ", m.rows(), 'x', m.columns(), " elements instead of ", want.size());
    if(m.rows() != want.size()) return;
    MC_COUNT("traces", 1);
    for(std::size_t i = 0; i < want.size(); ++i) {
        auto w = want[i];
        for(auto it = m.begin(i); it != m.end(i); ++it) {
            const CD got = it->value();
            double x     = 0;
            const auto f = w.find(it->index());
            if(f != w.end()) {
                x = f->second;
                w.erase(f);
            }
            MC_CHECK(std::abs(got - CD(0, x)) <= tol, what, " element ", i, ',', it->index(), " is ", got, " instead of ", CD(0, x));
            MC_COUNT("states", 1);
        }
        for(auto& x : w) MC_CHECK(std::abs(x.second) <= tol, what, " lacks element ", i, ',', x.first, ": ", x.second);
    }
}
template <typename Basis>
void common(const Basis& basis)
{
    const auto v = init_vector(basis);
    MC_CHECK(v.size() == basis.size(), "vector of ", v.size(), " elements for a basis of ", basis.size());
    for(std::size_t i = 0; i < v.size(); ++i) MC_CHECK(v[i] == CD(i == 0), "element ", i, " of the initial vector is ", v[i]);
    for(double dt : {0.01, 0.5, 1e-300, 3.}) {
        const auto rk = init_rk4(basis.size(), dt);
        MC_CHECK(rk.step_size() == dt && rk.dimension() == basis.size(), "integrator with step ", rk.step_size(), " and dimension ", rk.dimension(), " instead of ", dt, ", ", basis.size());
    }
    const auto f = init_rk4<float>(basis.size() + 1, 0.1f);
    MC_CHECK(f.step_size() == 0.1f && f.dimension() == basis.size() + 1, "integrator of single precision");
}

#if SETUP == 7
// matrices of every pattern, written over every earlier one
template <typename T, bool SO>
void written(const char* what)
{
    using Matrix = blaze::CompressedMatrix<T, SO>;
    auto value   = [](uint64_t i, uint64_t j) { return real_or_complex<T>(0.1 * double(i + 1) - double(j), 1. / double(1 + i + 2 * j)); };
    auto fill    = [&](uint64_t rows, uint64_t columns, uint64_t pattern) {
        Matrix m(rows, columns);
        for(uint64_t k = 0; k < rows * columns; ++k)
            if(pattern >> k & 1) m.set(k / columns, k % columns, value(k / columns, k % columns));
        return m;
    };
    const std::vector<std::pair<uint64_t, uint64_t>> sizes{{1, 1}, {1, 3}, {2, 2}, {3, 1}, {2, 3}, {3, 3}, {0, 0}};
    for(auto s : sizes)
        for(uint64_t pattern = 0; pattern < 1ull << s.first * s.second; ++pattern)
            for(int earlier = 0; earlier < 3; ++earlier)
                MC_CASE(what, ' ', s.first, 'x', s.second, " pattern ", pattern, " over ", earlier)
                {
                    mc::distinct(mc::hash_str(mc::str(what, '/', s.first, 'x', s.second, '/', pattern, '/', earlier)));
                    const std::string path = base + "/m.blaze";
                    if(earlier == 1) write_matrix_file(path, fill(4, 4, 0xffff));
                    if(earlier == 2) write_matrix_file(path, blaze::CompressedMatrix<double>(5, 1));
                    const auto m = fill(s.first, s.second, pattern);
                    write_matrix_file(path, m);
                    // the file is complete as soon as the call returns, and holds nothing else
                    std::ifstream f(path, std::ios::binary);
                    blaze::Archive<std::ifstream> archive(f);
                    Matrix r(2, 7);
                    try {
                        archive >> r;
                    } catch(const std::exception& e) {
                        MC_CHECK(false, "the file cannot be read back: ", e.what());
                    }
                    MC_CHECK(f.peek() == std::char_traits<char>::eof(), "the file goes on behind the matrix");
                    MC_CHECK(r.rows() == s.first && r.columns() == s.second && r.nonZeros() == m.nonZeros(), "read back ", r.rows(), 'x', r.columns(), " with ", r.nonZeros(), " elements");
                    if(r.rows() == s.first && r.columns() == s.second)
                        for(uint64_t k = 0; k < s.first * s.second; ++k) {
                            const uint64_t i = k / s.second, j = k % s.second;
                            const T want = pattern >> k & 1 ? value(i, j) : T();
                            MC_CHECK(T(static_cast<const Matrix&>(r)(i, j)) == want, "element ", i, ',', j);
                        }
                    std::vector<std::string> names;
                    if(DIR* d = ::opendir(base.c_str())) {
                        while(auto* e = ::readdir(d))
                            if(e->d_name[0] != '.') names.push_back(e->d_name);
                        ::closedir(d);
                    }
                    MC_CHECK(names == std::vector<std::string>{"m.blaze"}, names.size(), " files in the directory");
                    MC_COUNT("traces", 1);
                    ::unlink(path.c_str());
                }
}
void files()
{
    written<double, blaze::rowMajor>("real");
    written<CD, blaze::rowMajor>("complex");
    written<double, blaze::columnMajor>("real by columns");
    written<CD, blaze::columnMajor>("complex by columns");
}
void setup()
{
    for(uint64_t n = 2; n <= mc::pick(8, 12); n += 2)
        for(auto& c : real::couplings())
            for(int earlier = 0; earlier < 2; ++earlier)
                MC_CASE("N=", n, " J=", c.first, " U=", c.second, " earlier ", earlier)
                {
                    mc::distinct(mc::hash_str(mc::str(n, '/', c.first, '/', c.second, '/', earlier)));
                    namespace model = ieompp::models::hubbard_momentum_space;
                    if(earlier) {
                        const BrillouinZone z(4);
                        const Lattice l(4, 1.);
                        compute_matrix(model::make_liouvillian(z, l, 7., 3.), model::Basis3Operator<Monomial>(1, z), l);
                    }
                    const BrillouinZone zone(n);
                    const Lattice lattice(n, 1.);
                    const auto first = init_basis<Basis3>(zone);
                    MC_CHECK(first.size() == 1 + n * n, "basis of ", first.size(), " elements");
                    common(first);
                    const auto L = model::make_liouvillian(zone, lattice, c.first, c.second);
                    const double tol = 1e-11 * (1 + std::abs(c.first) + std::abs(c.second));
                    for(uint64_t q = 0; q < n; ++q) {
                        const model::Basis3Operator<Monomial> basis(q, zone);
                        if(q == 0)
                            for(uint64_t i = 0; i < basis.size(); ++i) MC_CHECK(first[i] == basis[i], "basis element ", i, " of the helper");
                        compare(compute_matrix(L, basis, lattice), sim::momentum(n, q, c.first, c.second), tol, "matrix");
                    }
                }
}
#else
Lat make(uint64_t nx, uint64_t ny, double dx, double dy)
{
#if SETUP % 2
    (void)ny, (void)dy;
    return init_lattice(nx, dx);
#else
    return init_lattice(nx, ny, dx, dy);
#endif
}
bool square() { return SETUP % 2 == 0; }
std::vector<std::pair<uint64_t, uint64_t>> sizes()
{
    std::vector<std::pair<uint64_t, uint64_t>> v;
    const uint64_t m = SETUP == 3 || SETUP == 4 ? mc::pick(9, 16) : SETUP < 5 ? mc::pick(6, 8) : mc::pick(5, 7);
    for(uint64_t n = 1; n <= m; ++n)
        if(square()) {
            for(uint64_t x = 1; x <= n; ++x)
                if(n % x == 0) v.push_back({x, n / x});
        } else
            v.push_back({n, 1});
    return v;
}
// the objects a program is set up from
void objects()
{
    for(auto s : sizes())
        for(auto& c : real::couplings())
            for(double filling : square() ? std::vector<double>{0.5} : std::vector<double>{0.5, 0.25, 0.8})
                for(int earlier = 0; earlier < 2; ++earlier)
                    MC_CASE(s.first, 'x', s.second, " J=", c.first, " U=", c.second, " filling ", filling, " earlier ", earlier)
                    {
                        mc::distinct(mc::hash_str(mc::str(s.first, 'x', s.second, '/', c.first, '/', c.second, '/', filling, '/', earlier)));
                        const double J = c.first, U = c.second;
                        if(earlier) { // another set-up before this one leaves nothing behind
                            const auto l = make(2, 1, 3., 0.5);
                            const auto b = init_basis(l);
                            init_liouvillian(9., -4.);
                            init_vector(b)[0] = 5.;
                            init_rk4(b.size(), 7.);
                        }
                        const auto l = make(s.first, s.second, 1., 1.);
                        const uint64_t n = s.first * s.second;
                        MC_CHECK(l.size() == n, "lattice of ", l.size(), " sites");
                        const auto basis = init_basis(l);
                        const uint64_t dim = SETUP == 3 || SETUP == 4 ? n : n + n * n * n;
                        MC_CHECK(basis.size() == dim && basis.N == n, "basis of ", basis.size(), " elements on ", basis.N, " sites");
                        const Basis direct(l);
                        for(uint64_t i = 0; i < dim; ++i) MC_CHECK(basis[i] == direct[i], "basis element ", i);
                        common(basis);
                        const auto L = init_liouvillian(J, U), K = init_liouvillian(J);
                        MC_CHECK(L.J == J && L.U == U, "Liouvillian with J=", L.J, " U=", L.U);
                        MC_CHECK(K.J == J && K.U == 0., "kinetic Liouvillian with J=", K.J, " U=", K.U);
                        const double tol = 1e-11 * (1 + std::abs(J) + std::abs(U));
#if SETUP % 2
                        const auto ev    = init_expectation_value(l, filling);
                        const auto table = sim::chain_table(n, filling);
#else
                        const auto ev    = init_expectation_value(l);
                        const auto table = sim::square_table(s.first, s.second);
#endif
                        for(uint64_t a = 0; a < n; ++a)
                            for(uint64_t b = 0; b < n; ++b)
                                MC_CHECK(mc::close(ev(a, b), table(a, b), 1e-12), "expectation value ", a, ',', b, " is ", ev(a, b), " instead of ", table(a, b));
#if SETUP == 3 || SETUP == 4
                        compare(compute_kinetic_matrix(L, basis, l), sim::basis1(l, J), tol, "kinetic matrix");
                        compare(compute_kinetic_matrix(K, basis, l), sim::basis1(l, J), tol, "kinetic matrix");
                        const auto model = wick::basis1(n);
#elif SETUP < 3
                        compare(compute_matrix(L, basis, l), sim::basis3(l, J, U), tol, "matrix");
                        compare(compute_matrix(K, basis, l), sim::basis3(l, J, 0.), tol, "matrix without interaction");
                        const auto model = wick::basis3(n);
#else
                        const no::Fn f = [&](uint64_t a, uint64_t b) { return table(a, b); };
                        std::vector<liou::Row> want;
                        for(uint64_t i = 0; i < dim; ++i) want.push_back(no::expected(l, f, i, J, U));
                        compare(compute_matrix(L, basis, l, ev), want, tol, "normal ordered matrix");
#endif
                        // observables for a few vectors
                        std::vector<std::vector<sim::C>> vectors(3, std::vector<sim::C>(dim));
                        for(uint64_t i = 0; i < dim; ++i) {
                            vectors[0][i] = i == 0;
                            vectors[1][i] = sim::C(double((7 * i + 3) % 8) / 8 - 0.5, double((5 * i * i + 1) % 8) / 8 - 0.5);
                            vectors[2][i] = sim::C(i == dim - 1, i == dim / 2);
                        }
                        const auto conjugate = basis.get_conjugate();
                        const auto occupation = init_site_occupation(basis, conjugate, ev);
                        for(auto& h : vectors) {
                            blaze::DynamicVector<CD> v(dim);
                            for(uint64_t i = 0; i < dim; ++i) v[i] = CD(h[i]);
                            double scale = 1;
                            for(auto& x : h) scale += double(std::abs(x));
                            scale *= scale;
#if SETUP < 5
                            if(n <= 4 || SETUP > 2) {
                                const double want = sim::occupation(h, mc::str(s.first, 'x', s.second, '/', filling), table, model), got = occupation(v);
                                MC_CHECK(mc::close(got, want, 1e-11 * scale), "occupation ", got, " instead of ", want);
                            }
#endif
#if SETUP == 1
                            const auto jump = init_fermi_jump(basis, l, ev, filling);
                            const double want = sim::jump(h, table, [&](uint64_t i) { return lat::pi * filling * l[i]; }), got = jump(v);
                            MC_CHECK(mc::close(got, want, 1e-10 * scale * n * n), "jump ", got, " instead of ", want);
#elif SETUP == 5
                            const auto jump = init_fermi_jump(basis, l, ev);
                            sim::C sum = 0;
                            for(uint64_t i = 0; i < n; ++i) sum += std::polar(1.L, lat::pi / 2 * l[i]) * h[i];
                            const double want = double(std::norm(sum)), got = jump(v);
                            MC_CHECK(mc::close(got, want, 1e-10 * scale * n), "jump ", got, " instead of ", want);
#endif
                            MC_COUNT("states", 1);
                        }
                    }
}
void lattices()
{
    for(auto s : sizes())
        for(double dx : {1., 0.5, -2.})
            for(double dy : {1., 0.25}) {
                if(!square() && dy != 1.) continue;
                MC_CASE(s.first, 'x', s.second, ' ', dx, ' ', dy)
                {
                    mc::distinct(mc::hash_str(mc::str(s.first, 'x', s.second, '/', dx, '/', dy)));
                    const auto l = make(s.first, s.second, dx, dy);
#if SETUP % 2
                    const Lat d(s.first, dx);
                    MC_CHECK(l.size() == d.size() && l.dx() == dx, "chain of ", l.size(), " sites with spacing ", l.dx());
                    const auto plain = init_lattice(s.first);
                    MC_CHECK(plain.size() == s.first && plain.dx() == 1., "chain with spacing ", plain.dx());
                    for(uint64_t i = 0; i < d.size(); ++i) MC_CHECK(l[i] == d[i], "position of site ", i);
#else
                    const Lat d(s.first, s.second, dx, dy);
                    MC_CHECK(l.size_x() == s.first && l.size_y() == s.second && l.dx() == dx && l.dy() == dy, "square lattice ", l.size_x(), 'x', l.size_y(), ' ', l.dx(), ' ', l.dy());
                    const auto plain = init_lattice(s.first, s.second);
                    MC_CHECK(plain.size_x() == s.first && plain.size_y() == s.second && plain.dx() == 1. && plain.dy() == 1., "square lattice with spacings ", plain.dx(), ' ', plain.dy());
                    for(uint64_t i = 0; i < d.size(); ++i) MC_CHECK(l[i][0] == d[i][0] && l[i][1] == d[i][1], "position of site ", i);
#endif
                }
            }
}
#endif

int main(int argc, char** argv)
{
    char tmpl[] = "c45-XXXXXX";
    base        = ::mkdtemp(tmpl);
    get_loggers().init(base + "/log.log");
    ::unlink((base + "/log.log").c_str());
    std::atexit([] { ::rmdir(base.c_str()); });
#if SETUP == 7
    return mc::run(argc, argv, {{"files", files}, {"setup", setup}});
#else
    return mc::run(argc, argv, {{"objects", objects}, {"lattices", lattices}});
#endif
}

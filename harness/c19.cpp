// C19: particle number as the quadratic form of the tabulated expectation values.
#include "sea_util.hpp"
#include "ieompp/models/hubbard/dispersion.hpp"
#include "ieompp/models/hubbard_momentum_space/particle_number.hpp"

using namespace bas;
using namespace ieompp::lattices;
using namespace ieompp::models::hubbard_momentum_space;
using Basis  = Basis3Operator<Monomial>;
using C      = std::complex<double>;
using Number = ParticleNumber<double, Basis>;
using Values = NonVanishingExpectationValues<uint64_t, double>;

C model(const Values& t, const std::vector<C>& h)
{
    C s = 0;
    for(auto& e : t) s += e.value * h[e.left_index] * std::conj(h[e.right_index]);
    return s;
}

struct Sys {
    Basis basis, conj;
    Values own; // a table built separately from the observable
    Number direct, made;
    template <typename B, typename D>
    Sys(const B& bz, uint64_t q, const D& d, double fermi)
        : basis(q, bz), conj(basis.get_conjugate()), own(basis, conj, d, fermi), direct(basis, conj, d, fermi),
          made(make_particle_number(basis, conj, d, fermi))
    {
    }
};

blaze::DynamicVector<C> to_blaze(const std::vector<C>& v)
{
    blaze::DynamicVector<C> r(v.size());
    for(std::size_t i = 0; i < v.size(); ++i) r[i] = v[i];
    return r;
}

void observe(const Sys& s, const std::vector<C>& h, const Sys* other = nullptr)
{
    const auto want = model(s.own, h);
    const auto want2 = model(s.direct.non_vanishing_expectation_values, h);
    const double a = s.direct(h), b = s.made(to_blaze(h));
    if(other) {
        std::vector<C> ones(other->basis.size(), C(1, -1));
        other->direct(ones);
        const double again = s.direct(h);
        MC_CHECK(again == a, "after another evaluation ", again, " instead of ", a);
    }
    MC_COUNT("traces", 1);
    MC_COUNT("transitions", 3);
    MC_CHECK(want.imag() == 0., "the table is not symmetric: quadratic form ", want);
    MC_CHECK(want == want2, "own table gives ", want2, " expected ", want);
    MC_CHECK(a == want.real(), "particle number ", a, " expected ", want.real());
    MC_CHECK(b == want.real(), "particle number of a blaze vector ", b, " expected ", want.real());
    // small and large coefficients
    for(int e : {-60, 40}) {
        auto g = h;
        for(auto& x : g) x *= std::ldexp(1., e);
        const double c = std::ldexp(s.direct(g), -2 * e);
        MC_CHECK(c == want.real(), "particle number of the vector times 2^", e, " is 2^", 2 * e, " times ", c, " expected ", want.real());
    }
}

// all dense vectors over a small alphabet for small bases; unit vectors and their sums for all
void vectors(const Sys& s, const Sys& other, const std::string& what, bool dense)
{
    const auto n = s.basis.size();
    for(uint64_t i = 0; i < n; ++i)
        for(uint64_t j = i; j < n; ++j)
            MC_CASE(what, " components ", i, ' ', j)
            {
                mc::distinct(mc::hash_str(mc::str(what, '/', i, '/', j)));
                for(auto x : {C(1, 0), C(0, 1), C(-2, 1)})
                    for(auto y : {C(1, 0), C(0, 1), C(3, -1)}) {
                        std::vector<C> h(n, C());
                        h[i] += x;
                        h[j] += y;
                        observe(s, h, &other);
                    }
            }
    const std::vector<C> letters{{0, 0}, {1, 0}, {0, 1}, {-1, 2}};
    if(dense && n <= 5) {
        uint64_t all = 1;
        for(uint64_t i = 0; i < n; ++i) all *= letters.size();
        for(uint64_t x = 0; x < all; ++x)
            MC_CASE(what, " dense vector ", x)
            {
                mc::distinct(mc::hash_str(mc::str(what, "/d", x)));
                std::vector<C> h(n);
                uint64_t r = x;
                for(auto& e : h) {
                    e = letters[r % letters.size()];
                    r /= letters.size();
                }
                observe(s, h);
            }
    } else {
        for(uint64_t x = 1; x < 30; ++x)
            MC_CASE(what, " dense vector ", x)
            {
                mc::distinct(mc::hash_str(mc::str(what, "/d", x)));
                std::vector<C> h(n);
                for(uint64_t i = 0; i < n; ++i) h[i] = C(double((i * x * x + 3 * i + x) % 7) - 3, double((i * i * x + x) % 5) - 2);
                observe(s, h, &other);
            }
    }
}

void chains(uint64_t from, uint64_t to)
{
    for(uint64_t n = from; n <= to; ++n) {
        const PeriodicChain<double> bz(n);
        for(uint64_t q = 0; q < n; ++q)
            for(uint64_t pattern = 0; pattern < (n <= 3 ? (uint64_t(1) << n) : 1); ++pattern) {
                sea::Table d;
                double fermi = 0;
                if(n <= 3) {
                    for(uint64_t k = 0; k < n; ++k) d.e.push_back(((pattern >> k) & 1) ? -1. : 1.);
                } else {
                    for(uint64_t k = 0; k < n; ++k) d.e.push_back(-2 * std::cos(double(bz[k])));
                    fermi = 0.125;
                }
                const Sys s(bz, q, d, fermi), other(bz, (q + 1) % n, d, fermi);
                vectors(s, other, mc::str("N=", n, " q=", q, " sea ", pattern), true);
            }
    }
}
void squares()
{
    for(auto s : std::vector<std::pair<int, int>>{{1, 2}, {2, 2}, {2, 3}, {3, 2}, {4, 1}, {2, 4}}) {
        const PeriodicSquareLattice<double> bz(s.first, s.second), lattice(s.first, s.second, 1., 1.);
        const auto d = ieompp::models::hubbard::make_dispersion(bz, lattice, 1.);
        for(uint64_t q = 0; q < uint64_t(s.first * s.second); ++q)
            for(double fermi : {0.125, -1.5}) {
                const Sys x(bz, q, d, fermi), other(bz, 0, d, -5.);
                vectors(x, other, mc::str(s.first, 'x', s.second, " q=", q, " Fermi energy ", fermi), false);
            }
    }
}
// bases of more elements than a byte counts; Fermi energies that single precision does not tell from a level
void wide()
{
    std::vector<uint64_t> sizes{16, 17};
    if(mc::thorough()) sizes.insert(sizes.end(), {12, 20, 24});
    for(auto n : sizes)
        for(uint64_t q = 0; q < n; q += 3)
            MC_CASE("N=", n, " q=", q)
            {
                mc::distinct(mc::hash_str(mc::str("w", n, '/', q)));
                const PeriodicChain<double> bz(n);
                sea::Table d;
                for(uint64_t k = 0; k < n; ++k) d.e.push_back(-2 * std::cos(double(bz[k])));
                const Sys s(bz, q, d, 0.125);
                const auto size = s.basis.size();
                for(uint64_t x = 1; x < 12; ++x) {
                    std::vector<C> h(size);
                    for(uint64_t i = 0; i < size; ++i) h[i] = C(double((i * x * x + 3 * i + x) % 7) - 3, double((i * i * x + x) % 5) - 2);
                    observe(s, h);
                }
                for(uint64_t i = 0; i < size; i += 7) {
                    std::vector<C> h(size, C());
                    h[i] = C(2, 1);
                    h[(i * 31 + 5) % size] += C(-1, 3);
                    observe(s, h);
                }
            }
}
void edges()
{
    for(uint64_t n = 1; n <= 4; ++n)
        for(double fermi : {0.7, -1. / 3, 1e-3, 12.3})
            for(double width : {1e-9, 1e-13})
                for(uint64_t pattern = 0; pattern < (uint64_t(1) << n); ++pattern)
                    for(uint64_t q = 0; q < n; ++q) {
                        const PeriodicChain<double> bz(n);
                        sea::Table d, clear;
                        for(uint64_t k = 0; k < n; ++k) {
                            const bool in = (pattern >> k) & 1;
                            d.e.push_back(fermi + (in ? -width : width) * std::max(1., std::abs(fermi)));
                            clear.e.push_back(in ? -1. : 1.);
                        }
                        MC_CASE("N=", n, " q=", q, " Fermi energy ", fermi, " levels ", width, " away, sea ", pattern)
                        {
                            mc::distinct(mc::hash_str(mc::str("e", n, '/', q, '/', fermi, '/', width, '/', pattern)));
                            const Sys s(bz, q, d, fermi), t(bz, q, clear, 0.);
                            for(uint64_t i = 0; i < s.basis.size(); ++i) {
                                std::vector<C> h(s.basis.size(), C());
                                h[i] = C(2, 1);
                                h[(i * 5 + 2) % h.size()] += C(-1, 3);
                                observe(s, h);
                                MC_CHECK(s.direct(h) == t.direct(h), "particle number ", s.direct(h), " instead of ", t.direct(h));
                            }
                        }
                    }
}
void small() { chains(1, 3); }
void medium() { chains(4, 6); }
void large() { chains(7, mc::pick(8, 11)); }

int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"small", small}, {"medium", medium}, {"large", large}, {"squares", squares}, {"wide", wide}, {"edges", edges}});
}

// C14: momentum space basis.
#include "basis_util.hpp"
#include "ieompp/models/hubbard_momentum_space/basis.hpp"

using namespace bas;
using namespace ieompp::lattices;
using namespace ieompp::models::hubbard_momentum_space;

// third(i1, i2, q): index of k1 + k2 - q
template <typename M, typename L, typename F>
void check_basis(const L& bz, uint64_t n, uint64_t q, F third, const std::string& what)
{
    MC_CASE(what, " q=", q)
    {
        mc::distinct(mc::hash_str(mc::str(what, '/', q)));
        const Basis3Operator<M> basis(q, bz);
        MC_CHECK(basis.N == n, "N ", basis.N);
        MC_CHECK(basis.size() == n * n + 1, "size ", basis.size());
        const auto conj = basis.get_conjugate();
        MC_CHECK(conj.size() == basis.size() && conj.N == n, "size of the conjugate basis ", conj.size());
        auto inplace = basis;
        inplace.conjugate();
        MC_CHECK(inplace.size() == basis.size(), "size of the basis conjugated in place ", inplace.size());
        std::vector<bool> seen(basis.size(), false);
        auto element = [&](uint64_t i, const Word& w) {
            MC_CHECK(i < basis.size() && !seen[i], "index ", i, " twice or out of range");
            if(!(i < basis.size())) return;
            seen[i] = true;
            MC_CHECK(word(basis[i]) == w, "element ", i, " is ", word(basis[i]), " expected ", w);
            MC_CHECK(word(conj[i]) == dagger(w), "conjugate element ", i, " is ", word(conj[i]));
            MC_CHECK(word(inplace[i]) == dagger(w), "element ", i, " conjugated in place is ", word(inplace[i]));
        };
        element(0, Word{{true, q, true}});
        for(uint64_t i1 = 0; i1 < n; ++i1)
            for(uint64_t i2 = 0; i2 < n; ++i2)
                element(basis.get_3op_index(i1, i2),
                        Word{{true, i1, true}, {true, i2, false}, {false, third(i1, i2, q), false}});
        inplace.conjugate();
        for(uint64_t i = 0; i < basis.size(); ++i)
            MC_CHECK(word(inplace[i]) == word(basis[i]), "element ", i, " conjugated twice is ", word(inplace[i]));
    }
}

template <typename M, typename F>
void chains(uint64_t all, const std::string& name)
{
    for(uint64_t n = 1; n <= all; ++n) {
        const PeriodicChain<F> bz(n);
        for(uint64_t q = 0; q < n; ++q)
            check_basis<M>(bz, n, q, [n](uint64_t a, uint64_t b, uint64_t c) { return (a + b + n - c) % n; }, mc::str(name, " N=", n));
    }
}

template <typename M>
void squares(uint64_t all, uint64_t sites)
{
    for(uint64_t nx = 1; nx <= all; ++nx)
        for(uint64_t ny = 1; ny <= all; ++ny) {
            if(nx * ny > sites) continue;
            const PeriodicSquareLattice<double> bz(nx, ny);
            for(uint64_t q = 0; q < nx * ny; ++q)
                check_basis<M>(bz, nx * ny, q,
                               [&](uint64_t a, uint64_t b, uint64_t c) {
                                   return uint64_t(bz.index((bz.x_index(a) + bz.x_index(b) + nx - bz.x_index(c)) % nx,
                                                            (bz.y_index(a) + bz.y_index(b) + ny - bz.y_index(c)) % ny));
                               },
                               mc::str("square ", nx, "x", ny));
        }
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
                   {{"chain", [] { chains<Monomial, double>(mc::pick(48, 90), "chain"); }},
                    {"large", [] {
                         for(uint64_t n : {256, 300}) {
                             const PeriodicChain<double> bz(n);
                             for(uint64_t q : {uint64_t(0), uint64_t(1), n / 2, n - 1})
                                 check_basis<Monomial>(bz, n, q, [n](uint64_t a, uint64_t b, uint64_t c) { return (a + b + n - c) % n; }, mc::str("chain N=", n));
                         }
                         const PeriodicSquareLattice<double> bz(20, 15);
                         for(uint64_t q : {0, 17, 299})
                             check_basis<Monomial>(bz, 300, q,
                                                   [&](uint64_t a, uint64_t b, uint64_t c) {
                                                       return uint64_t(bz.index((bz.x_index(a) + bz.x_index(b) + 20 - bz.x_index(c)) % 20,
                                                                                (bz.y_index(a) + bz.y_index(b) + 15 - bz.y_index(c)) % 15));
                                                   },
                                                   "square 20x15");
                     }},
                    {"chain_ldouble", [] { chains<Monomial, long double>(mc::pick(24, 50), "chain<long double>"); }},
                    {"square", [] { squares<Monomial>(mc::pick(10, 12), mc::pick(30, 42)); }}});
}

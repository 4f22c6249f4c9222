// C15: real space bases.
#include "basis_util.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"

using namespace bas;
using namespace ieompp::lattices;
using namespace ieompp::models::hubbard_real_space;

template <typename B>
void compare(const B& basis, const B& conj, uint64_t i, const Word& w, std::vector<bool>& seen)
{
    MC_CHECK(i < basis.size() && !seen[i], "index ", i, " twice or out of range");
    if(i >= basis.size()) return;
    seen[i] = true;
    MC_CHECK(word(basis[i]) == w, "element ", i, " is ", word(basis[i]), " expected ", w);
    MC_CHECK(word(conj[i]) == dagger(w), "conjugate element ", i, " is ", word(conj[i]), " expected ", dagger(w));
}

template <typename L>
void check_bases(const L& lattice, uint64_t n, bool three, const std::string& what)
{
    MC_CASE(what, " one operator")
    {
        mc::distinct(mc::hash_str(what + "/1"));
        const Basis1Operator<Monomial> basis(lattice);
        const auto conj = basis.get_conjugate();
        std::vector<bool> seen(n, false);
        MC_CHECK(basis.N == n && basis.size() == n && conj.size() == n && conj.N == n, "sizes ", basis.size(), " ", conj.size());
        for(uint64_t i = 0; i < n; ++i) compare(basis, conj, i, Word{{true, i, true}}, seen);
        const auto back = conj.get_conjugate();
        for(uint64_t i = 0; i < n; ++i) MC_CHECK(word(back[i]) == word(basis[i]), "element ", i, " conjugated twice");
    }
    if(!three) return;
    MC_CASE(what, " three operators")
    {
        mc::distinct(mc::hash_str(what + "/3"));
        const Basis3Operator<Monomial> basis(lattice);
        const auto conj = basis.get_conjugate();
        const auto size = n + n * n * n;
        std::vector<bool> seen(size, false);
        MC_CHECK(basis.N == n && basis.N_squared == n * n && basis.size() == size && conj.size() == size && conj.N == n, "sizes ", basis.size(), " ", conj.size());
        for(uint64_t i = 0; i < n; ++i) compare(basis, conj, i, Word{{true, i, true}}, seen);
        for(uint64_t a = 0; a < n; ++a)
            for(uint64_t b = 0; b < n; ++b)
                for(uint64_t c = 0; c < n; ++c)
                    compare(basis, conj, basis.get_3op_index(a, b, c), Word{{true, a, true}, {true, b, false}, {false, c, false}}, seen);
        const auto back = conj.get_conjugate();
        for(uint64_t i = 0; i < size; ++i) MC_CHECK(word(back[i]) == word(basis[i]), "element ", i, " conjugated twice");
    }
}

// more sites than a byte counts, with three operators: millions of elements
template <typename L>
void check_wide(const L& lattice, uint64_t n, const std::string& what)
{
    MC_CASE(what, " three operators")
    {
        mc::distinct(mc::hash_str(what + "/3"));
        const Basis3Operator<Monomial> basis(lattice);
        const auto conj = basis.get_conjugate();
        const auto size = n + n * n * n;
        MC_CHECK(basis.N == n && basis.N_squared == n * n && basis.size() == size && conj.size() == size, "sizes ", basis.size(), " ", conj.size());
        if(basis.size() != size || conj.size() != size) return;
        std::vector<bool> seen(size, false);
        uint64_t bad = 0;
        auto is = [](const Operator& o, bool creator, uint64_t site, bool spin) { return o.creator == creator && o.index1 == site && o.index2 == spin; };
        for(uint64_t i = 0; i < n; ++i) compare(basis, conj, i, Word{{true, i, true}}, seen);
        for(uint64_t a = 0; a < n; ++a)
            for(uint64_t b = 0; b < n; ++b)
                for(uint64_t c = 0; c < n; ++c) {
                    const auto i = basis.get_3op_index(a, b, c);
                    if(i >= size || seen[i]) {
                        ++bad;
                        continue;
                    }
                    seen[i]       = true;
                    const auto& m = basis[i];
                    const auto& k = conj[i];
                    bad += !(m.size() == 3 && is(m[0], true, a, true) && is(m[1], true, b, false) && is(m[2], false, c, false));
                    bad += !(k.size() == 3 && is(k[0], true, c, false) && is(k[1], false, b, false) && is(k[2], false, a, true));
                }
        MC_CHECK(!bad, bad, " elements are wrong or not at their index");
    }
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
                   {{"chain", [] {
                         for(uint64_t n = 1; n <= mc::pick(400ull, 1000ull); ++n)
                             check_bases(PeriodicChain<double>(n, 1.), n, n <= mc::pick(22ull, 36ull) || n == 42 || (mc::thorough() && n == 70), mc::str("chain ", n));
                     }},
                    {"square", [] {
                         for(uint64_t x = 1; x <= mc::pick(6ull, 10ull); ++x)
                             for(uint64_t y = 1; y <= mc::pick(6ull, 10ull); ++y)
                                 check_bases(PeriodicSquareLattice<double>(x, y, 1., 0.5), x * y, x * y <= mc::pick(24ull, 36ull), mc::str("square ", x, "x", y));
                         check_bases(PeriodicSquareLattice<double>(7, 6, 1., 0.5), 42, true, "square 7x6");
                         check_bases(PeriodicSquareLattice<double>(300, 2, 1., 0.5), 600, false, "square 300x2");
                         check_bases(PeriodicSquareLattice<double>(2, 35000, 1., 0.5), 70000, false, "square 2x35000");
                     }},
                    {"wide", [] {
                         check_wide(PeriodicChain<double>(257, 1.), 257, "chain 257");
                         if(mc::thorough()) check_wide(PeriodicSquareLattice<double>(2, 130, 1., 0.5), 260, "square 2x130");
                     }}});
}

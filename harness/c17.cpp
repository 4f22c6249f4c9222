// C17: table of non-vanishing expectation values against occupation numbers.
#include "sea_util.hpp"
#include "ieompp/models/hubbard/dispersion.hpp"
#include "ieompp/models/hubbard_momentum_space/non_vanishing_expectation_values.hpp"
#include "ieompp/models/hubbard_momentum_space/particle_number.hpp"

using namespace bas;
using namespace ieompp::lattices;
using namespace ieompp::models::hubbard_momentum_space;
using Values = NonVanishingExpectationValues<uint64_t, double>;

// the parts of a normal ordered basis element: weight 2 for the product, 1 for its Kronecker delta
struct Part {
    double weight;
    Word w;
};

std::vector<std::vector<Part>> parts(uint64_t n, uint64_t q, const std::function<uint64_t(uint64_t, uint64_t)>& third)
{
    std::vector<std::vector<Part>> v;
    v.push_back({{1., {{true, q, true}}}});
    for(uint64_t a = 0; a < n; ++a)
        for(uint64_t b = 0; b < n; ++b) {
            const auto c = third(a, b);
            std::vector<Part> p{{2., {{true, a, true}, {true, b, false}, {false, c, false}}}};
            if(b == c) p.push_back({1., {{true, a, true}}});
            v.push_back(p);
        }
    return v;
}

template <typename B, typename D>
void check(const B& bz, uint64_t n, uint64_t q, const D& d, double fermi, const std::function<uint64_t(uint64_t, uint64_t)>& third, const std::string& what, bool default_energy = false)
{
    MC_CASE(what, " q=", q, " Fermi energy ", fermi)
    {
        mc::distinct(mc::hash_str(mc::str(what, '/', q, '/', fermi)));
        const Basis3Operator<Monomial> basis(q, bz);
        const auto conj   = basis.get_conjugate();
        const auto model  = parts(n, q, third);
        const auto ground = sea::ground(d, n, fermi);
        std::vector<std::tuple<uint64_t, uint64_t, double>> expected;
        for(uint64_t i = 0; i < model.size(); ++i)
            for(uint64_t j = 0; j < model.size(); ++j) {
                double value = 0;
                bool any     = false;
                for(auto& a : model[i])
                    for(auto& b : model[j]) {
                        uint64_t s = ground;
                        MC_COUNT("transitions", 1);
                        if(sea::apply(dagger(b.w), s) && sea::apply(a.w, s) && s == ground) {
                            any = true;
                            value += a.weight * b.weight;
                        }
                    }
                MC_COUNT("states", 1);
                if(any) expected.emplace_back(i, j, value);
            }
        std::sort(expected.begin(), expected.end());
        Values table = default_energy ? Values(basis, conj, d) : Values(basis, conj, d, fermi);
        MC_COUNT("traces", 1);
        auto tuples = [](const Values& t) {
            std::vector<std::tuple<uint64_t, uint64_t, double>> v;
            for(auto& e : t) v.emplace_back(e.left_index, e.right_index, e.value);
            return v;
        };
        auto got = tuples(table);
        std::sort(got.begin(), got.end());
        bool same = got == expected;
        std::string first;
        for(std::size_t i = 0; !same && first.empty() && i < std::max(got.size(), expected.size()); ++i)
            if(i >= got.size() || i >= expected.size() || got[i] != expected[i]) {
                auto s = [&](const std::vector<std::tuple<uint64_t, uint64_t, double>>& v) {
                    return i < v.size() ? mc::str('(', std::get<0>(v[i]), ',', std::get<1>(v[i]), "): ", std::get<2>(v[i])) : std::string("nothing");
                };
                first = s(got) + " instead of " + s(expected);
            }
        MC_CHECK(same, "table differs from the model at ", first);
        table.sort();
        const auto sorted = tuples(table);
        bool ordered = true;
        for(std::size_t i = 1; i < sorted.size(); ++i)
            ordered = ordered && std::make_pair(std::get<0>(sorted[i - 1]), std::get<1>(sorted[i - 1])) <= std::make_pair(std::get<0>(sorted[i]), std::get<1>(sorted[i]));
        MC_CHECK(ordered, "sorted table is not ordered");
        auto again = sorted;
        std::sort(again.begin(), again.end());
        MC_CHECK(again == got, "sorting changed the entries");
    }
}

// every occupation pattern of the sea
void patterns(uint64_t n)
{
    const PeriodicChain<double> bz(n);
    for(uint64_t p = 0; p < (1ull << n); ++p) {
        sea::Table d;
        const double fermi = p % 2 ? 0.75 : 0.;
        for(uint64_t k = 0; k < n; ++k) d.e.push_back(fermi + ((p >> k & 1) ? -1. - double(k) : (k % 2 ? 0. : 2.)));
        for(uint64_t q = 0; q < n; ++q)
            check(bz, n, q, d, fermi, [n, q](uint64_t a, uint64_t b) { return (a + b + n - q) % n; }, mc::str("chain N=", n, " sea ", p));
    }
}

void bands(uint64_t all)
{
    for(uint64_t n = 1; n <= all; ++n) {
        const PeriodicChain<double> bz(n), lattice(n, 1.);
        for(double J : {1., -0.5}) {
            const auto d = ieompp::models::hubbard::make_dispersion(bz, lattice, J);
            for(double fermi : {0., -1., 0.7, -5., 5.})
                for(uint64_t q = 0; q < n; ++q)
                    check(bz, n, q, d, fermi, [n, q](uint64_t a, uint64_t b) { return (a + b + n - q) % n; }, mc::str("chain N=", n, " J=", J));
            for(uint64_t q = 0; q < n; ++q)
                check(bz, n, q, d, 0., [n, q](uint64_t a, uint64_t b) { return (a + b + n - q) % n; }, mc::str("chain N=", n, " J=", J, " default"), true);
        }
    }
}

void squares(uint64_t sites)
{
    for(uint64_t nx = 1; nx <= sites; ++nx)
        for(uint64_t ny = 1; nx * ny <= sites; ++ny) {
            const PeriodicSquareLattice<double> bz(nx, ny), lattice(nx, ny, 1., 1.);
            const auto d = ieompp::models::hubbard::make_dispersion(bz, lattice, 1.);
            for(double fermi : {0., -1.})
                for(uint64_t q = 0; q < nx * ny; ++q)
                    check(bz, nx * ny, q, d, fermi,
                          [&, q](uint64_t a, uint64_t b) {
                              return uint64_t(bz.index((bz.x_index(a) + bz.x_index(b) + nx - bz.x_index(q)) % nx, (bz.y_index(a) + bz.y_index(b) + ny - bz.y_index(q)) % ny));
                          },
                          mc::str("square ", nx, "x", ny));
        }
}
// bases of more elements than a byte counts; levels that single precision does not tell from the Fermi energy
void large()
{
    std::vector<uint64_t> sizes{16, 17, 20};
    if(mc::thorough()) sizes.insert(sizes.end(), {24, 27, 31});
    for(auto n : sizes) {
        const PeriodicChain<double> bz(n), lattice(n, 1.);
        const auto d = ieompp::models::hubbard::make_dispersion(bz, lattice, 1.);
        for(uint64_t q : {uint64_t(0), uint64_t(1), n / 2, n - 1})
            for(double fermi : {0.7, -1.1})
                check(bz, n, q, d, fermi, [n, q](uint64_t a, uint64_t b) { return (a + b + n - q) % n; }, mc::str("chain N=", n));
    }
}
void edges()
{
    for(uint64_t n = 1; n <= 4; ++n) {
        const PeriodicChain<double> bz(n);
        for(uint64_t p = 0; p < (1ull << n); ++p)
            for(double fermi : {0.7, -1. / 3, 1e-3, 12.3})
                for(double width : {1e-9, 1e-13}) {
                    sea::Table d;
                    for(uint64_t k = 0; k < n; ++k) d.e.push_back(fermi + ((p >> k & 1) ? -width : (k % 2 ? 0. : width)) * std::max(1., std::abs(fermi)));
                    for(uint64_t q = 0; q < n; ++q)
                        check(bz, n, q, d, fermi, [n, q](uint64_t a, uint64_t b) { return (a + b + n - q) % n; }, mc::str("chain N=", n, " sea ", p, " levels ", width, " away"));
                }
    }
}

// sorting tables of any entries
void sorting()
{
    const PeriodicChain<double> bz(1);
    using Basis = Basis3Operator<Monomial>;
    const Basis basis(0, bz);
    const auto conj = basis.get_conjugate();
    sea::Table d;
    d.e = {1.};
    const std::vector<uint64_t> far{0, 1, 2, 127, 128, 255, 256, 257, 32768, 65535, 65536, 65537, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, 1ull << 63, ~0ull};
    auto one = [&](const std::vector<std::pair<uint64_t, uint64_t>>& entries, const std::string& what) {
        MC_CASE("sorting ", what)
        {
            mc::distinct(mc::hash_str("sort" + what));
            Values v(basis, conj, d, 0.);
            v.clear();
            using E = std::tuple<uint64_t, uint64_t, double>;
            std::vector<E> want, got;
            for(auto& e : entries) {
                const double x = double(want.size()) + 0.5;
                v.push_back({e.first, e.second, x});
                want.emplace_back(e.first, e.second, x);
            }
            v.sort();
            bool ordered = true;
            for(auto& e : v) {
                if(!got.empty()) ordered = ordered && std::make_pair(std::get<0>(got.back()), std::get<1>(got.back())) <= std::make_pair(uint64_t(e.left_index), uint64_t(e.right_index));
                got.emplace_back(e.left_index, e.right_index, e.value);
            }
            MC_CHECK(ordered, "sorted table is not ordered");
            std::sort(want.begin(), want.end());
            std::sort(got.begin(), got.end());
            MC_CHECK(got == want, "sorting changed the entries");
            MC_COUNT("traces", 1);
        }
    };
    // every sequence of up to five entries over three indices, every pair over the far ones
    std::vector<std::pair<uint64_t, uint64_t>> seq;
    std::function<void()> go = [&] {
        one(seq, mc::str(seq));
        if(seq.size() == std::size_t(mc::pick(4, 5))) return;
        for(uint64_t a = 0; a < 3; ++a)
            for(uint64_t b = 0; b < 3; ++b) {
                seq.push_back({a, b});
                go();
                seq.pop_back();
            }
    };
    go();
    for(auto a : far)
        for(auto b : far)
            for(auto c : far) {
                one({{a, c}, {b, c}}, mc::str("far left ", a, ' ', b, ' ', c));
                one({{c, a}, {c, b}}, mc::str("far right ", a, ' ', b, ' ', c));
            }
    for(std::size_t n : {16, 17, 100, 300, 70000}) {
        std::vector<std::pair<uint64_t, uint64_t>> many;
        for(std::size_t i = 0; i < n; ++i) many.push_back({far[i * i % far.size()] + i % 3, (i * 7919) % 1000});
        one(many, mc::str(n, " entries"));
    }
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
                   {{"patterns_small", [] { for(uint64_t n = 1; n <= mc::pick(5ull, 5ull); ++n) patterns(n); }},
                    {"patterns5", [] { patterns(6); }},
                    {"patterns7", [] { patterns(7); }},
                    {"bands", [] { bands(mc::pick(8, 12)); }},
                    {"large", large}, {"edges", edges}, {"sorting", sorting},
                    {"squares", [] { squares(mc::pick(8, 12)); }}});
}

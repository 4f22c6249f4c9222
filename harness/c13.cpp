// C13: tight-binding dispersion.
#include "ieompp/types/blaze.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard/dispersion.hpp"
#include "lattice_util.hpp"

using namespace ieompp::lattices;
using namespace ieompp::models::hubbard;

template <typename F>
bool ok(F got, long double want, long double scale)
{
    return std::abs((long double)got - want) <= 32 * std::numeric_limits<F>::epsilon() * scale;
}

template <typename F>
void chains(uint64_t all)
{
    std::vector<uint64_t> ns;
    for(uint64_t n = 1; n <= all; ++n) ns.push_back(n);
    ns.push_back(256);
    ns.push_back(1000);
    ns.push_back(70000);
    for(auto n : ns)
        for(uint64_t sites : {n, n + 3})
            for(const F dx : {F(1), F(0.5), F(2), F(0.1)})
                for(const F J : {F(1), F(-1), F(0), F(0.25), F(3.5), F(0.1), F(-1) / F(3), F(std::ldexp(1., -40)), F(std::ldexp(-3., -70))}) {
                    if(n > 1000 && (sites != n || dx != F(2) || J != F(0.1))) continue;
                    if(sites != n && (dx != F(2) || J != F(3.5))) continue;
                    MC_CASE("chain<", lat::Name<F>::get(), "> N=", n, " lattice ", sites, " dx=", dx, " J=", J)
                    {
                        mc::distinct(mc::hash_str(mc::str(lat::Name<F>::get(), n, ',', sites, ',', dx, ',', J)));
                        PeriodicChain<F> bz(n), lattice(sites, dx);
                        const auto d = make_dispersion(bz, lattice, J);
                        // a table built in between does not change the first one, nor is changed by it
                        const Dispersion<F> other(bz, lattice, J + F(1));
                        const Dispersion<F> again(bz, lattice, J);
                        for(uint64_t i = 0; i < n; ++i) {
                            const long double k = -lat::pi + 2 * lat::pi * i / n;
                            const long double c = 2 * std::cos(k * (long double)dx);
                            const long double sc = 2 * (1 + std::abs((long double)J)) * (1 + std::abs((long double)dx));
                            MC_CHECK(ok<F>(d(i), -(long double)J * c, 2 * std::abs((long double)J) * (1 + std::abs((long double)dx))), "energy ", i, " is ", d(i), " expected ", -(long double)J * c);
                            MC_CHECK(ok<F>(other(i), -((long double)J + 1) * c, sc + 2 * (1 + std::abs((long double)dx))), "energy ", i, " of the second table is ", other(i));
                            MC_CHECK(again(i) == d(i), "energy ", i, " of the repeated table is ", again(i), " expected ", d(i));
                        }
                        if(J == F(1)) {
                            const auto def = make_dispersion(bz, lattice);
                            const Dispersion<F> def2(bz, lattice);
                            for(uint64_t i = 0; i < n; ++i)
                                MC_CHECK(def(i) == d(i) && def2(i) == d(i), "default hopping, energy ", i, " is ", def(i));
                        }
                    }
                }
}

template <typename F>
void squares(uint64_t all)
{
    for(uint64_t nx = 1; nx <= 300; ++nx)
        for(uint64_t ny = 1; ny <= 300; ++ny) {
            if((nx > all || ny > all) && !(nx == 300 && ny == 2) && !(nx == 2 && ny == 300) && !(nx == 20 && ny == 15) && !(nx == 260 && ny == 270)) continue;
            for(auto dxy : std::vector<std::pair<F, F>>{{F(1), F(1)}, {F(0.5), F(2)}})
                for(const F J : {F(1), F(-2), F(0.25), F(0.1), F(std::ldexp(-1., -40))}) {
                    MC_CASE("square<", lat::Name<F>::get(), "> ", nx, "x", ny, " dx,dy=", dxy, " J=", J)
                    {
                        mc::distinct(mc::hash_str(mc::str("s", lat::Name<F>::get(), nx, ',', ny, ',', dxy, ',', J)));
                        PeriodicSquareLattice<F> bz(nx, ny), lattice(nx, ny, dxy.first, dxy.second);
                        const auto d = make_dispersion(bz, lattice, J);
                        const Dispersion<F> other(bz, lattice, J - F(3));
                        const Dispersion<F> again(bz, lattice, J);
                        for(uint64_t x = 0; x < nx; ++x)
                            for(uint64_t y = 0; y < ny; ++y) {
                                const auto i = bz.index(x, y);
                                const long double kx = -lat::pi + 2 * lat::pi * x / nx, ky = -lat::pi + 2 * lat::pi * y / ny;
                                const long double c = 2 * (std::cos(kx * (long double)dxy.first) + std::cos(ky * (long double)dxy.second));
                                const long double sc = 4 * (4 + std::abs((long double)J)) * 3;
                                MC_CHECK(ok<F>(d(i), -(long double)J * c, 12 * std::abs((long double)J)), "energy ", x, ",", y, " is ", d(i), " expected ", -(long double)J * c);
                                MC_CHECK(ok<F>(other(i), -((long double)J - 3) * c, sc), "energy ", x, ",", y, " of the second table is ", other(i));
                                MC_CHECK(again(i) == d(i), "energy ", i, " of the repeated table is ", again(i), " expected ", d(i));
                            }
                    }
                }
        }
}

template <typename F>
void fermi()
{
    for(int p = 0; p <= 1000; ++p) {
        MC_CASE("Fermi momentum<", lat::Name<F>::get(), "> filling ", p, "/1000")
        {
            mc::distinct(mc::hash_str(mc::str("f", lat::Name<F>::get(), p)));
            const F f = F(p) / F(1000);
            MC_CHECK(lat::near<F>(calculate_fermi_momentum_1d(f), (long double)f * lat::pi, 4), calculate_fermi_momentum_1d(f));
        }
    }
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
                   {{"chain_double", [] { chains<double>(mc::pick(128, 400)); fermi<double>(); }},
                    {"chain_float", [] { chains<float>(mc::pick(64, 200)); fermi<float>(); }},
                    {"chain_ldouble", [] { chains<long double>(mc::pick(64, 200)); fermi<long double>(); }},
                    {"square_double", [] { squares<double>(mc::pick(16, 30)); }},
                    {"square_float", [] { squares<float>(mc::pick(10, 20)); }},
                    {"square_ldouble", [] { squares<long double>(mc::pick(10, 20)); }}});
}

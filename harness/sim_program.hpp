// The simulation programs, one per build: SIM selects the program. Their models.
#ifndef VERIF_SIM_PROGRAM_HPP
#define VERIF_SIM_PROGRAM_HPP
#include "prog.hpp"
#if SIM == 1
#include "src/hubbard/hubbard_real_1d_rk4.cpp"
#elif SIM == 2
#include "src/hubbard/hubbard_real_1d_rk4_jump.cpp"
#elif SIM == 3
#include "src/hubbard/hubbard_real_1d_rk4_coefficients.cpp"
#elif SIM == 4
#include "src/hubbard/hubbard_real_1d_kinetic_rk4.cpp"
#elif SIM == 5
#include "src/hubbard/hubbard_real_1d_kinetic_rk4_coefficients.cpp"
#elif SIM == 6
#include "src/hubbard/hubbard_real_2d_rk4_jump.cpp"
#endif
#include "sim_util.hpp"

using sim::C;
using sim::Config;
using sim::LD;

std::vector<double> flat(const std::vector<C>& h)
{
    std::vector<double> r;
    for(auto& x : h) {
        r.push_back(double(x.real()));
        r.push_back(double(x.imag()));
    }
    return r;
}
real::Chain chain(const Config& c) { return real::Chain(c.nx, 1.); }

sim::Program program()
{
    sim::Program p;
#if SIM == 6
    p.options  = {"Nx", "Ny", "J", "U", "dt", "t_end", "measurement_interval", "kx", "ky"};
    p.defaults = {{"Nx", "4"}, {"Ny", "4"}};
#elif SIM == 4
    p.options = {"N", "J", "dt", "t_end", "measurement_interval", "filling_factor"};
#elif SIM == 5
    p.options = {"N", "J", "dt", "t_end", "measurement_interval"};
#elif SIM == 3
    p.options = {"N", "J", "U", "dt", "t_end", "measurement_interval"};
#else
    p.options = {"N", "J", "U", "dt", "t_end", "measurement_interval", "filling_factor"};
#endif
#if SIM == 6
    p.matrix = [](const Config& c) { return sim::basis3(real::Square(c.nx, c.ny, 1., 1.), c.J, c.U); };
#elif SIM == 4 || SIM == 5
    p.matrix = [](const Config& c) { return sim::basis1(chain(c), c.J); };
#else
    p.matrix = [](const Config& c) { return sim::basis3(chain(c), c.J, c.U); };
#endif
#if SIM == 1
    p.name    = "hubbard_real_1d_rk4";
    p.observe = [](const Config& c, const std::vector<C>& h) -> std::vector<double> {
        return {sim::occupation(h, mc::str(c.nx, '/', c.filling), sim::chain_table(c.nx, c.filling), wick::basis3(c.nx))};
    };
#elif SIM == 2
    p.name    = "hubbard_real_1d_rk4_jump";
    p.observe = [](const Config& c, const std::vector<C>& h) -> std::vector<double> {
        const auto l = chain(c);
        return {sim::jump(h, sim::chain_table(c.nx, c.filling), [&](uint64_t i) { return lat::pi * c.filling * l[i]; })};
    };
#elif SIM == 3
    p.name    = "hubbard_real_1d_rk4_coefficients";
    p.observe = [](const Config&, const std::vector<C>& h) { return flat(h); };
#elif SIM == 4
    p.name    = "hubbard_real_1d_kinetic_rk4";
    p.observe = [](const Config& c, const std::vector<C>& h) -> std::vector<double> {
        return {sim::occupation(h, mc::str(c.nx, '/', c.filling), sim::chain_table(c.nx, c.filling), wick::basis1(c.nx))};
    };
#elif SIM == 5
    p.name    = "hubbard_real_1d_kinetic_rk4_coefficients";
    p.observe = [](const Config&, const std::vector<C>& h) { return flat(h); };
#elif SIM == 6
    p.name    = "hubbard_real_2d_rk4_jump";
    p.observe = [](const Config& c, const std::vector<C>& h) -> std::vector<double> {
        const real::Square l(c.nx, c.ny, 1., 1.);
        return {sim::jump(h, sim::square_table(c.nx, c.ny), [&](uint64_t i) {
            const auto r = l[i];
            return (LD)c.kx * r[0] + (LD)c.ky * r[1];
        })};
    };
#endif
    return p;
}
const bool big      = SIM == 4 || SIM == 5; // small basis, larger lattices
const bool fillings = SIM == 1 || SIM == 2 || SIM == 4;
#endif

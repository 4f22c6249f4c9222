// C42, C44: the simulation programs, one per build: SIM selects the program.
#include "sim_program.hpp"

std::vector<std::pair<uint64_t, uint64_t>> sizes()
{
#if SIM == 6
    std::vector<std::pair<uint64_t, uint64_t>> v{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 1}, {2, 3}};
    if(mc::thorough()) v.insert(v.end(), {{1, 3}, {3, 2}, {4, 1}, {1, 5}});
#else
    std::vector<std::pair<uint64_t, uint64_t>> v;
    for(uint64_t n = 1; n <= (big ? mc::pick(10, 24) : mc::pick(5, 7)); ++n) v.push_back({n, 1});
#endif
    return v;
}
std::vector<std::pair<double, double>> momenta()
{
    if(SIM != 6) return {{0, 0}};
    const double h = std::acos(-1.) / 2;
    return {{h, h}, {0.75, -1.25}, {0, 3}};
}
bool few = false;
// every size, coupling, filling or momentum
void values()
{
    const auto p = program();
    for(auto s : sizes())
        for(auto& j : real::couplings())
            for(double f : fillings ? std::vector<double>{0.5, 0.25, 0.8} : std::vector<double>{0.5})
                for(auto k : momenta()) {
                    if(s.first * s.second > 4 && !big && !mc::thorough() && !(j.first == 0.5 || j.first == 1.25)) continue;
                    if(few && (s.first * s.second > 3 || j.first != 0.5)) continue;
                    Config c;
                    c.nx      = s.first;
                    c.ny      = s.second;
                    c.J       = j.first;
                    c.U       = j.second;
                    c.filling = f;
                    c.kx      = k.first;
                    c.ky      = k.second;
                    sim::one(p, c, true, int((s.first + s.second) % 2), true);
                }
}
// every schedule, each way of giving the options
void schedules()
{
    const auto p = program();
    for(auto s : sizes()) {
        if(s.first * s.second > 3 || s.first * s.second == 1) continue;
        for(auto& t : sim::schedules())
            for(int way = 0; way < 6; ++way)
                for(bool named : {true, false}) {
                    Config c;
                    c.nx      = s.first;
                    c.ny      = s.second;
                    c.J       = 0.5;
                    c.U       = -3;
                    c.filling = 0.25;
                    c.kx      = 0.75;
                    c.ky      = -1.25;
                    c.dt      = t.dt;
                    c.t_end   = t.t_end;
                    c.every   = t.every;
                    sim::one(p, c, t.exact, way, named);
                }
    }
}
// lattices of more sites than a narrow integer counts, for the programs with a small basis
void large()
{
    const auto p = program();
    for(uint64_t n : {64, 255, 256, 257, 300})
        for(double f : fillings ? std::vector<double>{0.5, 0.25} : std::vector<double>{0.5})
            for(bool log : {false, true}) {
                if(!mc::thorough() && n != 257 && f != 0.25 && fillings) continue;
                Config c;
                c.nx      = n;
                c.J       = 0.5;
                c.filling = f;
                c.dt      = 0.25;
                c.t_end   = 1;
                c.every   = 2;
                if(log)
                    sim::one_log(p, c, true);
                else
                    sim::one(p, c, true, int(n % 2), true);
            }
}
// the log of runs with every size, coupling and schedule
void logs()
{
    const auto p = program();
    for(auto s : sizes())
        for(auto& j : real::couplings())
            for(auto& t : sim::schedules()) {
                if(!mc::thorough() && s.first * s.second > (big ? 6 : 3) && (t.dt != 0.25 || j.first != 0.5)) continue;
                Config c;
                c.nx      = s.first;
                c.ny      = s.second;
                c.J       = j.first;
                c.U       = j.second;
                c.filling = 0.25;
                c.kx      = 0.75;
                c.ky      = -1.25;
                c.dt      = t.dt;
                c.t_end   = t.t_end;
                c.every   = t.every;
                sim::one_log(p, c, s.first % 2);
            }
}
// each option left to its default
void defaults()
{
    const auto p = program();
    Config c;
    c.nx = 2;
    c.ny = SIM == 6 ? 2 : 1;
    c.J = 0.5, c.U = -3, c.filling = 0.25, c.kx = 0.75, c.ky = -1.25, c.dt = 0.125, c.t_end = 1, c.every = 2;
    const double half = std::acos(-1.) / 2;
    for(auto& o : p.options) {
        Config d   = c;
        bool exact = true;
        if(o == "N") d.nx = 16;
        if(o == "Nx" || o == "Ny") (o == "Nx" ? d.nx : d.ny) = 4;
        if(o == "N" && !big) d.t_end = SIM == 1 ? 0 : 0.125, d.every = 1;
        if(o == "J") d.J = 1;
        if(o == "U") d.U = 1;
        if(o == "filling_factor") d.filling = 0.5;
        if(o == "kx") d.kx = half;
        if(o == "ky") d.ky = half;
        if(o == "dt") d.dt = 0.01, exact = false;
        if(o == "t_end") d.t_end = 10;
        if(o == "measurement_interval") d.every = 100, d.t_end = 25;
        if(SIM == 1 && o == "N") continue; // below
        for(int way : {0, 2, 5}) sim::one(p, d, exact, way, true, {o});
    }
    sim::help(p);
}

int prog::explorer(int argc, char** argv)
{
    return sim::explore(argc, argv, {{"values", values}, {"few", [] { few = true; values(); }}, {"schedules", schedules}, {"logs", logs}, {"large", large}, {"defaults", defaults}});
}

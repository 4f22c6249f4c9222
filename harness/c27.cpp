// C27: all interleavings of integration steps and matrix products of several integrators.
#include "ode_util.hpp"
#include <memory>

using namespace ode;
using ieompp::ode::RK4;

// one trajectory of the real code with its model
struct Run {
    std::string name;
    Model m;
    double h;
    std::vector<std::vector<LC>> want; // states of the trajectory run alone
    std::vector<double> scale;
    std::function<std::function<std::pair<double, std::string>(const std::vector<LC>&)>()> start; // new instance; each call makes a step
};

Model matrix(uint64_t n, uint64_t s, bool complex)
{
    Model m{n, {}};
    for(uint64_t a = 0; a < n * n; ++a)
        m.a.push_back(C(double((a * a * (s + 1) + a + s) % 5) - 2, complex ? double((a * (s + 2) + 1) % 3) - 1 : 0.));
    return m;
}
std::vector<LC> initial(uint64_t n, bool complex)
{
    std::vector<LC> u;
    for(uint64_t k = 0; k < n; ++k) u.push_back(LC(1. + k, complex ? 0.5 - k : 0.));
    return u;
}

template <typename S, typename M>
Run run(const std::string& name, const Model& model, const M& m, double h, bool product)
{
    const bool complex = !std::is_same<S, double>::value;
    Run r{mc::str(name, ' ', model.n), model, h, {}, {}, nullptr};
    auto u = initial(model.n, complex);
    r.want.push_back(u);
    double scale = 1;
    for(int k = 0; k < 8; ++k) {
        u = product ? model.times(u) : taylor(model, h, u, scale);
        for(auto& x : u) scale = std::max(scale, double(std::abs(x)));
        r.want.push_back(u);
        r.scale.push_back(scale);
    }
    const auto u0 = initial(model.n, complex);
    r.start = [=] {
        auto v  = std::make_shared<Vec<S>>(vec<S>(u0));
        auto rk = std::make_shared<RK4<double>>(model.n, h);
        return [=](const std::vector<LC>& want) -> std::pair<double, std::string> {
            if(product)
                ieompp::types::multiply_assign(m, *v);
            else
                rk->step(m, *v);
            return {distance(*v, want), mc::str(v->size(), " components")};
        };
    };
    return r;
}

std::vector<Run> participants()
{
    std::vector<Run> r;
    auto add = [&](const std::string& kind, uint64_t n, uint64_t s, double h) {
        const auto m = matrix(n, s, true);
        if(kind == "sparse")
            r.push_back(run<C>(kind, m, sparse<C>(m), h, false));
        else if(kind == "dense")
            r.push_back(run<C>(kind, m, dense<C>(m), h, false));
        else if(kind == "function")
            r.push_back(run<C>(kind, m, function<C>(m), h, false));
        else
            r.push_back(run<C>(kind, m, function<C>(m), h, true));
    };
    add("sparse", 3, 0, 0.25);
    add("sparse", 5, 1, 0.5);
    add("function", 2, 2, 0.5);
    add("function", 4, 3, 0.125);
    add("function", 4, 5, 0.25);
    add("dense", 3, 4, 0.25);
    add("dense", 1, 1, 1.);
    add("product", 6, 2, 1.);
    add("product", 4, 1, 1.);
    const auto m = matrix(3, 6, false);
    r.push_back(run<double>("real function", m, function<double>(m), 0.5, false));
    return r;
}

// every order of steps[i] steps of each participant
void interleave(const std::vector<Run>& all, const std::vector<int>& who, int steps)
{
    std::string names;
    for(auto w : who) names += all[w].name + ", ";
    std::vector<int> left(who.size(), steps), order;
    std::function<void()> go = [&] {
        if(order.size() == who.size() * steps) {
            MC_CASE(names, "order ", order)
            {
                mc::distinct(mc::hash_str(mc::str(names, order)));
                std::vector<std::function<std::pair<double, std::string>(const std::vector<LC>&)>> inst;
                std::vector<int> done(who.size(), 0);
                for(auto w : who) inst.push_back(all[w].start());

                for(auto i : order) {
                    const auto& r = all[who[i]];
                    const auto d  = inst[i](r.want[done[i] + 1]);
                    MC_CHECK(d.first <= 1e-13 * r.scale[done[i]] * 10, r.name, " step ", done[i], ": off by ", d.first, " (", d.second, ')');
                    ++done[i];
                    MC_COUNT("transitions", 1);
                }
                MC_COUNT("traces", 1);
            }
            return;
        }
        MC_COUNT("states", 1);
        for(std::size_t i = 0; i < who.size(); ++i)
            if(left[i]) {
                --left[i];
                order.push_back(int(i));
                go();
                order.pop_back();
                ++left[i];
            }
    };
    go();
}

void pairs()
{
    const auto all = participants();
    for(int i = 0; i < int(all.size()); ++i)
        for(int j = i; j < int(all.size()); ++j) interleave(all, {i, j}, mc::pick(6, 7));
}
void triples()
{
    const auto all = participants();
    for(int i = 0; i < int(all.size()); ++i)
        for(int j = i; j < int(all.size()); ++j)
            for(int k = j; k < int(all.size()); ++k) interleave(all, {i, j, k}, mc::pick(2, 3));
}
void quadruples()
{
    const auto all = participants();
    for(int i = 0; i < int(all.size()); ++i)
        for(int j = i + 1; j < int(all.size()); ++j)
            for(int k = j + 1; k < int(all.size()); ++k)
                for(int l = k + 1; l < int(all.size()); ++l) interleave(all, {i, j, k, l}, mc::pick(1, 2));
}

int main(int argc, char** argv) { return mc::run(argc, argv, {{"pairs", pairs}, {"triples", triples}, {"quadruples", quadruples}}); }

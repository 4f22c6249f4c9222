// C24: site occupation against Wick's theorem.
#include "wick_util.hpp"
#include "ieompp/models/hubbard_real_space/site_occupation.hpp"

using namespace bas;
using namespace ieompp::lattices;
using namespace ieompp::models::hubbard_real_space;
using C = std::complex<double>;

template <typename Basis>
struct Sys {
    uint64_t n, size;
    wick::Table t;
    Basis basis, conj;
    std::vector<std::vector<double>> pairs;
    SiteOccupation<double, Basis> obs;
    template <typename L>
    Sys(const L& l, int which)
        : n(l.size()), t(wick::table(n, which)), basis(l), conj(basis.get_conjugate()),
          obs{[this](const Operator& a, const Operator& b) { return t(a.index1, b.index1); }, basis, conj}
    {
        size = basis.size();
    }
    void model(const std::vector<wick::Sum>& b)
    {
        if(!pairs.empty()) return;
        pairs.assign(size, std::vector<double>(size));
        for(uint64_t i = 0; i < size; ++i)
            for(uint64_t j = 0; j < size; ++j) pairs[i][j] = wick::pair(t, b[i], b[j]);
    }
    C form(const std::vector<C>& h, double& scale) const
    {
        C s = 0;
        for(uint64_t i = 0; i < size; ++i) {
            if(h[i] == C()) continue;
            for(uint64_t j = 0; j < size; ++j) {
                const C x = h[i] * std::conj(h[j]) * pairs[i][j];
                s += x;
                scale += std::abs(x);
            }
        }
        return s;
    }
};
using B1 = Basis1Operator<Monomial>;
using B3 = Basis3Operator<Monomial>;
std::vector<wick::Sum> model_basis(const B1* b) { return wick::basis1(b->N); }
std::vector<wick::Sum> model_basis(const B3* b) { return wick::basis3(b->N); }
void set_shortcut(SiteOccupation<double, B1>&, bool) {}
void set_shortcut(SiteOccupation<double, B3>& o, bool v) { o.exploit_inversion_symmetry = v; }

template <typename Basis>
void evaluate(Sys<Basis>& s, const std::vector<C>& h)
{
    double scale = 0;
    const C want = s.form(h, scale);
    MC_CHECK(std::abs(want.imag()) < 1e-9 * (1 + scale), "the model is not real: ", want);
    blaze::DynamicVector<C> b(h.size());
    for(std::size_t i = 0; i < h.size(); ++i) b[i] = h[i];
    const double tol = 1e-13 * (1 + scale);
    for(bool shortcut : {true, false}) {
        set_shortcut(s.obs, shortcut);
        const double v = s.obs(h), w = s.obs(b);
        MC_COUNT("traces", 2);
        MC_CHECK(mc::close(v, want.real(), tol), shortcut ? "with" : "without", " shortcut: ", v, " expected ", want.real());
        MC_CHECK(mc::close(w, want.real(), tol), shortcut ? "with" : "without", " shortcut, blaze vector: ", w, " expected ", want.real());
    }
    // small and large coefficients
    for(int e : {-60}) {
        auto g = h;
        for(auto& x : g) x *= std::ldexp(1., e);
        for(bool shortcut : {true, false}) {
            set_shortcut(s.obs, shortcut);
            const double v = std::ldexp(s.obs(g), -2 * e);
            MC_COUNT("traces", 1);
            MC_CHECK(mc::close(v, want.real(), 1e-13 * scale), shortcut ? "with" : "without", " shortcut, coefficients times 2^", e, ": 2^", 2 * e, " times ", v, " expected ", want.real());
        }
    }
    set_shortcut(s.obs, true);
}

template <typename Basis, typename L>
void system(const L& l, int which, int level, const std::string& what)
{
    Sys<Basis> s(l, which), other(l, which + 1);
    const auto model = model_basis(&s.basis);
    s.model(model);
    other.model(model);
    // every pair of basis elements
    for(uint64_t i = 0; i < s.size; ++i)
        MC_CASE(what, " table ", which, " pairs of element ", i)
        {
            mc::distinct(mc::hash_str(mc::str(what, '/', which, "/p", i)));
            for(uint64_t j = 0; j < s.size; ++j) {
                MC_CHECK(word(s.basis[i]) == model[i].front().w, "basis element ", i);
                MC_CHECK(word(s.conj[j]) == dagger(model[j].front().w), "conjugate basis element ", j);
                const double v = s.obs.expectation_value(s.basis[i], s.conj[j]), want = 2 * s.pairs[i][j];
                MC_COUNT("traces", 1);
                MC_CHECK(mc::close(v, want, 1e-12 * (1 + std::abs(want))), "pair ", i, ',', j, ": ", v, " expected ", want);
            }
        }
    if(level == 0) return;
    // coefficient vectors: all pairs of components, or a selection
    for(uint64_t i = 0; level > 0 && i < s.size; ++i)
        for(uint64_t j = i; j < s.size; ++j) {
            if(level == 1 && (i * 31 + j * 17) % 53 && i != j) continue;
            MC_CASE(what, " table ", which, " components ", i, ' ', j)
            {
                mc::distinct(mc::hash_str(mc::str(what, '/', which, '/', i, '/', j)));
                for(auto x : {C(1, 0), C(-2, 1)})
                    for(auto y : {C(1, 0), C(0, 1)}) {
                        std::vector<C> h(s.size, C());
                        h[i] += x;
                        h[j] += y;
                        evaluate(s, h);
                    }
            }
        }
    for(uint64_t x = 1; x < (level < 0 ? 2 : level == 1 ? 6 : 20); ++x)
        MC_CASE(what, " table ", which, " dense vector ", x)
        {
            mc::distinct(mc::hash_str(mc::str(what, '/', which, "/d", x)));
            std::vector<C> h(s.size);
            for(uint64_t i = 0; i < s.size; ++i) h[i] = C(double((i * x * x + 3 * i + x) % 7) - 3, double((i * i * x + x) % 5) - 2);
            evaluate(s, h);
            evaluate(other, h);
            evaluate(s, h);
        }
}

void one()
{
    for(uint64_t n = 1; n <= mc::pick(24, 32); ++n)
        for(int t = 0; t < 4; ++t) system<B1>(PeriodicChain<double>(n, 1.), t, 2, mc::str("1-operator chain ", n));
    for(int t = 0; t < 4; ++t) system<B1>(PeriodicSquareLattice<double>(2, 3, 1., 1.), t, 2, "1-operator 2x3");
}

// tables whose sums are not exact (built without the assertion that the imaginary parts cancel exactly)
void inexact()
{
    for(uint64_t n = 1; n <= 6; ++n)
        for(int t = 101; t < 104; ++t) system<B1>(PeriodicChain<double>(n, 1.), t, 2, mc::str("1-operator chain ", n));
    for(int t : {101, 102, 103, 201, 202}) {
        for(uint64_t n = 1; n <= 4; ++n) system<B3>(PeriodicChain<double>(n, 1.), t, n <= 3 ? 2 : 1, mc::str("chain ", n));
        system<B3>(PeriodicSquareLattice<double>(2, 2, 1., 1.), t, 1, "square 2x2");
    }
    system<B1>(PeriodicChain<double>(300, 1.), 101, 0, "1-operator chain 300");
}

// products whose sites have large numbers, some of which agree in their low bits
void labels()
{
    const std::vector<std::vector<uint64_t>> sets{{0, 256, 512, 513}, {255, 511, 65791, 65535}, {1, 65537, (uint64_t(1) << 32) + 1, 2}, {7, (uint64_t(1) << 31) + 7, (uint64_t(1) << 63) + 7, 6}};
    const uint64_t n = 4;
    const PeriodicChain<double> l(2, 1.);
    const B3 basis(l), conj(basis.get_conjugate());
    const B1 basis1(l), conj1(basis1.get_conjugate());
    const auto model = wick::basis3(n);
    for(auto& set : sets)
        for(int which : {1, 2, 3}) {
            const auto t  = wick::table(n, which);
            auto position = [&](uint64_t x) { return uint64_t(std::find(set.begin(), set.end(), x) - set.begin()); };
            auto value    = [&](const Operator& a, const Operator& b) { return t(position(a.index1), position(b.index1)); };
            const SiteOccupation<double, B3> obs{value, basis, conj};
            const SiteOccupation<double, B1> obs1{value, basis1, conj1};
            auto product = [&](const Word& w) {
                Monomial m;
                for(auto& o : w) m.push_back(Operator{o.creator, set[o.index], o.up});
                return m;
            };
            for(std::size_t i = 0; i < model.size(); ++i)
                MC_CASE("sites ", set, " table ", which, " pairs of element ", i)
                {
                    mc::distinct(mc::hash_str(mc::str("l", set[1], '/', which, '/', i)));
                    const auto a = product(model[i].front().w);
                    for(std::size_t j = 0; j < model.size(); ++j) {
                        const auto b      = product(dagger(model[j].front().w));
                        const double want = 2 * wick::pair(t, model[i], model[j]);
                        const double v    = obs.expectation_value(a, b);
                        MC_COUNT("traces", 1);
                        MC_CHECK(mc::close(v, want, 1e-12 * (1 + std::abs(want))), "pair ", i, ',', j, ": ", v, " expected ", want);
                        if(i < n && j < n) {
                            const double v1 = obs1.expectation_value(a, b);
                            MC_CHECK(mc::close(v1, want, 1e-12 * (1 + std::abs(want))), "one-operator pair ", i, ',', j, ": ", v1, " expected ", want);
                        }
                    }
                }
        }
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
                   {{"one", one},
                    {"inexact", inexact},
                    {"labels", labels},
                    {"three_8", [] {
                         for(int t = 1; t < 3; ++t) system<B3>(PeriodicChain<double>(8, 1.), t, -1, "chain 8");
                         system<B3>(PeriodicSquareLattice<double>(2, 4, 1., 1.), 2, -1, "square 2x4");
                     }},
                    {"three_small",
                     [] {
                         for(uint64_t n = 1; n <= 3; ++n)
                             for(int t = 0; t < mc::pick(7, 10); ++t) system<B3>(PeriodicChain<double>(n, 1.), t, 2, mc::str("chain ", n));
                     }},
                    {"three_4",
                     [] {
                         for(int t = 1; t < mc::pick(5, 8); ++t) {
                             system<B3>(PeriodicChain<double>(4, 1.), t, 1, "chain 4");
                             system<B3>(PeriodicSquareLattice<double>(2, 2, 1., 1.), t, 1, "square 2x2");
                         }
                     }},
                    {"three_5",
                     [] {
                         for(int t = 1; t < mc::pick(4, 6); ++t) system<B3>(PeriodicChain<double>(5, 1.), t, 1, "chain 5");
                     }},
                    {"three_6", [] {
                         system<B3>(PeriodicChain<double>(6, 1.), 2, 0, "chain 6");
                         system<B3>(PeriodicSquareLattice<double>(2, 3, 1., 1.), 2, 0, "square 2x3");
                     }}});
}

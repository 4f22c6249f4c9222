// C16: excited Fermi sea against occupation numbers. Breadth-first exploration of the states the real
// class can reach, every transition compared with the model.
#include "sea_util.hpp"
#include "ieompp/models/hubbard/dispersion.hpp"
#include "ieompp/models/hubbard_momentum_space/excited_fermi_sea.hpp"
#include <algorithm>
#include <set>

#include <deque>

using namespace bas;
using namespace ieompp::models::hubbard_momentum_space;
using Sea     = ExcitedFermiSea<Monomial>;
using Indices = Sea::Indices;

struct Model {
    bool vanished = false;
    uint64_t occ  = 0;
};

// sorted lists of differences to the sea
std::pair<std::vector<Indices>, std::vector<Indices>> diff(uint64_t occ, uint64_t ground, uint64_t n)
{
    std::vector<Indices> created, annihilated;
    for(uint64_t k = 0; k < n; ++k)
        for(bool up : {false, true}) {
            const auto b = sea::bit(k, up);
            if((occ & b) && !(ground & b)) created.push_back(Indices(k, up));
            if(!(occ & b) && (ground & b)) annihilated.push_back(Indices(k, up));
        }
    return {created, annihilated};
}

std::string show(const Sea& s)
{
    std::ostringstream os;
    os << (s.vanishes ? "vanished" : "alive") << " created";
    for(auto& i : s.created_particles) os << ' ' << std::get<0>(i) << (std::get<1>(i) ? 'u' : 'd');
    os << " annihilated";
    for(auto& i : s.annihilated_particles) os << ' ' << std::get<0>(i) << (std::get<1>(i) ? 'u' : 'd');
    return os.str();
}

void compare(const Sea& s, const Model& m, uint64_t ground, uint64_t n, bool ordered)
{
    MC_CHECK(s.vanishes == m.vanished, "state ", show(s), " expected ", m.vanished ? "vanished" : "alive");
    MC_CHECK(s.is_initial_fermi_sea() == (!m.vanished && m.occ == ground), "is_initial_fermi_sea ", s.is_initial_fermi_sea(), " in ", show(s));
    if(!m.vanished) {
        const auto d = diff(m.occ, ground, n);
        std::vector<Indices> c(s.created_particles.begin(), s.created_particles.end()), a(s.annihilated_particles.begin(), s.annihilated_particles.end());
        if(!ordered) {
            std::sort(c.begin(), c.end());
            std::sort(a.begin(), a.end());
        }
        MC_CHECK(c == d.first && a == d.second, "state ", show(s), " does not hold the ", ordered ? "sorted " : "", "differences to the sea");
    }
}

Monomial monomial(const Word& w)
{
    Monomial m;
    for(auto& o : w) m.push_back(Operator{o.creator, o.index, o.up});
    return m;
}

std::vector<Op> all_ops(uint64_t n)
{
    std::vector<Op> v;
    for(uint64_t k = 0; k < n; ++k)
        for(bool up : {false, true})
            for(bool c : {false, true}) v.push_back({c, k, up});
    return v;
}

// all occupations of the initial sea, some with an energy exactly at the Fermi energy
struct Start {
    sea::Table d;
    double fermi;
    uint64_t ground;
};
std::vector<Start> starts(uint64_t n)
{
    std::vector<Start> v;
    for(uint64_t p = 0; p < (1ull << n); ++p) {
        Start s;
        // the last: levels that single precision does not tell from the Fermi energy
        s.fermi = p % 3 == 0 ? 0. : (p % 3 == 1 ? -1.25 : 2.6);
        const double width = p % 3 == 2 ? 1e-12 : 1.;
        for(uint64_t k = 0; k < n; ++k)
            s.d.e.push_back(s.fermi + width * ((p >> k & 1) ? -0.5 - double(k) : (k % 2 ? 0. : 0.25)));
        s.ground = sea::ground(s.d, n, s.fermi);
        v.push_back(s);
    }
    return v;
}

void bfs_operators(uint64_t n)
{
    const auto ops = all_ops(n);
    for(auto& st : starts(n)) {
        std::map<uint64_t, Sea> reached{{st.ground, Sea()}};
        std::deque<uint64_t> queue{st.ground};
        std::set<uint64_t> seen{st.ground};
        MC_CASE("N=", n, " initial sea ", st.ground) { compare(Sea(), Model{false, st.ground}, st.ground, n, true); }
        while(!queue.empty()) {
            const auto occ = queue.front();
            queue.pop_front();
            MC_COUNT("states", 1);
            const Sea s = reached[occ];
            MC_CASE("N=", n, " sea ", st.ground, " occupation ", occ)
            {
                mc::distinct(mc::mix(mc::mix(n * 1000003 + st.ground) + occ));
                for(auto& o : ops) {
                    Model m{false, occ};
                    m.vanished = !sea::apply({o}, m.occ);
                    const Operator op{o.creator, o.index, o.up};
                    const Sea before = s;
                    Sea a = s, b = s;
                    a.apply_operator(op, st.d, st.fermi);
                    compare(a, m, st.ground, n, true);
                    b.apply_monomial(monomial({o}), st.d, st.fermi);
                    compare(b, m, st.ground, n, true);
                    MC_COUNT("transitions", 2);
                    MC_COUNT("traces", 2);
                    if(m.vanished) { // stays vanished, whatever follows
                        for(auto& p : ops) {
                            Sea c = a, d = b;
                            const Operator q{p.creator, p.index, p.up};
                            c.apply_operator(q, st.d, st.fermi);
                            d.apply_monomial(monomial({p}), st.d, st.fermi);
                            MC_CHECK(c.vanishes && d.vanishes && !c.is_initial_fermi_sea() && !d.is_initial_fermi_sea(), "a vanished state came back: ", show(c));
                            MC_COUNT("transitions", 2);
                        }
                    }
                }
            }
            for(auto& o : ops) {
                uint64_t next = occ;
                if(!sea::apply({o}, next) || !seen.insert(next).second) continue;
                Sea t = s;
                t.apply_operator(Operator{o.creator, o.index, o.up}, st.d, st.fermi);
                reached[next] = t;
                queue.push_back(next);
            }
        }
    }
}

// every product up to the length from every reachable state
void products(uint64_t n, std::size_t len)
{
    const auto ops = all_ops(n);
    for(auto& st : starts(n)) {
        for(uint64_t occ = 0; occ < (1ull << (2 * n)); ++occ) {
            // reach the state by one canonical product
            Word path;
            for(uint64_t k = 0; k < n; ++k)
                for(bool up : {false, true}) {
                    const auto b = sea::bit(k, up);
                    if((occ ^ st.ground) & b) path.insert(path.begin(), Op{bool(occ & b), k, up});
                }
            MC_CASE("N=", n, " sea ", st.ground, " occupation ", occ, " products up to ", len)
            {
                mc::distinct(mc::mix(mc::mix(n * 1000003 + st.ground + 77) + occ));
                Sea s;
                s.apply_monomial(monomial(path), st.d, st.fermi);
                compare(s, Model{false, occ}, st.ground, n, true);
                MC_COUNT("states", 1);
                std::vector<std::size_t> w;
                for(std::size_t l = 0; l <= len; ++l) {
                    w.assign(l, 0);
                    for(;;) {
                        Word word;
                        for(auto i : w) word.push_back(ops[i]);
                        Model m{false, occ};
                        m.vanished = !sea::apply(word, m.occ);
                        Sea t      = s;
                        t.apply_monomial(monomial(word), st.d, st.fermi);
                        const auto before = mc::S().violations.size();
                        compare(t, m, st.ground, n, true);
                        if(mc::S().violations.size() != before) mc::violate("", mc::str("after the product ", word));
                        MC_COUNT("transitions", 1);
                        MC_COUNT("traces", 1);
                        std::size_t i = l;
                        while(i > 0) {
                            if(++w[i - 1] < ops.size()) break;
                            w[--i] = 0;
                        }
                        if(i == 0) break;
                    }
                }
            }
        }
    }
}

// create_particle / annihilate_particle called directly: lists in any order
void direct(uint64_t n)
{
    const auto ops = all_ops(n);
    for(auto& st : starts(n)) {
        std::map<std::string, std::pair<Sea, uint64_t>> reached;
        std::deque<std::string> queue;
        reached[show(Sea())] = {Sea(), st.ground};
        queue.push_back(show(Sea()));
        while(!queue.empty()) {
            const auto key = queue.front();
            queue.pop_front();
            const Sea s         = reached[key].first;
            const uint64_t occ  = reached[key].second;
            MC_COUNT("states", 1);
            MC_CASE("direct N=", n, " sea ", st.ground, " state ", key)
            {
                mc::distinct(mc::hash_str(mc::str(n, ':', st.ground, key)));
                for(auto& o : ops) {
                    Model m{false, occ};
                    m.vanished = !sea::apply({o}, m.occ);
                    Sea t      = s;
                    const Indices idx(o.index, o.up);
                    const bool ret = o.creator ? t.create_particle(idx, st.d, st.fermi) : t.annihilate_particle(idx, st.d, st.fermi);
                    MC_CHECK(ret == !m.vanished, o.creator ? "create" : "annihilate", " returned ", ret);
                    compare(t, m, st.ground, n, false);
                    MC_CHECK(Sea::is_initially_occupied(idx, st.d, st.fermi) == bool(st.ground & sea::bit(o.index, o.up)), "initial occupation");
                    if(m.vanished) {
                        Sea u = t;
                        MC_CHECK(!u.create_particle(idx, st.d, st.fermi) && !u.annihilate_particle(idx, st.d, st.fermi) && u.vanishes, "a vanished state came back");
                    } else { // sorted again by the next product
                        Sea u = t;
                        u.apply_monomial(monomial({}), st.d, st.fermi);
                        compare(u, m, st.ground, n, true);
                    }
                    MC_COUNT("transitions", 1);
                    MC_COUNT("traces", 1);
                }
            }
            for(auto& o : ops) {
                uint64_t next = occ;
                if(!sea::apply({o}, next)) continue;
                Sea t = s;
                const Indices idx(o.index, o.up);
                o.creator ? t.create_particle(idx, st.d, st.fermi) : t.annihilate_particle(idx, st.d, st.fermi);
                if(reached.emplace(show(t), std::make_pair(t, next)).second) queue.push_back(show(t));
            }
        }
    }
}

// the sea of the real dispersion, default Fermi energy
void real_dispersion(uint64_t all)
{
    using namespace ieompp::lattices;
    for(uint64_t n = 1; n <= all; ++n) {
        const PeriodicChain<double> bz(n), lattice(n, 1.);
        for(double J : {1., -1.}) {
            const auto d = ieompp::models::hubbard::make_dispersion(bz, lattice, J);
            for(double fermi : {0., -1., 1.3, 2.5, -2.5}) {
                const auto ground = sea::ground(d, n, fermi);
                for(uint64_t k = 0; k < n; ++k) {
                    MC_CASE("cosine band N=", n, " J=", J, " Fermi energy ", fermi, " momentum ", k)
                    {
                        for(auto o : {Op{true, k, true}, Op{false, k, true}, Op{true, k, false}, Op{false, k, false}}) {
                            Model m{false, ground};
                            m.vanished = !sea::apply({o}, m.occ);
                            Sea s;
                            s.apply_operator(Operator{o.creator, o.index, o.up}, d, fermi);
                            compare(s, m, ground, n, true);
                            Sea t;
                            t.apply_monomial(monomial(dagger({o})), d, fermi);
                            Model m2{false, ground};
                            m2.vanished = !sea::apply(dagger({o}), m2.occ);
                            compare(t, m2, ground, n, true);
                            if(fermi == 0.) {
                                Sea u, v;
                                u.apply_operator(Operator{o.creator, o.index, o.up}, d);
                                v.apply_monomial(monomial({o}), d);
                                compare(u, m, ground, n, true);
                                compare(v, m, ground, n, true);
                            }
                            MC_COUNT("transitions", 2);
                            MC_COUNT("traces", 2);
                        }
                    }
                }
            }
        }
    }
}
// momenta with large indices, some of which agree in their low bits
struct Labelled {
    using Float = double;
    std::map<uint64_t, double> e;
    double operator()(uint64_t i) const { return e.at(i); }
};
void labels()
{
    const uint64_t n = 3;
    const std::vector<std::vector<uint64_t>> sets{{0, 256, 512}, {255, 511, 65791}, {1, 65537, (uint64_t(1) << 32) + 1}, {7, (uint64_t(1) << 31) + 7, (uint64_t(1) << 63) + 7}};
    const auto ops = all_ops(n);
    const int depth = mc::pick(4, 6);
    for(auto& set : sets)
        for(uint64_t p = 0; p < (1ull << n); ++p) {
            Labelled d;
            uint64_t ground = 0;
            for(uint64_t k = 0; k < n; ++k) {
                d.e[set[k]] = (p >> k & 1) ? -1. : 1.;
                if(p >> k & 1) ground |= sea::bit(k, true) | sea::bit(k, false);
            }
            Word w;
            std::function<void(const Sea&, const Model&, const Op&)> go = [&](const Sea& s, const Model& m, const Op& o) {
                w.insert(w.begin(), o);
                Sea t = s, u;
                Model x = m;
                x.vanished = x.vanished || !sea::apply({o}, x.occ);
                t.apply_operator(Operator{o.creator, set[o.index], o.up}, d, 0.);
                Monomial mono;
                for(auto& y : w) mono.push_back(Operator{y.creator, set[y.index], y.up});
                u.apply_monomial(mono, d, 0.);
                MC_COUNT("transitions", 2);
                for(auto* z : {&t, &u}) {
                    Sea small = *z;
                    for(auto* list : {&small.created_particles, &small.annihilated_particles})
                        for(auto& i : *list) {
                            uint64_t k = 0;
                            while(k < n && set[k] != std::get<0>(i)) ++k;
                            MC_CHECK(k < n, "momentum ", std::get<0>(i), " in ", show(*z));
                            std::get<0>(i) = k;
                        }
                    compare(small, x, ground, n, true);
                }
                if(!x.vanished && int(w.size()) < depth)
                    for(auto& next : ops) go(t, x, next);
                w.erase(w.begin());
            };
            for(auto& o : ops)
                MC_CASE("momenta ", set, " sea ", p, " first operator ", mc::str(o.creator, o.index, o.up))
                {
                    mc::distinct(mc::hash_str(mc::str("l", set[1], '/', p, '/', o.creator, o.index, o.up)));
                    go(Sea(), Model{false, ground}, o);
                }
        }
}

// many particles at once: every mode of a large sea is changed, one after the other, and back again
void many()
{
    for(uint64_t n : {9, 20, 32})
        for(int sea_kind = 0; sea_kind < 4; ++sea_kind)
            for(uint64_t stride : {1, 5, 7, 13, 31, 63}) {
                if([](uint64_t a, uint64_t b) { for(; b; std::swap(a, b)) a %= b; return a; }(stride, 2 * n) != 1) continue;
                MC_CASE("N=", n, " sea ", sea_kind, " all modes in steps of ", stride)
                {
                    mc::distinct(mc::hash_str(mc::str("many", n, '/', sea_kind, '/', stride)));
                    sea::Table d;
                    for(uint64_t k = 0; k < n; ++k) d.e.push_back(sea_kind == 0 ? -1. : sea_kind == 1 ? 1. : sea_kind == 2 ? (k % 2 ? -1. : 1.) : (k % 3 ? -0.5 : 0.5));
                    const auto ground = sea::ground(d, n, 0.);
                    uint64_t occ      = ground;
                    Sea s;
                    Word w;
                    for(int back = 0; back < 2; ++back)
                        for(uint64_t i = 0; i < 2 * n; ++i) {
                            const uint64_t mode = back ? (stride * 3 % 2 ? 2 * n - 1 - i : i) : i * stride % (2 * n), k = mode / 2;
                            const bool up = mode % 2;
                            const Op o{!(occ & sea::bit(k, up)), k, up};
                            sea::apply({o}, occ);
                            w.insert(w.begin(), o);
                            s.apply_operator(Operator{o.creator, o.index, o.up}, d, 0.);
                            compare(s, Model{false, occ}, ground, n, true);
                            MC_COUNT("transitions", 1);
                            // what cannot be done in the state reached
                            for(uint64_t j = 0; j < n; j += 3)
                                for(bool spin : {false, true}) {
                                    Sea t = s;
                                    t.apply_operator(Operator{bool(occ & sea::bit(j, spin)), j, spin}, d, 0.);
                                    MC_CHECK(t.vanishes && !t.is_initial_fermi_sea(), "creating an occupied or annihilating an empty mode gives ", show(t));
                                }
                            if(i % 8 == 7 || i + 1 == 2 * n) {
                                Sea t;
                                t.apply_monomial(monomial(w), d, 0.);
                                compare(t, Model{false, occ}, ground, n, true);
                                MC_COUNT("traces", 1);
                            }
                        }
                    MC_CHECK(occ == ground && s.is_initial_fermi_sea(), "not back at the sea: ", show(s));
                }
            }
}

// more changed modes than a narrow counter holds
void hundreds()
{
    for(uint64_t n : {127, 128, 130, 257, 300})
        for(int sea_kind = 0; sea_kind < 3; ++sea_kind)
            for(bool from_top : {false, true})
                MC_CASE("N=", n, " sea ", sea_kind, from_top ? " all modes from the last" : " all modes from the first")
                {
                    mc::distinct(mc::hash_str(mc::str("hundreds", n, '/', sea_kind, from_top)));
                    sea::Table d;
                    for(uint64_t k = 0; k < n; ++k) d.e.push_back(sea_kind == 0 || (sea_kind == 2 && k % 2) ? -1. : 1.);
                    auto inside = [&](uint64_t k) { return d.e[k] < 0.; };
                    Sea s;
                    std::vector<Indices> created, annihilated; // kept sorted
                    Monomial whole;
                    std::vector<Operator> done;
                    for(int back = 0; back < 2; ++back)
                        for(uint64_t i = 0; i < 2 * n; ++i) {
                            const uint64_t mode = bool(back) != from_top ? 2 * n - 1 - i : i, k = mode / 2;
                            const bool up = mode % 2;
                            auto& list = inside(k) ? annihilated : created;
                            const Indices entry(k, up);
                            const auto at = std::lower_bound(list.begin(), list.end(), entry);
                            if(back) list.erase(at);
                            else list.insert(at, entry);
                            const Operator o{inside(k) == bool(back), k, up};
                            done.push_back(o);
                            Sea twice = s;
                            s.apply_operator(o, d, 0.);
                            twice.apply_operator(Operator{!o.creator, k, up}, d, 0.);
                            MC_CHECK(twice.vanishes, "creating an occupied or annihilating an empty mode after ", done.size(), " operators");
                            MC_CHECK(!s.vanishes, "vanished after ", done.size(), " operators");
                            MC_CHECK(s.created_particles.size() == created.size() && std::equal(created.begin(), created.end(), s.created_particles.begin()), s.created_particles.size(),
                                     " particles created instead of ", created.size());
                            MC_CHECK(s.annihilated_particles.size() == annihilated.size() && std::equal(annihilated.begin(), annihilated.end(), s.annihilated_particles.begin()),
                                     s.annihilated_particles.size(), " particles annihilated instead of ", annihilated.size());
                            MC_CHECK(s.is_initial_fermi_sea() == (created.empty() && annihilated.empty()), "is_initial_fermi_sea after ", done.size(), " operators");
                            MC_COUNT("transitions", 1);
                            if(i % 64 == 63 || i + 1 == 2 * n) {
                                Monomial m;
                                for(auto x = done.rbegin(); x != done.rend(); ++x) m.push_back(*x);
                                Sea t;
                                t.apply_monomial(m, d, 0.);
                                MC_CHECK(t.vanishes == s.vanishes && t.created_particles == s.created_particles && t.annihilated_particles == s.annihilated_particles, "a product of ", done.size(),
                                         " operators differs from one after the other");
                                MC_COUNT("traces", 1);
                            }
                        }
                    MC_CHECK(s.is_initial_fermi_sea(), "not back at the sea");
                }
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
                   {{"operators", [] { for(uint64_t n = 1; n <= mc::pick(6ull, 7ull); ++n) bfs_operators(n); }},
                    {"products2", [] { products(1, mc::pick(6, 8)); products(2, mc::pick(4, 5)); }},
                    {"products3", [] { products(3, mc::pick(3, 4)); }},
                    {"direct", [] { direct(1); direct(2); direct(3); }},
                    {"deep4", [] { products(4, 3); }},
                    {"labels", labels},
                    {"many", many},
                    {"hundreds", hundreds},
                    {"band", [] { real_dispersion(mc::pick(24, 40)); }}});
}

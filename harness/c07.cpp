// C07: histories of multiplications, copies and conjugations on registers of real objects and of models.
#include "mc.hpp"
#include <array>
#include <deque>
#include <limits>
#include <list>
#include <set>
#include "algebra.hpp"
#include "ieompp/algebra/kronecker.hpp"
#include "ieompp/algebra/monomial/monomial.hpp"
#include "ieompp/algebra/term/term.hpp"
#include "ieompp/symbolic/prefactor.hpp"
using namespace alg;

// Model of a product: value and word of letters; letter = 2 * mode + annihilator
template <typename V>
struct M {
    V value;
    std::vector<int> w;
    bool operator==(const M& o) const { return value == o.value && w == o.w; }
};
template <typename V>
std::ostream& operator<<(std::ostream& s, const M<V>& m) { return s << m.value << " " << mc::str(m.w); }
template <typename V>
M<V> operator*(const M<V>& a, const M<V>& b)
{
    M<V> r{a.value * b.value, a.w};
    r.w.insert(r.w.end(), b.w.begin(), b.w.end());
    return r;
}
inline std::complex<double> cj(const std::complex<double>& z) { return std::conj(z); }
inline int cj(int x) { return x; }
inline double cj(double x) { return x; }
template <typename V>
M<V> dag(const M<V>& a)
{
    M<V> r{cj(a.value), {}};
    for(std::size_t i = a.w.size(); i-- > 0;) r.w.push_back(a.w[i] ^ 1);
    return r;
}

template <typename Obj, typename V, typename Read>
struct Machine {
    static constexpr int R = 2;
    using Regs  = std::array<Obj, R>;
    using MRegs = std::array<M<V>, R>;
    const char* name;
    Regs init;
    MRegs minit;
    Read read;
    std::function<void(Obj&)> conj; // may be empty
    std::function<Obj(const Obj&)> conj_copy;
    std::set<std::string> states;

    int n_ops() const { return conj ? 12 : 10; }
    const char* op_name(int o) const
    {
        static const char* n[] = {"a*=b", "b*=a", "a*=a", "b*=b", "a=a*b", "b=a*b", "a=a*a", "b=a", "swap", "b=b*a*b", "conj a", "b=conj a"};
        return n[o];
    }
    void apply(int o, Regs& r, MRegs& m)
    {
        switch(o) {
            case 0: { auto& x = (r[0] *= r[1]); same_object(&x, &r[0]); m[0] = m[0] * m[1]; break; }
            case 1: { auto& x = (r[1] *= r[0]); same_object(&x, &r[1]); m[1] = m[1] * m[0]; break; }
            case 2: { auto& x = (r[0] *= r[0]); same_object(&x, &r[0]); m[0] = m[0] * m[0]; break; }
            case 3: { r[1] *= r[1]; m[1] = m[1] * m[1]; break; }
            case 4: { r[0] = r[0] * r[1]; m[0] = m[0] * m[1]; break; }
            case 5: { r[1] = r[0] * r[1]; m[1] = m[0] * m[1]; break; }
            case 6: { r[0] = r[0] * r[0]; m[0] = m[0] * m[0]; break; }
            case 7: { r[1] = r[0]; m[1] = m[0]; break; }
            case 8: { std::swap(r[0], r[1]); std::swap(m[0], m[1]); break; }
            case 9: { r[1] = r[1] * r[0] * r[1]; m[1] = m[1] * m[0] * m[1]; break; }
            case 10: { conj(r[0]); m[0] = dag(m[0]); break; }
            case 11: { r[1] = conj_copy(r[0]); m[1] = dag(m[0]); break; }
        }
    }
    void same_object(const void* a, const void* b) { MC_CHECK(a == b, "*= does not return its left operand"); }

    std::string show(const std::vector<int>& h) const
    {
        std::string s;
        for(int o : h) s += std::string(s.empty() ? "" : "; ") + op_name(o);
        return s;
    }
    void run(std::size_t depth)
    {
        std::vector<int> h;
        explore(h, depth, init, minit);
        MC_COUNT("states", states.size());
    }
    // depth first; every history is one case, and continues from copies of the registers
    void explore(std::vector<int>& h, std::size_t depth, const Regs& r, const MRegs& m)
    {
        if(h.size() == depth) return;
        for(int o = 0; o < n_ops(); ++o) {
            h.push_back(o);
            Regs r2  = r;
            MRegs m2 = m;
            bool deeper = true;
            // the step itself runs inside the case, so that a crash names it
            MC_CASE(name, " ", show(h))
            {
                MC_COUNT("transitions", 1);
                MC_COUNT("traces", 1);
                apply(o, r2, m2);
                for(int i = 0; i < R; ++i) {
                    const auto got = read(r2[i]);
                    MC_CHECK(got == m2[i], "register ", i == 0 ? "a" : "b", " is ", got, " instead of ", m2[i]);
                }
                states.insert(mc::str(m2[0], "|", m2[1]));
            }
            if(mc::S().only && mc::S().case_no < mc::S().only) {
                // replaying one case: still bring the registers up to date
                apply(o, r2, m2);
            }
            for(int i = 0; i < R; ++i)
                if(m2[i].w.size() > 48 || double(std::abs(m2[i].value)) > 1000) deeper = false;
            if(deeper) explore(h, depth, r2, m2);
            h.pop_back();
        }
    }
};
template <typename Obj, typename V, typename Read>
Machine<Obj, V, Read> machine(const char* n, std::array<Obj, 2> i, std::array<M<V>, 2> mi, Read rd)
{
    return Machine<Obj, V, Read>{n, i, mi, rd, nullptr, nullptr, {}};
}

using O2 = Operator<uint64_t, bool>;
using OS = Operator<std::string>;
inline O2 o2(int l) { return (l & 1) ? O2::make_annihilator(uint64_t(l / 4), bool(l / 2 % 2)) : O2::make_creator(uint64_t(l / 4), bool(l / 2 % 2)); }
inline int l2(const O2& o) { return int(o.index1 * 4) + int(o.index2) * 2 + !o.creator; }
inline OS os(int l) { return (l & 1) ? OS::make_annihilator("index number " + std::to_string(l / 2)) : OS::make_creator("index number " + std::to_string(l / 2)); }
inline int ls(const OS& o) { return std::stoi(o.index.substr(13)) * 2 + !o.creator; }

template <typename Obj, typename Mach>
void with_conj(Mach& m)
{
    m.conj      = [](Obj& o) { o.conjugate(); };
    m.conj_copy = [](const Obj& o) { return o.get_conjugate(); };
}
void part_monomial()
{
    using Mon = Monomial<O2>;
    auto rd   = [](const Mon& m) {
        M<int> r{1, {}};
        for(auto& o : m) r.w.push_back(l2(o));
        return r;
    };
    auto m = machine<Mon, int>("monomial", {{Mon{o2(0), o2(3)}, Mon{o2(5)}}}, {{{1, {0, 3}}, {1, {5}}}}, rd);
    with_conj<Mon>(m);
    m.run(mc::pick(5, 6));
    using MonS = Monomial<OS>;
    auto rs    = [](const MonS& m) {
        M<int> r{1, {}};
        for(auto& o : m) r.w.push_back(ls(o));
        return r;
    };
    auto n = machine<MonS, int>("string monomial", {{MonS{os(1)}, MonS{}}}, {{{1, {1}}, {1, {}}}}, rs);
    with_conj<MonS>(n);
    n.run(mc::pick(4, 5));
}
template <typename T, typename V>
void term_machine(const char* name, std::size_t depth, V va, V vb)
{
    auto rd = [](const T& t) {
        M<V> r{t.prefactor, {}};
        for(auto& o : t.operators) r.w.push_back(l2(o));
        return r;
    };
    T a{va, {}}, b{vb, {}};
    a.operators.push_back(o2(2));
    a.operators.push_back(o2(7));
    b.operators.push_back(o2(1));
    auto m = machine<T, V>(name, {{a, b}}, {{{va, {2, 7}}, {vb, {1}}}}, rd);
    with_conj<T>(m);
    m.run(depth);
}
void part_term()
{
    using C = std::complex<double>;
    term_machine<Term<C, O2>, C>("complex term", mc::pick(5, 5), C(1, 2), C(0, -1));
    term_machine<Term<int, O2, std::list<O2>>, int>("int term, list", mc::pick(3, 5), 2, -1);
    term_machine<Term<double, O2, std::deque<O2>>, double>("double term, deque", mc::pick(3, 4), -0.5, 3.);
}
void part_prefactor()
{
    using P = ieompp::symbolic::Prefactor<int>;
    auto rd = [](const P& p) {
        M<int> r{p.value, {}};
        for(auto& k : p.kroneckers) r.w.push_back((k.a[0] - 'a') * 26 + (k.b[0] - 'a'));
        return r;
    };
    P a, b;
    a.value = 2;
    a.kroneckers.push_back({"a", "b"});
    a.kroneckers.push_back({"d", "c"});
    b.value = -1;
    b.kroneckers.push_back({"b", "b"});
    auto m = machine<P, int>("prefactor", {{a, b}}, {{{2, {1, 3 * 26 + 2}}, {-1, {27}}}}, rd);
    m.run(mc::pick(5, 6));
    // factors of other kinds: every sequence of up to four
    const std::vector<Kronecker> ks{{"x", "y"}, {"y", "z"}};
    const std::vector<int> kw{23 * 26 + 24, 24 * 26 + 25};
    for(std::size_t len = 0; len <= mc::pick(4u, 6u); ++len)
        words(6, len, [&](const std::vector<std::size_t>& h) {
            MC_CASE("prefactor factors ", h)
            {
                mc::distinct(mc::hash_str(mc::str(h)));
                using PD = ieompp::symbolic::Prefactor<double>;
                PD p     = ieompp::symbolic::make_prefactor(0.5, {Kronecker{"a", "b"}});
                M<double> m{0.5, {1}};
                bool ok = true;
                for(auto o : h) {
                    PD* r = nullptr;
                    const std::size_t before = m.w.size();
                    switch(o) {
                        case 0: r = &(p *= -2); m.value *= -2; break;
                        case 1: r = &(p *= 0.25); m.value *= 0.25; break;
                        case 2: r = &(p *= ks[0]); m.w.push_back(kw[0]); break;
                        case 3: r = &(p *= ks); m.w.insert(m.w.end(), kw.begin(), kw.end()); break;
                        case 4: r = &(p *= b); m.value *= -1; m.w.push_back(27); break;
                        case 5: {
                            if(before > 32) break;
                            r = &(p *= p.kroneckers);
                            const auto w = m.w;
                            m.w.insert(m.w.end(), w.begin(), w.end());
                            break;
                        }
                    }
                    ok = ok && (r == nullptr || r == &p);
                }
                M<double> got{p.value, {}};
                for(auto& k : p.kroneckers) got.w.push_back((k.a[0] - 'a') * 26 + (k.b[0] - 'a'));
                MC_CHECK(got == m, "is ", got, " instead of ", m);
                MC_CHECK(ok, "*= does not return its left operand");
                MC_CHECK(b.value == -1 && b.kroneckers.size() == 1 && ks.size() == 2, "a right factor was changed");
                MC_COUNT("traces", 1);
                MC_COUNT("transitions", len);
            }
        });
    MC_CASE("make_prefactor")
    {
        const auto p = ieompp::symbolic::make_prefactor(3);
        MC_CHECK(p.value == 3 && p.kroneckers.empty(), "make_prefactor(3)");
        const auto q = ieompp::symbolic::make_prefactor(-1.5, {Kronecker{"a", "b"}, Kronecker{"c", "a"}});
        MC_CHECK(q.value == -1.5 && q.kroneckers.size() == 2 && q.kroneckers[1].a == "c" && q.kroneckers[1].b == "a", "make_prefactor with deltas");
    }
}
// associativity, equality and unchanged operands over all small words
void part_laws()
{
    using Mon = Monomial<O2>;
    using T   = Term<int, O2>;
    Table<O2> t;
    for(int l = 0; l < 4; ++l) t.emplace_back(o2(l), MOp{l % 2 == 0, {l / 2}});
    std::vector<std::vector<std::size_t>> ws;
    for(std::size_t len = 0; len <= 2; ++len) words(4, len, [&](const std::vector<std::size_t>& w) { ws.push_back(w); });
    auto letters = [](const std::vector<O2>& v) {
        std::vector<int> r;
        for(auto& o : v) r.push_back(l2(o));
        return r;
    };
    for(std::size_t i = 0; i < ws.size(); ++i)
        for(std::size_t j = 0; j < ws.size(); ++j)
            MC_CASE("products of ", ws[i], " and ", ws[j], " and every third product")
            {
                const Mon a = build<Mon>(t, ws[i]), b = build<Mon>(t, ws[j]);
                const T ta{2, build<std::vector<O2>>(t, ws[i])}, tb{-3, build<std::vector<O2>>(t, ws[j])};
                const Mon ab = a * b;
                const T tab  = ta * tb;
                std::vector<int> want(ws[i].begin(), ws[i].end());
                want.insert(want.end(), ws[j].begin(), ws[j].end());
                MC_CHECK(letters(ab) == want && letters(tab.operators) == want && tab.prefactor == -6, "the product is ", letters(ab));
                MC_CHECK(letters(a).size() == ws[i].size() && letters(b).size() == ws[j].size(), "an operand was changed");
                MC_CHECK((a == b) == (ws[i] == ws[j]) && (a != b) == (ws[i] != ws[j]), "equality");
                for(auto& w : ws) {
                    const Mon c = build<Mon>(t, w);
                    const T tc{5, build<std::vector<O2>>(t, w)};
                    const Mon l = ab * c, r = a * (b * c);
                    MC_CHECK(l == r && !(l != r) && letters(l) == letters(r), "not associative with ", w);
                    const T tl = tab * tc, tr = ta * (tb * tc);
                    MC_CHECK(tl.have_same_operators(tr) && tl.prefactor == -30 && tr.prefactor == -30, "terms not associative with ", w);
                }
            }
}
// products of long products
void part_long()
{
    using Mon = Monomial<O2>;
    using T   = Term<int, O2>;
    Table<O2> t;
    for(int l = 0; l < 4; ++l) t.emplace_back(o2(l), MOp{l % 2 == 0, {l / 2}});
    auto letters = [](const std::vector<O2>& v) {
        std::vector<std::size_t> r;
        for(auto& o : v) r.push_back(std::size_t(l2(o)));
        return r;
    };
    const std::size_t lengths[] = {0, 1, 2, 17, 64, 127, 128, 129, 254, 255, 256, 257, 300, 1000};
    for(std::size_t m : lengths)
        for(std::size_t n : lengths)
            MC_CASE("products of ", m, " and ", n, " operators")
            {
                mc::distinct(mc::hash_str(mc::str("long ", m, ' ', n)));
                const auto wa = long_word(4, m, 1), wb = long_word(4, n, 2);
                const Mon a = build<Mon>(t, wa), b = build<Mon>(t, wb);
                const T ta{2, build<std::vector<O2>>(t, wa)}, tb{-3, build<std::vector<O2>>(t, wb)};
                auto want = wa;
                want.insert(want.end(), wb.begin(), wb.end());
                const Mon ab = a * b;
                const T tab  = ta * tb;
                MC_CHECK(letters(ab) == want, "the product has ", ab.size(), " operators");
                MC_CHECK(letters(tab.operators) == want && tab.prefactor == -6, "the product of the terms has ", tab.operators.size(), " operators");
                Mon c = a;
                c *= b;
                T tc = ta;
                tc *= tb;
                MC_CHECK(letters(c) == want && letters(tc.operators) == want && tc.prefactor == -6, "the products in place have ", c.size(), " and ", tc.operators.size(), " operators");
                c = a;
                c *= c;
                tc = ta;
                tc *= tc;
                want = wa;
                want.insert(want.end(), wa.begin(), wa.end());
                MC_CHECK(letters(c) == want && letters(tc.operators) == want && tc.prefactor == 4, "the squares have ", c.size(), " and ", tc.operators.size(), " operators");
                MC_CHECK(letters(a) == wa && letters(b) == wb && letters(ta.operators) == wa && letters(tb.operators) == wb, "an operand was changed");
                MC_COUNT("transitions", 6);
            }
}
int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"monomial", part_monomial}, {"term", part_term}, {"prefactor", part_prefactor}, {"laws", part_laws}, {"long", part_long}});
}

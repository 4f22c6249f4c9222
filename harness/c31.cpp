// C31: printed form of operators, products, terms, Kronecker deltas and symbolic prefactors.
#include "mc.hpp"
#include <deque>
#include <limits>
#include <map>
#include "algebra.hpp"
#include "ieompp/algebra/kronecker.hpp"
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/algebra/term.hpp"
#include "ieompp/algebra/term/io.hpp"
#include "ieompp/algebra/term/term.hpp"
#include "ieompp/symbolic/index.hpp"
#include "ieompp/symbolic/prefactor.hpp"
using namespace alg;
using ieompp::symbolic::MomentumIndex;
using ieompp::symbolic::SpaceIndex;
using ieompp::symbolic::SpinIndex;
using CD = std::complex<double>;

namespace alg
{
    template <>
    struct Values<SpaceIndex> {
        static std::vector<SpaceIndex> get() { return {SpaceIndex(), SpaceIndex(0), SpaceIndex(12), SpaceIndex("i")}; }
    };
    template <>
    struct Values<MomentumIndex> {
        static std::vector<MomentumIndex> get() { return {MomentumIndex(), MomentumIndex(0), MomentumIndex(12), MomentumIndex("q")}; }
    };
    template <>
    struct Values<SpinIndex> {
        static std::vector<SpinIndex> get() { return {SpinIndex(), SpinIndex(0), SpinIndex(12), SpinIndex("s")}; }
    };
}

// independent text of an index
#ifdef IEOMPP_DISABLE_ARROWS
std::string text(bool b) { return b ? "1" : "0"; }
#else
std::string text(bool b) { return b ? "\xe2\x86\x91" : "\xe2\x86\x93"; }
#endif
std::string text(char c) { return std::string(1, c); }
std::string text(const std::string& s) { return s; }
std::string text(double d)
{
    char b[64];
    std::snprintf(b, sizeof b, "%g", d);
    return b;
}
template <typename T>
typename std::enable_if<std::is_integral<T>::value, std::string>::type text(T v) { return std::to_string(v); }
template <typename T>
auto text(const T& t) -> decltype(t.index) { return t.index; }

template <typename Tup, std::size_t... Is>
std::string join(const Tup& t, std::index_sequence<Is...>)
{
    std::string r;
    const std::string v[] = {text(std::get<Is>(t))...};
    for(std::size_t i = 0; i < sizeof...(Is); ++i) r += (i ? "," : "") + v[i];
    return r;
}
template <typename... Ts>
std::string oracle(const Operator<Ts...>& o)
{
    return std::string("c") + (o.creator ? "^\xe2\x80\xa0" : "") + "_{" + join(fields(o), std::index_sequence_for<Ts...>{}) + "}";
}
template <typename T>
std::string printed(const T& t)
{
    std::ostringstream s;
    std::ostream& r = (s << t);
    MC_CHECK(&r == &s, "printing returns the stream");
    return s.str();
}
template <typename... Ts>
void ops(const char* name, std::size_t limit = 99)
{
    const auto t = all_ops<Ts...>(limit);
    std::map<std::string, std::size_t> seen;
    for(std::size_t i = 0; i < t.size(); ++i) {
        MC_CASE(name, " operator ", t[i].second)
        {
            const auto copy = t[i].first;
            const auto p    = printed(t[i].first);
            MC_CHECK(p == oracle(t[i].first), "printed ", p, " instead of ", oracle(t[i].first));
            MC_CHECK(t[i].first == copy, "printing changed the operator");
            const auto ins = seen.emplace(p, i);
            MC_CHECK(ins.second, "prints like operator ", t[ins.first->second].second, ": ", p);
            mc::distinct(mc::hash_str(std::string(name) + p));
            // twice in a row, without separators
            std::ostringstream s;
            s << t[i].first << t[i].first;
            MC_CHECK(s.str() == p + p, "second print differs: ", s.str());
        }
    }
}
void part_ops()
{
    ops<int>("int");
    ops<uint64_t>("u64");
    ops<int16_t>("i16");
    ops<bool>("bool");
    ops<double>("double");
    ops<char>("char");
    ops<std::string>("string");
    ops<SpaceIndex>("Space");
    ops<MomentumIndex>("Momentum");
    ops<SpinIndex>("Spin");
    ops<uint64_t, bool>("u64,bool");
    ops<bool, uint64_t>("bool,u64");
    ops<bool, bool>("bool,bool");
    ops<int, int>("int,int");
    ops<std::string, char>("string,char");
    ops<SpaceIndex, SpinIndex>("Space,Spin");
    ops<MomentumIndex, bool>("Momentum,bool");
    ops<uint64_t, uint64_t, bool>("u64,u64,bool");
    ops<bool, int, bool>("bool,int,bool");
    ops<std::string, int, bool>("string,int,bool");
    ops<SpaceIndex, MomentumIndex, SpinIndex>("Space,Momentum,Spin");
    ops<int, int, int, int>("int x4", 4);
    ops<bool, uint64_t, std::string, int>("bool,u64,string,int", 4);
    ops<bool, bool, bool, bool, bool>("bool x5");
    ops<int, bool, int, bool, int, bool>("int,bool x3", 4);
}

template <typename Op, typename W>
std::string oracle_word(const Table<Op>& t, const W& w)
{
    std::string r;
    for(std::size_t i = 0; i < w.size(); ++i) r += (i ? " " : "") + oracle(t[w[i]].first);
    return r;
}
template <typename F>
void all_words(std::size_t n, std::size_t max_len, F f)
{
    for(std::size_t len = 0; len <= max_len; ++len) words(n, len, f);
    for(std::size_t len : {7, 12, 33}) f(long_word(n, len));
}
template <typename... Ts>
void monomials(const char* name, std::size_t limit, std::size_t max_len)
{
    using Op     = Operator<Ts...>;
    const auto t = all_ops<Ts...>(limit);
    std::map<std::string, std::vector<std::size_t>> seen;
    all_words(t.size(), max_len, [&](const std::vector<std::size_t>& w) {
        MC_CASE(name, " product ", mbuild(t, w))
        {
            Monomial<Op> m;
            for(auto i : w) m.push_back(t[i].first);
            const auto copy = m;
            const auto p    = printed(m);
            MC_CHECK(p == oracle_word(t, w), "printed ", p, " instead of ", oracle_word(t, w));
            MC_CHECK(m == copy, "printing changed the product");
            const auto ins = seen.emplace(p, w);
            MC_CHECK(ins.second, "prints like ", mbuild(t, ins.first->second));
            mc::distinct(mc::hash_str(std::string(name) + "m" + p));
        }
    });
}
std::string dot() { return " \xe2\x8b\x85 "; }

template <typename P>
struct Pre;
template <>
struct Pre<int> {
    static std::vector<int> get() { return {0, 1, -1, 2, -2, 13}; }
};
template <>
struct Pre<double> {
    static std::vector<double> get() { return {0., 1., -1., 0.5, -0.25, 1e10, -3e-7}; }
};
template <>
struct Pre<CD> {
    static std::vector<CD> get() { return {{0, 0}, {1, 0}, {-1, 0}, {0, 1}, {0.5, -2}}; }
};
std::string num(int v) { return std::to_string(v); }
std::string num(double d) { return text(d); }
std::string num(const CD& z) { return "(" + text(z.real()) + "," + text(z.imag()) + ")"; }

template <typename P, typename Cont, typename Op>
void terms(const char* name, const Table<Op>& t, std::size_t max_len)
{
    std::map<std::string, std::string> seen;
    using T = Term<P, Op, Cont>;
    for(const P& v : Pre<P>::get())
        all_words(t.size(), max_len, [&](const std::vector<std::size_t>& w) {
            MC_CASE(name, " term ", v, " ", mbuild(t, w))
            {
                const T x{v, build<Cont>(t, w)};
                const auto p = printed(x);
                const auto e = num(v) + (w.empty() ? "" : dot()) + oracle_word(t, w);
                MC_CHECK(p == e, "printed ", p, " instead of ", e);
                MC_CHECK(x.prefactor == v && models(x.operators) == mbuild(t, w), "printing changed the term");
                const auto id  = mc::str(v, mbuild(t, w));
                const auto ins = seen.emplace(p, id);
                MC_CHECK(ins.second, "prints like ", ins.first->second);
                mc::distinct(mc::hash_str(std::string(name) + p));
            }
        });
}
void part_terms()
{
    monomials<int>("int", 4, 3);
    monomials<uint64_t, bool>("u64,bool", 2, 5);
    monomials<std::string, int, bool>("string,int,bool", 2, mc::pick(2, 3));
    monomials<SpaceIndex, SpinIndex>("Space,Spin", 2, 3);
    const auto t1 = all_ops<uint64_t, bool>(2);
    const auto t2 = all_ops<int>(3);
    const auto t3 = all_ops<std::string, int, bool>(2);
    terms<int, std::vector<Operator<uint64_t, bool>>>("int", t1, 4);
    terms<double, std::vector<Operator<uint64_t, bool>>>("double", t1, 4);
    terms<CD, std::vector<Operator<int>>>("complex", t2, 4);
    terms<double, std::deque<Operator<int>>>("deque", t2, 4);
    terms<CD, std::vector<Operator<std::string, int, bool>>>("3 indices", t3, mc::pick(1, 2));
}

template <typename P>
void prefactors(const char* name, std::size_t max_len)
{
    using ieompp::algebra::Kronecker;
    using SP = ieompp::symbolic::Prefactor<P>;
    const std::vector<Kronecker> ks{{"a", "b"}, {"b", "a"}, {"a", "a"}, {"k_1", "\xcf\x83"}, {"", "a"}};
    const auto t = all_ops<std::string>(2);
    std::map<std::string, std::string> seen;
    for(const P& v : Pre<P>::get())
        all_words(ks.size(), max_len, [&](const std::vector<std::size_t>& w) {
            MC_CASE(name, " prefactor ", v, " deltas ", w)
            {
                SP x{v, {}};
                std::string d;
                for(std::size_t i = 0; i < w.size(); ++i) {
                    x.kroneckers.push_back(ks[w[i]]);
                    d += (i ? " " : "") + ("\xce\xb4_{" + ks[w[i]].a + "," + ks[w[i]].b + "}");
                }
                const auto p = printed(x);
                std::string e, alt;
                if(w.empty())
                    e = num(v);
                else if(v == P(1))
                    e = d;
                else if(v == P(-1)) {
                    e   = "-" + d;
                    alt = num(v) + dot() + d; // as complex numbers do
                } else
                    e = num(v) + dot() + d;
                MC_CHECK(p == e || (!std::is_arithmetic<P>::value && !alt.empty() && p == alt), "printed ", p, " instead of ", e);
                bool same = (x.value == v) && x.kroneckers.size() == w.size();
                for(std::size_t i = 0; same && i < w.size(); ++i)
                    same = x.kroneckers[i].a == ks[w[i]].a && x.kroneckers[i].b == ks[w[i]].b;
                MC_CHECK(same, "printing changed the prefactor");
                const auto ins = seen.emplace(p, mc::str(v, w));
                MC_CHECK(ins.second, "prints like ", ins.first->second);
                mc::distinct(mc::hash_str(std::string(name) + p));
                for(auto& k : x.kroneckers) {
                    const auto kp = printed(k);
                    MC_CHECK(kp == "\xce\xb4_{" + k.a + "," + k.b + "}", "delta printed ", kp);
                }
                // in terms
                using Op = Operator<std::string>;
                for(std::size_t len = 0; len <= 2; ++len)
                    words(t.size(), len, [&](const std::vector<std::size_t>& o) {
                        const Term<SP, Op> y{x, build<std::vector<Op>>(t, o)};
                        const auto q = printed(y);
                        const auto f = p + (o.empty() ? "" : dot()) + oracle_word(t, o);
                        MC_CHECK(q == f, "term printed ", q, " instead of ", f);
                    });
            }
        });
}
void part_prefactors()
{
    prefactors<int>("int", 5);
    prefactors<double>("double", 4);
    prefactors<CD>("complex", 4);
}
// the names of symbolic indices
template <typename I>
void index_names(const char* name, const std::string& letter)
{
    std::vector<std::pair<std::string, std::function<I()>>> all{{letter, [] { return I(); }}};
    for(int i : {-12, -1, 0, 1, 2, 9, 10, 12, 99, 100, 255, 256, 65536, 2147483647})
        all.emplace_back(letter + "_" + std::to_string(i), [i] { return I(i); });
    for(const char* s : {"", "a", "k", "r", "_", "\xcf\x83'", "a much longer name of an index"})
        if(s != letter) all.emplace_back(s, [s] { return I(std::string(s)); });
    for(std::size_t x = 0; x < all.size(); ++x)
        for(std::size_t y = 0; y < all.size(); ++y)
            MC_CASE(name, " indices ", all[x].first, " and ", all[y].first)
            {
                mc::distinct(mc::hash_str(mc::str(name, '/', all[x].first, '/', all[y].first)));
                const I a = all[x].second(), b = all[y].second();
                MC_CHECK(printed(a) == all[x].first && printed(b) == all[y].first, "printed ", printed(a), " and ", printed(b));
                MC_CHECK(a.index == all[x].first && b.index == all[y].first, "named ", a.index, " and ", b.index);
                MC_CHECK((a == b) == (x == y), "equal: ", (a == b));
                MC_CHECK((a != b) == (x != y), "different: ", (a != b));
                I c = a;
                c   = b;
                MC_CHECK(c == b && printed(c) == all[y].first, "assigned ", printed(c));
            }
}
void part_indices()
{
    using namespace ieompp::symbolic;
    index_names<SpaceIndex>("space", "r");
    index_names<MomentumIndex>("momentum", "k");
    index_names<SpinIndex>("spin", "\xcf\x83");
    MC_CASE("kinds of indices")
    {
        mc::distinct(mc::hash_str("kinds"));
        constexpr int s = SpaceIndex::type, m = MomentumIndex::type, p = SpinIndex::type;
        MC_CHECK(s == IndexTypeSpace && m == IndexTypeMomentum && p == IndexTypeSpin, s, ' ', m, ' ', p);
        MC_CHECK(s != m && m != p && s != p, s, ' ', m, ' ', p);
    }
}
int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"indices", part_indices}, {"ops", part_ops}, {"terms", part_terms}, {"prefactors", part_prefactors}});
}

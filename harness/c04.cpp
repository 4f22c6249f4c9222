// C04: symbolic commutators agree with every substitution of concrete indices.
#include "mc.hpp"
#include <limits>
#include "algebra.hpp"
#include "fock.hpp"
#include "ieompp/algebra/anticommutator.hpp"
#include "ieompp/algebra/commutator.hpp"
#include "ieompp/algebra/kronecker.hpp"
#include "ieompp/algebra/term/term.hpp"
#include "ieompp/symbolic/prefactor.hpp"
using namespace alg;
using ieompp::symbolic::Prefactor;

// An index is a symbol (name number) or a concrete value. The substitution maps names to values 0..V-1.
struct Space {
    std::vector<std::string> names;
    int V;                                   // values a symbol can take
    std::vector<std::pair<bool, int>> index; // per index: symbolic?, number of concrete values
};
struct Letter {
    bool creator;
    std::vector<int> idx; // name number or concrete value
};
std::ostream& operator<<(std::ostream& s, const Letter& l)
{
    s << (l.creator ? "C" : "c");
    for(int i : l.idx) s << i;
    return s;
}
std::vector<Letter> letters(const Space& sp)
{
    std::vector<Letter> out;
    std::vector<int> lim;
    for(auto& i : sp.index) lim.push_back(i.first ? int(sp.names.size()) : i.second);
    std::vector<int> cur(lim.size(), 0);
    for(;;) {
        for(bool c : {true, false}) out.push_back({c, cur});
        std::size_t k = 0;
        while(k < lim.size() && ++cur[k] == lim[k]) cur[k++] = 0;
        if(k == lim.size()) return out;
    }
}
fock::Op substitute(const Space& sp, const Letter& l, const std::vector<int>& as)
{
    int mode = 0;
    for(std::size_t i = 0; i < sp.index.size(); ++i) {
        const bool sym = sp.index[i].first;
        mode           = mode * (sym ? sp.V : sp.index[i].second) + (sym ? as[l.idx[i]] : l.idx[i]);
    }
    return {l.creator, mode};
}
int n_modes(const Space& sp)
{
    int n = 1;
    for(auto& i : sp.index) n *= i.first ? sp.V : i.second;
    return n;
}

template <typename T>
struct Conv { // concrete index
    static T put(const Space&, int v) { return T(v); }
    static int get(const Space&, const T& t) { return int(t); }
};
template <>
struct Conv<std::string> {
    static std::string put(const Space& sp, int v) { return sp.names[v]; }
    static int get(const Space& sp, const std::string& t)
    {
        for(std::size_t i = 0; i < sp.names.size(); ++i)
            if(sp.names[i] == t) return int(i);
        return -1;
    }
};
template <>
struct Conv<const char*> {
    static const char* put(const Space& sp, int v) { return sp.names[v].c_str(); }
    static int get(const Space& sp, const char* t) { return Conv<std::string>::get(sp, t); }
};
template <typename... Ts, std::size_t... Is>
Operator<Ts...> to_op(const Space& sp, const Letter& l, std::index_sequence<Is...>)
{
    using Op = Operator<Ts...>;
    return l.creator ? Op::make_creator(Conv<Ts>::put(sp, l.idx[Is])...) : Op::make_annihilator(Conv<Ts>::put(sp, l.idx[Is])...);
}
template <typename Tup, std::size_t... Is>
std::vector<int> get_idx(const Space& sp, const Tup& t, std::index_sequence<Is...>)
{
    return {Conv<typename std::tuple_element<Is, Tup>::type>::get(sp, std::get<Is>(t))...};
}
int delta(const Space& sp, const Kronecker& k, const std::vector<int>& as, bool& bad)
{
    const int a = Conv<std::string>::get(sp, k.a), b = Conv<std::string>::get(sp, k.b);
    if(a < 0 || b < 0) {
        bad = true;
        return 0;
    }
    return as[a] == as[b];
}

template <typename V, typename... Ts>
struct Explorer {
    using Op = Operator<Ts...>;
    using T  = Term<Prefactor<V>, Op>;
    Space sp;
    std::vector<Letter> L;
    const char* name;
    Explorer(const char* n, Space s) : sp(s), L(letters(s)), name(n) {}

    void one(const std::vector<std::size_t>& wa, const std::vector<std::size_t>& wb, V va, V vb,
             const std::vector<Kronecker>& ka, const std::vector<Kronecker>& kb, std::size_t prefill)
    {
        T a, b;
        a.prefactor.value      = va;
        b.prefactor.value      = vb;
        a.prefactor.kroneckers = ka;
        b.prefactor.kroneckers = kb;
        for(auto i : wa) a.operators.push_back(to_op<Ts...>(sp, L[i], std::index_sequence_for<Ts...>{}));
        for(auto i : wb) b.operators.push_back(to_op<Ts...>(sp, L[i], std::index_sequence_for<Ts...>{}));
        const T a0 = a, b0 = b;
        std::vector<T> c(prefill, a);
        commutate(a, b, c);
        MC_CHECK(a.have_same_operators(a0) && b.have_same_operators(b0) && a.prefactor.value == va && b.prefactor.value == vb
                     && a.prefactor.kroneckers == ka && b.prefactor.kroneckers == kb,
                 "the arguments were changed");
        MC_CHECK(c.size() >= prefill, "the container lost terms");
        struct R {
            V value;
            std::vector<Kronecker> k;
            std::vector<Letter> ops;
        };
        std::vector<R> res;
        for(std::size_t i = prefill; i < c.size(); ++i) {
            R r{c[i].prefactor.value, c[i].prefactor.kroneckers, {}};
            for(auto& o : c[i].operators) r.ops.push_back({o.creator, get_idx(sp, fields(o), std::index_sequence_for<Ts...>{})});
            res.push_back(r);
        }
        // every assignment
        bool bad = false;
        std::vector<int> as(sp.names.size(), 0);
        const int M = n_modes(sp);
        std::vector<V> amp(std::size_t(1) << M);
        for(;;) {
            fock::Word fa, fb;
            for(auto i : wa) fa.push_back(substitute(sp, L[i], as));
            for(auto i : wb) fb.push_back(substitute(sp, L[i], as));
            V pre = va * vb;
            for(auto& k : ka) pre *= V(delta(sp, k, as, bad));
            for(auto& k : kb) pre *= V(delta(sp, k, as, bad));
            fock::Word ab = fa, ba = fb;
            ab.insert(ab.end(), fb.begin(), fb.end());
            ba.insert(ba.end(), fa.begin(), fa.end());
            std::vector<std::pair<V, fock::Word>> sub;
            for(auto& r : res) {
                V v = r.value;
                for(auto& k : r.k) v *= V(delta(sp, k, as, bad));
                if(v == V(0)) continue;
                fock::Word w;
                for(auto& o : r.ops) w.push_back(substitute(sp, o, as));
                sub.emplace_back(v, w);
            }
            for(uint32_t in = 0; in < (1u << M) && !bad; ++in) {
                std::fill(amp.begin(), amp.end(), V(0));
                uint32_t s = in;
                int sg     = fock::apply(ab, s);
                if(sg) amp[s] += pre * V(sg);
                s  = in;
                sg = fock::apply(ba, s);
                if(sg) amp[s] -= pre * V(sg);
                for(auto& r : sub) {
                    s  = in;
                    sg = fock::apply(r.second, s);
                    if(sg) amp[s] -= r.first * V(sg);
                }
                MC_COUNT("states", 1);
                MC_COUNT("transitions", 2 * ab.size() + sub.size());
                bool zero = true;
                for(auto& x : amp) zero = zero && x == V(0);
                if(!zero) {
                    MC_CHECK(false, "wrong for the substitution ", as, " on basis state ", in);
                    return;
                }
            }
            std::size_t k = 0;
            while(k < as.size() && ++as[k] == sp.V) as[k++] = 0;
            if(k == as.size()) break;
        }
        MC_CHECK(!bad, "a delta or operator of the result names an index of neither argument");
        MC_COUNT("traces", 1);
    }

    std::vector<Letter> show(const std::vector<std::size_t>& w)
    {
        std::vector<Letter> r;
        for(auto i : w) r.push_back(L[i]);
        return r;
    }
    void pairs(std::size_t la, std::size_t lb, std::size_t min_total = 0, bool with_deltas = false)
    {
        const std::vector<Kronecker> none, one_d{{sp.names[0], sp.names[1]}}, two{{sp.names[1], sp.names[0]}, {sp.names.back(), sp.names[0]}};
        for(std::size_t n = 0; n <= la; ++n)
            for(std::size_t m = 0; m <= lb; ++m) {
                if((n % 2 && m % 2) || n + m < min_total) continue;
                words(L.size(), n, [&](const std::vector<std::size_t>& a) {
                    words(L.size(), m, [&](const std::vector<std::size_t>& b) {
                        MC_CASE(name, " [", show(a), " , ", show(b), "]", with_deltas ? " with deltas" : "")
                        {
                            mc::distinct(mc::mix(mc::hash_str(mc::str(name, show(a), ",", show(b))) + with_deltas));
                            if(with_deltas)
                                one(a, b, V(2), V(-3), two, one_d, 1);
                            else
                                one(a, b, V(1), V(1), none, none, 0);
                        }
                    });
                });
            }
    }
    // the query for anticommuting operators, and their anticommutator, under every substitution
    void queries()
    {
        for(auto& la : L)
            for(auto& lb : L)
                for(int with = 0; with < 2; ++with)
                    MC_CASE(name, " {", la, " , ", lb, "}", with ? " with deltas" : "")
                    {
                        mc::distinct(mc::hash_str(mc::str(name, "{}", with, la, ",", lb)));
                        const auto a = to_op<Ts...>(sp, la, std::index_sequence_for<Ts...>{});
                        const auto b = to_op<Ts...>(sp, lb, std::index_sequence_for<Ts...>{});
                        Prefactor<V> f{V(3), {}};
                        if(with) f.kroneckers.push_back(Kronecker{sp.names[1], sp.names[0]});
                        const Prefactor<V> f0 = f;
                        const bool never = anticommutates(a, b);
                        if(!never) anticommutator<T>(a, b, f);
                        bool seen = false, bad = false;
                        std::vector<int> as(sp.names.size(), 0);
                        for(;;) {
                            const auto x = substitute(sp, la, as), y = substitute(sp, lb, as);
                            const bool one = x.creator != y.creator && x.mode == y.mode;
                            seen           = seen || one;
                            V d = f0.value, v = f.value;
                            for(auto& k : f0.kroneckers) d *= V(delta(sp, k, as, bad));
                            for(auto& k : f.kroneckers) v *= V(delta(sp, k, as, bad));
                            if(!never) MC_CHECK(v == (one ? d : V(0)), "anticommutator is ", v, " times one for the substitution ", as);
                            MC_COUNT("transitions", 1);
                            std::size_t k = 0;
                            while(k < as.size() && ++as[k] == sp.V) as[k++] = 0;
                            if(k == as.size()) break;
                        }
                        MC_CHECK(never == !seen, "said to anticommute: ", never);
                        MC_CHECK(!bad, "a delta names an index of neither operator");
                    }
    }
    void longer(std::size_t la, std::size_t lb, uint64_t salts)
    {
        for(std::size_t n = 1; n <= la; ++n)
            for(std::size_t m = 1; m <= lb; ++m) {
                if(n % 2 && m % 2) continue;
                for(uint64_t s = 1; s <= salts; ++s) {
                    const auto a = long_word(L.size(), n, s * 3), b = long_word(L.size(), m, s * 3 + 1);
                    MC_CASE(name, " long [", show(a), " , ", show(b), "]") { one(a, b, V(-1), V(2), {}, {}, 2); }
                }
            }
    }
};

using S  = std::string;
using CI = std::complex<double>;
void part_one_index()
{
    Explorer<int, S> e("string", {{"a", "b", "c"}, 3, {{true, 0}}});
    e.queries();
    e.pairs(2, 3);
    if(mc::thorough()) e.pairs(3, 2, 4);
    e.pairs(2, 2, 0, true);
    Explorer<int, S> e2("string", {{"a", "b", "c"}, 2, {{true, 0}}});
    e2.pairs(3, 2, 4);
    e.longer(4, 5, mc::pick(8, 80));
    if(mc::thorough()) e.pairs(4, 2, 6);
    Explorer<CI, const char*> f("const char*", {{"k_1", "k_10", "q"}, 2, {{true, 0}}});
    f.queries();
    f.pairs(2, 2);
    f.longer(4, 4, mc::pick(8, 80));
}
void part_spin()
{
    Explorer<int, S, bool> e("string,bool", {{"a", "b"}, 2, {{true, 0}, {false, 2}}});
    e.queries();
    e.pairs(2, 2);
    e.pairs(1, 2, 0, true);
    e.longer(4, 4, mc::pick(10, 100));
    if(mc::thorough()) e.pairs(2, 3, 5);
    Explorer<double, const char*, bool> f("const char*,bool", {{"r", "s", "t"}, 2, {{true, 0}, {false, 2}}});
    f.queries();
    f.pairs(1, 2);
    f.pairs(2, 1, 3);
    f.longer(4, 4, mc::pick(6, 60));
    Explorer<int, bool, S> g("bool,string", {{"a", "b", "c"}, 2, {{false, 2}, {true, 0}}});
    g.queries();
    g.pairs(1, 2);
    g.pairs(2, 1, 3);
    g.longer(3, 4, mc::pick(6, 60));
}
void part_more_indices()
{
    Explorer<int, S, S> e("string,string", {{"a", "b", "c"}, 2, {{true, 0}, {true, 0}}});
    e.queries();
    e.pairs(1, 2);
    e.pairs(2, 1, 3);
    e.longer(4, 4, mc::pick(4, 60));
    Explorer<int, S, int, bool> f("string,int,bool", {{"a", "b"}, 2, {{true, 0}, {false, 2}, {false, 2}}});
    f.queries();
    f.pairs(1, 2);
    f.longer(3, 4, mc::pick(2, 20));
    Explorer<int, bool, S, S> g("bool,string,string", {{"a", "b"}, 2, {{false, 2}, {true, 0}, {true, 0}}});
    g.queries();
    g.pairs(1, 2);
    g.longer(3, 4, mc::pick(2, 20));
    Explorer<int, int, bool, S> h("int,bool,string", {{"a", "b"}, 2, {{false, 2}, {false, 2}, {true, 0}}});
    h.queries();
    h.pairs(1, 2);
    h.longer(3, 4, mc::pick(2, 20));
    Explorer<int, bool, S, int, S> k("bool,string,int,string", {{"a", "b"}, 2, {{false, 2}, {true, 0}, {false, 1}, {true, 0}}});
    k.queries();
    k.pairs(1, 2);
}
int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"one_index", part_one_index}, {"spin", part_spin}, {"more_indices", part_more_indices}});
}

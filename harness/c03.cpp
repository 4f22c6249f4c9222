// C03: commutators of concrete operator products are exact in Fock space.
#include "mc.hpp"
#include <deque>
#include <limits>
#include <list>
#include "algebra.hpp"
#include "fock.hpp"
#include "ieompp/algebra/anticommutator.hpp"
#include "ieompp/algebra/commutator.hpp"
#include "ieompp/algebra/monomial/monomial.hpp"
#include "ieompp/algebra/term/term.hpp"
using namespace alg;

template <typename Op>
struct Modes { // operator of mode i
    std::vector<Op> plus, minus;
};
// word: letters 2*mode + annihilator
template <typename T, typename Op>
T term(const Modes<Op>& ms, const typename T::Prefactor& p, const std::vector<std::size_t>& w)
{
    T t{p, {}};
    for(auto l : w) t.operators.push_back((l % 2 ? ms.minus : ms.plus)[l / 2]);
    return t;
}
inline fock::Word fword(const std::vector<std::size_t>& w)
{
    fock::Word r;
    for(auto l : w) r.push_back({l % 2 == 0, int(l / 2)});
    return r;
}
template <typename Op, typename C>
fock::Word fword(const Modes<Op>& ms, const C& ops)
{
    fock::Word r;
    for(auto& o : ops) {
        int mode = -1;
        bool cr  = false;
        for(std::size_t i = 0; i < ms.plus.size(); ++i) {
            if(fields(ms.plus[i]) == fields(o)) {
                mode = int(i);
                cr   = o.creator;
            }
        }
        r.push_back({cr, mode});
    }
    return r;
}
inline std::string show(const std::vector<std::size_t>& w)
{
    std::string s;
    for(auto l : w) s += std::string(l % 2 ? "c" : "C") + std::to_string(l / 2);
    return s;
}

// one commutator, compared with AB - BA on every basis state
template <typename T, typename Container, typename Op>
void one(const Modes<Op>& ms, const typename T::Prefactor& pa, const std::vector<std::size_t>& wa,
         const typename T::Prefactor& pb, const std::vector<std::size_t>& wb, std::size_t prefill, bool same_object = false)
{
    using P   = typename T::Prefactor;
    const T a = term<T>(ms, pa, wa), b = term<T>(ms, pb, wb);
    const T a0 = a, b0 = b;
    Container c;
    const T filler = term<T>(ms, P(77), {0, 1});
    for(std::size_t i = 0; i < prefill; ++i) c.push_back(filler);
    if(same_object)
        commutate(a, a, c);
    else
        commutate(a, b, c);
    MC_CHECK(a.prefactor == a0.prefactor && a.have_same_operators(a0) && b.prefactor == b0.prefactor
                 && b.have_same_operators(b0),
             "the arguments were changed");
    std::size_t k = 0;
    bool kept     = c.size() >= prefill;
    const int M   = int(ms.plus.size());
    const auto fa = fword(wa), fb = fword(wb);
    std::vector<std::pair<P, fock::Word>> res;
    for(auto& t : c) {
        if(k++ < prefill) {
            kept = kept && t.prefactor == filler.prefactor && t.have_same_operators(filler);
            continue;
        }
        res.emplace_back(t.prefactor, fword(ms, t.operators));
        for(auto& o : res.back().second)
            if(o.mode < 0) {
                MC_CHECK(false, "an operator of the result was in neither argument");
                return;
            }
    }
    MC_CHECK(kept, "what the container held before was changed");
    fock::Word ab = fa, ba = fb;
    ab.insert(ab.end(), fb.begin(), fb.end());
    ba.insert(ba.end(), fa.begin(), fa.end());
    std::vector<P> amp(std::size_t(1) << M);
    for(uint32_t in = 0; in < (1u << M); ++in) {
        std::fill(amp.begin(), amp.end(), P(0));
        uint32_t s = in;
        int sg     = fock::apply(ab, s);
        if(sg) amp[s] += P(pa * pb) * P(sg);
        s  = in;
        sg = fock::apply(ba, s);
        if(sg) amp[s] -= P(pa * pb) * P(sg);
        for(auto& r : res) {
            s  = in;
            sg = fock::apply(r.second, s);
            if(sg) amp[s] -= r.first * P(sg);
        }
        MC_COUNT("states", 1);
        MC_COUNT("transitions", ab.size() * 2 + res.size());
        bool zero = true;
        for(auto& x : amp) zero = zero && x == P(0);
        if(!zero) {
            MC_CHECK(false, "the terms do not add up to AB - BA on basis state ", in);
            return;
        }
    }
    MC_COUNT("checks", 1);
    MC_COUNT("traces", 1);
}

template <typename Op>
Modes<Op> modes1(std::vector<Op> v)
{
    Modes<Op> m;
    m.plus = v;
    for(auto& o : v) m.minus.push_back(o.get_conjugate());
    for(auto& o : m.plus) o.creator = true;
    for(auto& o : m.minus) o.creator = false;
    return m;
}

template <typename T, typename Container, typename Op>
void pairs(const char* name, const Modes<Op>& ms, std::size_t la, std::size_t lb, typename T::Prefactor pa,
           typename T::Prefactor pb, std::size_t prefill, std::size_t min_total = 0)
{
    const std::size_t L = ms.plus.size() * 2;
    for(std::size_t n = 0; n <= la; ++n)
        for(std::size_t m = 0; m <= lb; ++m) {
            if(n % 2 && m % 2) continue;
            if(n + m < min_total) continue;
            words(L, n, [&](const std::vector<std::size_t>& a) {
                words(L, m, [&](const std::vector<std::size_t>& b) {
                    MC_CASE(name, " [", show(a), " , ", show(b), "]")
                    {
                        mc::distinct(mc::hash_str(mc::str(name, show(a), ",", show(b))));
                        one<T, Container>(ms, pa, a, pb, b, prefill);
                    }
                });
            });
        }
}

template <typename Op>
Op mk(bool, Op o) { return o; }

using O1 = Operator<int>;
using O2 = Operator<uint64_t, bool>;
using O3 = Operator<bool, int8_t, uint16_t>;
using C  = std::complex<double>;
using CI = std::complex<int>;

Modes<O1> m1(int n)
{
    std::vector<O1> v;
    for(int i = 0; i < n; ++i) v.push_back(O1::make_creator(i * 5 - 3));
    return modes1(v);
}
Modes<O2> m2(int sites)
{
    std::vector<O2> v;
    for(int i = 0; i < sites; ++i)
        for(bool s : {false, true}) v.push_back(O2::make_creator(uint64_t(i), s));
    return modes1(v);
}
Modes<O3> m3()
{
    return modes1(std::vector<O3>{O3::make_creator(false, int8_t(-1), uint16_t(7)), O3::make_creator(true, int8_t(-1), uint16_t(7)),
                                  O3::make_creator(false, int8_t(1), uint16_t(7)), O3::make_creator(false, int8_t(-1), uint16_t(9))});
}

void part_one_mode() { pairs<Term<int, O1>, std::vector<Term<int, O1>>>("1 mode", m1(1), mc::pick(8, 9), mc::pick(8, 9), 2, -3, 1); }
void part_two_modes()
{
    using T = Term<int, O1>;
    pairs<T, std::vector<T>>("2 modes", m1(2), mc::pick(3, 4), mc::pick(3, 4), 1, 1, 0);
    pairs<T, std::vector<T>>("2 modes", m1(2), 1, 4, -1, 5, 0, 4);
    pairs<T, std::vector<T>>("2 modes", m1(2), 4, 1, -1, 5, 0, 4);
    if(!mc::thorough()) pairs<T, std::vector<T>>("2 modes", m1(2), 2, 4, -1, 5, 0, 6);
}
void part_three_modes()
{
    using T = Term<CI, O1, std::deque<O1>>;
    pairs<T, std::vector<T>>("3 modes", m1(3), 2, 3, CI(1, 2), CI(0, -1), 2);
    pairs<T, std::vector<T>>("3 modes", m1(3), 3, 2, CI(1, 2), CI(0, -1), 0, 4);
    if(mc::thorough()) {
        pairs<T, std::list<T>>("3 modes", m1(3), 2, 4, CI(1, 2), CI(0, -1), 0, 6);
        pairs<T, std::list<T>>("3 modes", m1(3), 4, 2, CI(1, 2), CI(0, -1), 0, 6);
    }
}
void part_spin()
{
    using T = Term<double, O2>;
    pairs<T, std::list<T>>("2 sites", m2(2), 2, 2, 0.5, -1.5, 3);
    pairs<T, std::deque<T>>("2 sites", m2(2), 2, 3, 1., 0., 0, 5);
    using T3 = Term<long, O3, std::deque<O3>>;
    pairs<T3, std::deque<T3>>("3 indices", m3(), 2, 2, 3l, -7l, 1);
}
// longer products, every split, several prefactor types, aliasing arguments
void part_long()
{
    using T  = Term<C, O2>;
    using TM = Term<double, O1, Monomial<O1>>;
    const auto ms = m2(3);
    const auto m4 = m1(4);
    for(std::size_t n = 0; n <= 9; ++n)
        for(std::size_t m = 0; m <= 9; ++m) {
            if(n % 2 && m % 2) continue;
            for(uint64_t salt = 1; salt <= mc::pick(60u, 600u); ++salt) {
                const auto a = long_word(12, n, salt * 3), b = long_word(12, m, salt * 3 + 1);
                MC_CASE("long [", show(a), " , ", show(b), "]") { one<T, std::vector<T>>(ms, C(1, -2), a, C(0, 3), b, 1); }
                const auto p = long_word(8, n, salt * 5), q = long_word(8, m, salt * 5 + 1);
                MC_CASE("long [", show(p), " , ", show(q), "]") { one<TM, std::vector<TM>>(m4, -2, p, 0.25, q, 1); }
            }
        }
    // distinct operators (no vanishing products), all lengths
    for(std::size_t n = 1; n <= 6; ++n)
        for(std::size_t m = 1; m <= 6; ++m) {
            if(n % 2 && m % 2) continue;
            for(std::size_t mask = 0; mask < 64; ++mask)
                for(std::size_t rot = 0; rot < 6; ++rot) {
                    std::vector<std::size_t> a, b;
                    for(std::size_t i = 0; i < n; ++i) a.push_back(2 * i + ((mask >> i) & 1));
                    for(std::size_t j = 0; j < m; ++j) {
                        const std::size_t mode = (j + rot) % 6;
                        b.push_back(2 * mode + 1 - ((mask >> mode) & 1));
                    }
                    MC_CASE("distinct [", show(a), " , ", show(b), "]") { one<T, std::vector<T>>(ms, C(1, 1), a, C(2, 0), b, 0); }
                }
        }
    using TI      = Term<int, O1>;
    const auto mm = m1(2);
    for(std::size_t n : {0, 2, 4})
        words(4, n, [&](const std::vector<std::size_t>& a) {
            MC_CASE("with itself ", show(a)) { one<TI, std::vector<TI>>(mm, 3, a, 3, a, 1, true); }
        });
}
// both arguments, or one of them, are elements of the container the results are appended to
template <typename T, typename Cont, typename Op>
void inside(const char* name, const Modes<Op>& ms, std::size_t letters, std::size_t n, std::size_t m)
{
    using P = typename T::Prefactor;
    words(letters, n, [&](const std::vector<std::size_t>& wa) {
        words(letters, m, [&](const std::vector<std::size_t>& wb) {
            for(int which = 0; which < 4; ++which)
                MC_CASE(name, " [", show(wa), " , ", show(wb), "] of elements of the result, ", which)
                {
                    mc::distinct(mc::hash_str(mc::str(name, show(wa), ',', show(wb), which)));
                    const T a = term<T>(ms, P(3), wa), b = term<T>(ms, P(-2), wb);
                    std::vector<T> apart;
                    commutate(a, b, apart);
                    Cont c;
                    c.push_back(a);
                    c.push_back(b);
                    const auto first = c.begin();
                    const auto second = std::next(first);
                    if(which == 0)
                        commutate(*first, *second, c);
                    else if(which == 1)
                        commutate(*first, b, c);
                    else if(which == 2)
                        commutate(a, *second, c);
                    else { // the last of several
                        c.push_back(a);
                        commutate(c.back(), *std::next(c.begin()), c);
                    }
                    const std::size_t before = which == 3 ? 3 : 2;
                    std::vector<T> want{a, b};
                    if(which == 3) want.push_back(a);
                    want.insert(want.end(), apart.begin(), apart.end());
                    MC_CHECK(c.size() == before + apart.size(), c.size() - before, " terms appended instead of ", apart.size());
                    std::size_t i = 0;
                    for(auto& t : c) {
                        MC_CHECK(i < want.size() && t.prefactor == want[i].prefactor && t.have_same_operators(want[i]), "term ", i, " differs from that of separate arguments");
                        ++i;
                    }
                }
        });
    });
}
void part_inside()
{
    using T = Term<int, O1>;
    inside<T, std::vector<T>>("vector", m1(2), 4, 2, 2);
    inside<T, std::vector<T>>("vector", m1(2), 4, 2, 3);
    inside<T, std::vector<T>>("vector", m1(2), 4, 4, 1);
    inside<T, std::list<T>>("list", m1(2), 4, 2, 2);
    using TC = Term<C, O2>;
    inside<TC, std::deque<TC>>("deque", m2(2), 4, 2, 2);
    inside<TC, std::vector<TC>>("complex vector", m2(2), 8, 1, 2);
}
// products of more than 255 operators
void part_longer()
{
    using T      = Term<int64_t, O1>;
    const auto m = m1(2);
    auto letters = [](std::size_t n, std::size_t from, std::size_t period) {
        static const std::size_t cycle[] = {1, 0, 3, 2};
        std::vector<std::size_t> w;
        for(std::size_t i = 0; i < n; ++i) w.push_back(cycle[(from + i) % period]);
        return w;
    };
    const std::vector<std::pair<std::size_t, std::size_t>> sizes{{255, 2}, {256, 1}, {256, 2}, {257, 2}, {300, 1}, {1, 256}, {2, 255}, {2, 257}, {2, 300}, {258, 257},
                                                                 {302, 1}, {1, 302}, {511, 2}, {512, 1}, {514, 1}, {1, 514}, {2, 513}, {1026, 1}, {1, 1026}, {1025, 2}, {2050, 1}, {1, 4098}, {4098, 1}};
    for(auto& s : sizes)
        for(std::size_t period : {2, 4})
            for(std::size_t fa : {0, 1})
                for(std::size_t fb : {0, 1}) {
                    if(s.first > 200 && s.second > 200 && !mc::thorough() && (fa || fb || period > 2)) continue;
                    const auto a = letters(s.first, fa, period), b = letters(s.second, fb, period);
                    MC_CASE("product of ", s.first, " and ", s.second, " operators, ", period, " different ones from ", fa, " and ", fb)
                    {
                        mc::distinct(mc::hash_str(mc::str("longer", s.first, ' ', s.second, ' ', period, fa, fb)));
                        one<T, std::vector<T>>(m, 3, a, 2, b, 1);
                    }
                }
}
// which operators anticommute
template <typename... Ts>
void query(const char* name, std::size_t limit = 99)
{
    using Op     = Operator<Ts...>;
    const auto t = all_ops<Ts...>(limit);
    for(auto& x : t)
        for(auto& y : t)
            MC_CASE(name, " anticommuting ", x.second, " and ", y.second)
            {
                mc::distinct(mc::hash_str(mc::str(name, '?', x.second, y.second)));
                const Op a = x.first, b = y.first;
                const bool want = x.second.creator == y.second.creator || x.second.idx != y.second.idx;
                MC_CHECK(anticommutates(a, b) == want, "anticommuting: ", !want);
                MC_CHECK(a == x.first && b == y.first, "the query changed an operator");
                using T = Term<double, Op>;
                double f = 2.5;
                anticommutator<T>(a, b, f);
                MC_CHECK(f == 2.5, "the factor of operators with concrete indices is changed to ", f);
                MC_COUNT("transitions", 1);
            }
}
void part_queries()
{
    query<int>("int");
    query<bool>("bool");
    query<char>("char");
    query<double>("double");
    query<uint8_t>("u8");
    query<uint64_t>("u64");
    query<uint64_t, bool>("u64,bool");
    query<bool, int16_t>("bool,i16");
    query<int, int>("int,int");
    query<double, char>("double,char");
    query<uint64_t, uint64_t, bool>("u64,u64,bool");
    query<bool, int8_t, uint16_t>("bool,i8,u16");
    query<int, char, int>("int,char,int", 3);
    query<int, int, int, int>("int x4", mc::pick(2, 3));
    query<bool, uint32_t, char, double>("bool,u32,char,double", 2);
    query<bool, bool, bool, bool, bool>("bool x5");
    query<int, bool, int, bool, int, bool>("int,bool x3", 2);
}
int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"queries", part_queries}, {"one_mode", part_one_mode}, {"two_modes", part_two_modes}, {"three_modes", part_three_modes},
                                {"spin", part_spin}, {"long", part_long}, {"inside", part_inside}, {"longer", part_longer}});
}

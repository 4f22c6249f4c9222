// C01: hermitian conjugation.
#include "mc.hpp"
#include <deque>
#include <limits>
#include <list>
#include "algebra.hpp"
#include "fock.hpp"
#include "ieompp/algebra/monomial/monomial.hpp"
#include "ieompp/algebra/term/term.hpp"
using namespace alg;

template <typename Op>
void ops(const char* name, const Table<Op>& t)
{
    for(std::size_t i = 0; i < t.size(); ++i) {
        MC_CASE(name, " operator ", t[i].second)
        {
            const MOp m = t[i].second;
            mc::distinct(mc::hash_str(mc::str(name, m)));
            const Op& src = t[i].first;
            Op a          = src;
            a.conjugate();
            MC_CHECK(model(a) == m.dagger(), "conjugate() gives ", model(a));
            MC_CHECK(model(src.get_conjugate()) == m.dagger(), "get_conjugate() gives ", model(src.get_conjugate()));
            MC_CHECK(model(src) == m, "get_conjugate() changed its object");
            a.conjugate();
            MC_CHECK(a == src && model(a) == m, "conjugating twice gives ", model(a));
            MC_CHECK(src.get_conjugate().get_conjugate() == src, "get_conjugate twice");
            for(std::size_t j = 0; j < t.size(); ++j) {
                const bool want = (t[j].second == m.dagger());
                MC_CHECK(src.is_conjugate(t[j].first) == want, "is_conjugate(", t[j].second, ") is ", !want);
                const bool same = (t[j].second.idx == m.idx);
                MC_CHECK(src.same_indices(t[j].first) == same, "same_indices(", t[j].second, ") is ", !same);
            }
        }
    }
}

void part_ops()
{
    ops("int", all_ops<int>());
    ops("u64", all_ops<uint64_t>());
    ops("bool", all_ops<bool>());
    ops("string", all_ops<std::string>());
    ops("u64,bool", all_ops<uint64_t, bool>());
    ops("bool,u64", all_ops<bool, uint64_t>());
    ops("int,int", all_ops<int, int>());
    ops("string,char", all_ops<std::string, char>());
    ops("i8,u16,bool", all_ops<int8_t, uint16_t, bool>());
    ops("bool,bool,bool", all_ops<bool, bool, bool>());
    ops("string,int,bool", all_ops<std::string, int, bool>());
    ops("int,int,int,int", all_ops<int, int, int, int>(mc::pick(2, 3)));
    ops("bool,u64,string,int", all_ops<bool, uint64_t, std::string, int>(2));
    ops("bool x5", all_ops<bool, bool, bool, bool, bool>());
}

template <typename Op>
void monomials(const char* name, const Table<Op>& t, std::size_t max_len, std::size_t pair_len)
{
    using Mon = Monomial<Op>;
    std::vector<std::vector<std::size_t>> all, small;
    for(std::size_t len = 0; len <= max_len; ++len)
        words(t.size(), len, [&](const std::vector<std::size_t>& w) {
            all.push_back(w);
            if(len <= pair_len) small.push_back(w);
        });
    for(std::size_t len : {7, 12, 13, 40, 300}) all.push_back(long_word(t.size(), len));
    for(auto& w : all) {
        MC_CASE(name, " product ", mbuild(t, w))
        {
            const auto m = mbuild(t, w);
            mc::distinct(mc::hash_str(mc::str(name, m)));
            const Mon src = build<Mon>(t, w);
            Mon a         = src;
            a.conjugate();
            MC_CHECK(models(a) == dagger(m), "conjugate() gives ", models(a));
            const Mon c = src.get_conjugate();
            MC_CHECK(models(c) == dagger(m), "get_conjugate() gives ", models(c));
            MC_CHECK(models(src) == m, "get_conjugate() changed its object");
            MC_CHECK(src.is_conjugate(c) && c.is_conjugate(src), "a product and its conjugate are not conjugates");
            MC_CHECK(src.is_conjugate(src) == (dagger(m) == m), "a product taken as its own conjugate: ", dagger(m) != m);
            a.conjugate();
            MC_CHECK(models(a) == m, "conjugating twice gives ", models(a));
            MC_CHECK(models(c.get_conjugate()) == m, "get_conjugate twice");
            // every single-operator deviation from the conjugate
            for(std::size_t p = 0; p < c.size(); ++p) {
                for(std::size_t r = 0; r < t.size(); ++r) {
                    if(t[r].second == dagger(m)[p]) continue;
                    Mon d = c;
                    d[p]  = t[r].first;
                    MC_CHECK(!src.is_conjugate(d) && !d.is_conjugate(src), "is_conjugate accepts ", models(d));
                }
            }
            // every deviation in length
            for(std::size_t p = 0; p <= c.size(); ++p) {
                Mon d = c;
                if(p < c.size()) {
                    d.erase(d.begin() + p);
                    MC_CHECK(!src.is_conjugate(d) && !d.is_conjugate(src), "is_conjugate accepts ", models(d));
                    d = c;
                }
                d.insert(d.begin() + p, t[p % t.size()].first);
                MC_CHECK(!src.is_conjugate(d) && !d.is_conjugate(src), "is_conjugate accepts ", models(d));
            }
            // conjugate of a product, every split
            for(std::size_t p = 0; p <= w.size(); ++p) {
                const Mon l = build<Mon>(t, {w.begin(), w.begin() + p}), r = build<Mon>(t, {w.begin() + p, w.end()});
                MC_CHECK(models((l * r).get_conjugate()) == dagger(m), "conjugate of a product of ", p, " and the rest");
                MC_CHECK(models(r.get_conjugate() * l.get_conjugate()) == dagger(m), "reversed product of conjugates");
            }
        }
    }
    for(auto& w : small) {
        MC_CASE(name, " is_conjugate of ", mbuild(t, w), " with every product")
        {
            const Mon src = build<Mon>(t, w);
            const auto d  = dagger(mbuild(t, w));
            for(auto& v : small) {
                const bool want = (mbuild(t, v) == d);
                MC_CHECK(src.is_conjugate(build<Mon>(t, v)) == want, "is_conjugate(", mbuild(t, v), ") is ", !want);
            }
        }
    }
}
void part_monomials()
{
    monomials("u64,bool", all_ops<uint64_t, bool>(2), mc::pick(4, 5), 2);
    monomials("int", all_ops<int>(2), mc::pick(6, 7), mc::pick(4, 4));
    monomials("string", all_ops<std::string>(2), mc::pick(3, 4), 2);
    monomials("u8,bool,i8", all_ops<uint8_t, bool, int8_t>(2), 2, mc::pick(1, 2));
}

inline std::complex<double> cc(const std::complex<double>& z) { return {z.real(), -z.imag()}; }
inline std::complex<float> cc(const std::complex<float>& z) { return {z.real(), -z.imag()}; }
inline double cc(double x) { return x; }
inline float cc(float x) { return x; }
inline int cc(int x) { return x; }
inline long cc(long x) { return x; }

template <typename P, typename Op, typename Cont>
void terms(const char* name, const Table<Op>& t, const std::vector<P>& pre, std::size_t max_len)
{
    using T = Term<P, Op, Cont>;
    std::vector<std::vector<std::size_t>> all;
    for(std::size_t len = 0; len <= max_len; ++len)
        words(t.size(), len, [&](const std::vector<std::size_t>& w) { all.push_back(w); });
    for(std::size_t len : {7, 12, 40, 300}) all.push_back(long_word(t.size(), len));
    for(auto& w : all) {
        for(auto& p : pre) {
            MC_CASE(name, " term ", p, " ", mbuild(t, w))
            {
                const auto m = mbuild(t, w);
                mc::distinct(mc::hash_str(mc::str(name, p, m)));
                const T src{p, build<Cont>(t, w)};
                T a = src;
                a.conjugate();
                MC_CHECK(models(a.operators) == dagger(m) && a.prefactor == cc(p), "conjugate() gives ", a.prefactor, " ",
                         models(a.operators));
                const T c = src.get_conjugate();
                MC_CHECK(models(c.operators) == dagger(m) && c.prefactor == cc(p), "get_conjugate() gives ", c.prefactor,
                         " ", models(c.operators));
                MC_CHECK(models(src.operators) == m && src.prefactor == p, "get_conjugate() changed its object");
                a.conjugate();
                MC_CHECK(models(a.operators) == m && a.prefactor == p, "conjugating twice gives ", a.prefactor, " ",
                         models(a.operators));
                const T cc2 = c.get_conjugate();
                MC_CHECK(models(cc2.operators) == m && cc2.prefactor == p, "get_conjugate twice");
                const T sq = src * c, sqc = sq.get_conjugate();
                MC_CHECK(models(sq.operators) == models(sqc.operators), "the product of a term and its conjugate is not hermitian");
                T s = src; // in place, on a product
                s *= src;
                s.conjugate();
                const auto d = dagger(m);
                MWord dd     = d;
                dd.insert(dd.end(), d.begin(), d.end());
                MC_CHECK(models(s.operators) == dd && s.prefactor == cc(p * p), "conjugate of the square");
            }
        }
    }
}
void part_terms()
{
    using C  = std::complex<double>;
    using CF = std::complex<float>;
    const auto t = all_ops<uint64_t, bool>(2);
    using Op     = Operator<uint64_t, bool>;
    const std::vector<C> pc{{0, 0}, {1, 0}, {0, 1}, {-2.5, 3}, {4, -0.5}};
    terms<C, Op, std::vector<Op>>("complex/vector", t, pc, mc::pick(2, 3));
    terms<C, Op, std::list<Op>>("complex/list", t, pc, 2);
    terms<CF, Op, std::deque<Op>>("complexf/deque", t, {{0, 1}, {-2, 3}}, 2);
    terms<C, Op, Monomial<Op>>("complex/monomial", t, {{0, 1}, {-2, 3}}, 2);
    terms<double, Op, std::vector<Op>>("double", t, {0., 1., -2.5}, 2);
    terms<int, Op, std::vector<Op>>("int", t, {0, 1, -7}, 2);
    const auto s = all_ops<std::string>(3);
    using SOp    = Operator<std::string>;
    terms<C, SOp, std::vector<SOp>>("complex/string", s, {{0, 1}, {-2, 3}}, 2);
    const auto q = all_ops<bool, int, char>(2);
    using QOp    = Operator<bool, int, char>;
    terms<C, QOp, std::vector<QOp>>("complex/3 indices", q, {{0, 1}, {-2, 3}}, 1);
    terms<float, SOp, std::list<SOp>>("float/list", s, {1.f, -2.5f}, 2);
}

// the conjugate is the adjoint on Fock space
void part_fock()
{
    using Op = Operator<int, bool>;
    using C  = std::complex<double>;
    using T  = Term<C, Op>;
    const int M = 4; // 2 sites x 2 spins
    Table<Op> t;
    for(int i = 0; i < 2; ++i)
        for(bool b : {false, true})
            for(bool cr : {false, true})
                t.emplace_back(cr ? Op::make_creator(i, b) : Op::make_annihilator(i, b), MOp{cr, {i, b}});
    auto word = [](const std::vector<Op>& v) {
        fock::Word w;
        for(auto& o : v) w.push_back({o.creator, o.index1 * 2 + int(o.index2)});
        return w;
    };
    const C p(2, -3);
    for(std::size_t len = 0; len <= mc::pick(4u, 5u); ++len)
        words(t.size(), len, [&](const std::vector<std::size_t>& w) {
            MC_CASE("adjoint of ", mbuild(t, w))
            {
                const T src{p, build<std::vector<Op>>(t, w)};
                const T c  = src.get_conjugate();
                const auto a = word(src.operators), b = word(c.operators);
                bool ok = true;
                for(uint32_t in = 0; in < (1u << M); ++in) {
                    // <x|A|in> = conj(<in|A^+|x>)
                    uint32_t x  = in;
                    const int s = fock::apply(a, x);
                    MC_COUNT("states", 1);
                    MC_COUNT("transitions", len);
                    if(s) {
                        uint32_t y   = x;
                        const int s2 = fock::apply(b, y);
                        ok           = ok && s2 == s && y == in && c.prefactor == std::conj(p);
                    }
                    x            = in;
                    const int s3 = fock::apply(b, x);
                    if(s3) {
                        uint32_t y   = x;
                        const int s4 = fock::apply(a, y);
                        ok           = ok && s4 == s3 && y == in;
                    }
                }
                MC_COUNT("traces", 1);
                MC_CHECK(ok, "not the adjoint: ", c.prefactor, " ", models(c.operators));
            }
        });
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"ops", part_ops}, {"monomials", part_monomials}, {"terms", part_terms}, {"fock", part_fock}});
}

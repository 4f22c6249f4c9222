// C08: particle number, spin and momentum balances.
#include "mc.hpp"
#include <array>
#include <limits>
#include <list>
#include "algebra.hpp"
#include "ieompp/algebra/commutator.hpp"
#include "ieompp/algebra/term/checks.hpp"
#include "ieompp/algebra/term/term.hpp"
using namespace alg;

// A momentum space whose vectors live on a square lattice of integers.
struct Vec {
    long x, y;
    Vec() : x(0), y(0) {}
    Vec(long a, long b) : x(a), y(b) {}
    Vec& setZero() { x = y = 0; return *this; }
    static Vec Zero() { return Vec(); }
    Vec& operator+=(const Vec& o) { x += o.x; y += o.y; return *this; }
    Vec& operator-=(const Vec& o) { x -= o.x; y -= o.y; return *this; }
    Vec operator+(const Vec& o) const { return {x + o.x, y + o.y}; }
    Vec operator-(const Vec& o) const { return {x - o.x, y - o.y}; }
    Vec operator-() const { return {-x, -y}; }
    Vec operator*(long f) const { return {x * f, y * f}; }
    bool operator==(const Vec& o) const { return x == o.x && y == o.y; }
};
std::ostream& operator<<(std::ostream& s, const Vec& v) { return s << '(' << v.x << ',' << v.y << ')'; }
struct Space {
    using Vector = Vec;
    using Index  = uint64_t;
    std::array<Vec, 2> lattice_vectors() const { return {{Vec(7, 1), Vec(-1, 5)}}; }
    Vec operator[](uint64_t i) const { return Vec(long(1) << (4 * i), i ? -3 * long(i) : 1000); }
};
const Space space;

struct Balance {
    int n, s;
    Vec k;
    bool operator==(const Balance& o) const { return n == o.n && s == o.s && k == o.k; }
};
std::ostream& operator<<(std::ostream& s, const Balance& b) { return s << "n=" << b.n << " s=" << b.s << " k=" << b.k; }

// K, S: positions of the momentum and spin index
template <std::size_t K, std::size_t S, typename T>
Balance real(const T& t)
{
    return {total_creations(t), total_spin<S>(t), total_momentum<K>(t, space)};
}
template <std::size_t K, std::size_t S, typename Op>
Balance model_of(const std::vector<Op>& ops)
{
    Balance b{0, 0, {}};
    for(auto& o : ops) {
        const auto f = fields(o);
        const int sg = o.creator ? 1 : -1;
        b.n += sg;
        b.s += sg * (std::get<S>(f) ? 1 : -1);
        b.k += space[std::get<K>(f)] * sg;
    }
    return b;
}
Balance add(const Balance& a, const Balance& b) { return {a.n + b.n, a.s + b.s, a.k + b.k}; }

template <std::size_t K, std::size_t S, typename P, typename Cont, typename Op>
void terms(const char* name, const Table<Op>& t, std::size_t max_len, std::size_t pair_len)
{
    using T = Term<P, Op, Cont>;
    std::vector<std::vector<std::size_t>> all, small;
    for(std::size_t len = 0; len <= max_len; ++len)
        words(t.size(), len, [&](const std::vector<std::size_t>& w) {
            all.push_back(w);
            if(len <= pair_len) small.push_back(w);
        });
    for(uint64_t s = 1; s < 40; ++s) all.push_back(long_word(t.size(), 5 + s, s));
    for(uint64_t s = 1; s < 8; ++s) all.push_back(long_word(t.size(), 290 + s, s));
    // every operator and pair of operators over and over: balances beyond a byte and 16 bits
    for(std::size_t len : {130, 300, 40000, 70000})
        for(std::size_t a = 0; a < t.size(); ++a)
            for(std::size_t b = 0; b < (len < 1000 ? t.size() : 1); ++b)
                MC_CASE(name, ' ', len, " times ", mbuild(t, std::vector<std::size_t>{a, b}))
                {
                    mc::distinct(mc::hash_str(mc::str(name, len, '/', a, '/', b)));
                    std::vector<std::size_t> w(len, a);
                    for(std::size_t i = 0; i < len; i += 5) w[i] = b;
                    const T x{P(2), build<Cont>(t, w)};
                    const auto want = model_of<K, S>(build<std::vector<Op>>(t, w));
                    const auto got  = real<K, S>(x);
                    MC_CHECK(got == want, "balance is ", got, " instead of ", want);
                }
    for(auto& w : all)
        MC_CASE(name, " ", mbuild(t, w))
        {
            mc::distinct(mc::hash_str(mc::str(name, mbuild(t, w))));
            const T x{P(2), build<Cont>(t, w)};
            const auto want = model_of<K, S>(build<std::vector<Op>>(t, w));
            const auto got = real<K, S>(x);
            MC_CHECK(got == want, "balance is ", got, " instead of ", want);
            const auto c = real<K, S>(x.get_conjugate());
            MC_CHECK((c == Balance{-want.n, -want.s, -want.k}), "balance of the conjugate is ", c);
            const auto sq = real<K, S>(x * x);
            MC_CHECK(sq == add(want, want), "balance of the square is ", sq);
        }
    for(auto& a : small)
        MC_CASE(name, " ", mbuild(t, a), " times every product")
        {
            const T x{P(2), build<Cont>(t, a)};
            for(auto& b : small) {
                const T y{P(-3), build<Cont>(t, b)};
                const auto want = add(model_of<K, S>(build<std::vector<Op>>(t, a)), model_of<K, S>(build<std::vector<Op>>(t, b)));
                MC_CHECK((real<K, S>(x * y) == want), "balance of the product with ", mbuild(t, b));
            }
        }
}
template <std::size_t K, std::size_t S, typename P, typename Op>
void commutators(const char* name, const Table<Op>& t, std::size_t la, std::size_t lb)
{
    using T = Term<P, Op>;
    for(std::size_t n = 0; n <= la; ++n)
        for(std::size_t m = 0; m <= lb; ++m) {
            if(n % 2 && m % 2) continue;
            words(t.size(), n, [&](const std::vector<std::size_t>& a) {
                MC_CASE(name, " commutators of ", mbuild(t, a), " with every product of length ", m)
                {
                    const T x{P(2), build<std::vector<Op>>(t, a)};
                    words(t.size(), m, [&](const std::vector<std::size_t>& b) {
                        const T y{P(-3), build<std::vector<Op>>(t, b)};
                        std::vector<T> c;
                        commutate(x, y, c);
                        const auto want = add(real<K, S>(x), real<K, S>(y));
                        for(auto& r : c) {
                            const auto got = model_of<K, S>(r.operators);
                            MC_CHECK(got == want, "a term of the commutator with ", mbuild(t, b), " has ", got, " instead of ", want);
                            const auto g2 = real<K, S>(r);
                            MC_CHECK(g2 == want, "balance of a term of the commutator with ", mbuild(t, b), " is ", g2);
                        }
                    });
                }
            });
        }
}
void part_terms()
{
    using O2 = Operator<uint64_t, bool>;
    using OR = Operator<bool, uint64_t>;
    using O3 = Operator<uint64_t, int, bool>;
    terms<0, 1, double, std::vector<O2>>("k,s", all_ops<uint64_t, bool>(3), mc::pick(4, 4), 2);
    terms<1, 0, int, std::list<OR>>("s,k", all_ops<bool, uint64_t>(3), 2, 1);
    terms<0, 2, std::complex<double>, std::vector<O3>>("k,int,s", all_ops<uint64_t, int, bool>(3), 2, 1);
}
void part_commutators()
{
    using O2 = Operator<uint64_t, bool>;
    commutators<0, 1, double>("k,s", all_ops<uint64_t, bool>(2), mc::pick(2, 3), mc::pick(4, 4));
    commutators<0, 1, double>("k,s", all_ops<uint64_t, bool>(3), 2, 2);
    commutators<0, 2, int>("k,int,s", all_ops<uint64_t, int, bool>(2), 2, 1);
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"terms", part_terms}, {"commutators", part_commutators}}); }

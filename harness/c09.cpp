// C09: histories of integer iterator operations, in lockstep with integers.
#include "mc.hpp"
#include <algorithm>
#include <iterator>
#include <limits>
#include <set>
#include <type_traits>
#include "ieompp/iterators/integer_iterator.hpp"
using ieompp::iterators::IntegerIterator;

template <typename T, bool Const>
struct Explorer {
    using It = IntegerIterator<T, Const>;
    using D  = typename It::difference_type;
    const char* name;
    long lo, hi; // the model stays within these
    std::set<std::pair<long, long>> states;

    // what an operator returned: the value itself or an iterator pointing at it
    static long value(const T& v) { return long(v); }
    static long value(It i) { return long(*i); }

    struct Conf {
        It a, b;
        long x, y;
    };

    void same(const Conf& c)
    {
        It a = c.a, b = c.b;
        MC_CHECK(long(*a) == c.x && long(*b) == c.y, "points at ", long(*a), ",", long(*b), " instead of ", c.x, ",", c.y);
        MC_CHECK(T(b - a) == T(c.y - c.x) && D(b - a) == D(T(c.y) - T(c.x)), "difference is ", long(b - a), " instead of ", c.y - c.x);
        MC_CHECK(D(a - b) == D(T(c.x) - T(c.y)), "difference is ", long(a - b), " instead of ", c.x - c.y);
        const It ca = c.a, cb = c.b;
        MC_CHECK((ca == cb) == (c.x == c.y), "== is wrong");
        MC_CHECK((ca != cb) == (c.x != c.y), "!= is wrong");
        MC_CHECK((ca < cb) == (c.x < c.y), "< is wrong");
        MC_CHECK((ca > cb) == (c.x > c.y), "> is wrong");
        MC_CHECK((ca <= cb) == (c.x <= c.y), "<= is wrong");
        MC_CHECK((ca >= cb) == (c.x >= c.y), ">= is wrong");
        MC_CHECK(a + (b - a) == b && b - (b - a) == a, "a + (b - a) is not b");
        for(long d = -3; d <= 3; ++d) {
            if(std::is_unsigned<D>::value && d < 0) continue;
            if(c.x + d < lo - 8 || c.x + d > hi + 8) continue;
            if(std::is_unsigned<T>::value && c.x + d < 0) continue;
            if(c.x + d > long(std::numeric_limits<T>::max() / 2 + std::numeric_limits<T>::max() / 2)) continue;
            MC_CHECK(long(a[D(d)]) == c.x + d, "[", d, "] is ", long(a[D(d)]));
            It s = ca + D(d);
            MC_CHECK(long(*s) == c.x + d, "a + ", d, " points at ", long(*s));
            It t = D(d) + ca;
            MC_CHECK(long(*t) == c.x + d, d, " + a points at ", long(*t));
            if(c.x - d >= (std::is_unsigned<T>::value ? 0 : lo - 8)) {
                It u = ca - D(d);
                MC_CHECK(long(*u) == c.x - d, "a - ", d, " points at ", long(*u));
            }
        }
        MC_CHECK(long(*a) == c.x && long(*b) == c.y, "looking changed the iterator");
    }

    static constexpr int N = 20;
    static const char* op_name(int o)
    {
        static const char* n[] = {"++a", "a++", "--a", "a--", "a+=3", "a-=2", "a=a+2", "a=3+a", "a=a-3", "swap", "a=b", "b=a+1", "a+=(b-a)", "b++", "b-=1", "*a=5", "swap itself", "a=a", "std::swap", "a+=*a"};
        return n[o];
    }
    // false: not applicable
    bool apply(int o, Conf& c)
    {
        long x = c.x, y = c.y;
        switch(o) { // the model first, to stay within the range
            case 0: case 1: ++x; break;
            case 2: case 3: --x; break;
            case 4: x += 3; break;
            case 5: x -= 2; break;
            case 6: x += 2; break;
            case 7: x += 3; break;
            case 8: x -= 3; break;
            case 9: std::swap(x, y); break;
            case 10: x = y; break;
            case 11: y = x + 1; break;
            case 12: x = y; break;
            case 13: ++y; break;
            case 14: --y; break;
            case 15: if(Const) return false; x = 5; if(lo > 5 || hi < 5) return false; break;
            case 18: std::swap(x, y); break;
            case 19: x *= 2; break;
        }
        if(x < lo || x > hi || y < lo || y > hi) return false;
        const long ox = c.x, oy = c.y;
        switch(o) {
            case 0: { const long r = value(++c.a); MC_CHECK(r == ox + 1, "++a returns ", r); break; }
            case 1: { const long r = value(c.a++); MC_CHECK(r == ox, "a++ returns ", r); break; }
            case 2: { const long r = value(--c.a); MC_CHECK(r == ox - 1, "--a returns ", r); break; }
            case 3: { const long r = value(c.a--); MC_CHECK(r == ox, "a-- returns ", r); break; }
            case 4: { auto& r = (c.a += D(3)); MC_CHECK(&r == &c.a, "+= does not return its operand"); break; }
            case 5: { auto& r = (c.a -= D(2)); MC_CHECK(&r == &c.a, "-= does not return its operand"); break; }
            case 6: c.a = c.a + D(2); break;
            case 7: c.a = D(3) + c.a; break;
            case 8: c.a = c.a - D(3); break;
            case 9: c.a.swap(c.b); break;
            case 10: c.a = c.b; break;
            case 11: c.b = c.a + D(1); break;
            case 12: c.a += (c.b - c.a); break;
            case 13: { const long r = value(c.b++); MC_CHECK(r == oy, "b++ returns ", r); break; }
            case 14: c.b -= D(1); break;
            case 15: assign(c.a, std::integral_constant<bool, Const>{}); break;
            case 16: c.a.swap(c.a); break;
            case 17: { It& alias = c.a; c.a = alias; break; }
            case 18: std::swap(c.a, c.b); break;
            case 19: c.a += *c.a; break;
        }
        c.x = x;
        c.y = y;
        return true;
    }
    static void assign(It& i, std::false_type) { *i = T(5); }
    static void assign(It&, std::true_type) {}

    std::string show(const std::vector<int>& h) const
    {
        std::string s;
        for(int o : h) s += std::string(s.empty() ? "" : "; ") + op_name(o);
        return s;
    }
    void explore(std::vector<int>& h, std::size_t depth, const Conf& c)
    {
        if(h.size() == depth) return;
        for(int o = 0; o < N; ++o) {
            h.push_back(o);
            Conf n       = c;
            bool applies = true;
            MC_CASE(name, " from ", h.empty() ? 0 : 1, ": ", show(h))
            {
                applies = apply(o, n);
                if(applies) {
                    MC_COUNT("transitions", 1);
                    MC_COUNT("traces", 1);
                    same(n);
                    states.insert({n.x, n.y});
                }
            }
            if(mc::S().only && mc::S().case_no < mc::S().only) applies = apply(o, n);
            if(applies) explore(h, depth, n);
            h.pop_back();
        }
    }
    void run(long x, long y, std::size_t depth)
    {
        std::vector<int> h;
        states.clear();
        MC_CASE(name, " start ", x, ",", y)
        {
            same(Conf{It(T(x)), It(T(y)), x, y});
            // the standard algorithms
            long n = 0, v = std::min(x, y);
            for(It i = It(T(v)), e = It(T(std::max(x, y))); i != e; ++i, ++v, ++n) MC_CHECK(long(*i) == v, "iteration gives ", long(*i));
            MC_CHECK(n == std::abs(x - y), "iteration visits ", n);
            It k = It(T(std::min(x, y)));
            std::advance(k, D(2));
            MC_CHECK(long(*k) == std::min(x, y) + 2, "std::advance");
            MC_CHECK(long(std::distance(It(T(std::min(x, y))), It(T(std::max(x, y))))) == std::abs(x - y), "std::distance");
            long m = std::max(x, y);
            It i = It(T(m)), e = It(T(std::min(x, y)));
            while(i != e) {
                MC_CHECK(long(*i) == m, "iteration backwards gives ", long(*i));
                --i;
                --m;
            }
        }
        explore(h, depth, Conf{It(T(x)), It(T(y)), x, y});
        MC_COUNT("states", states.size());
    }
};
template <typename T>
void both(const char* n, const char* nc, long x, long y, long lo, long hi, std::size_t depth)
{
    Explorer<T, true>{nc, lo, hi, {}}.run(x, y, depth);
    Explorer<T, false>{n, lo, hi, {}}.run(x, y, depth);
}
void part_wide()
{
    Explorer<uint64_t, true>{"const u64", 0, 1000, {}}.run(10, 12, mc::pick(4, 5));
    both<uint64_t>("u64", "const u64", (1l << 40) - 1, (1l << 40) + 3, 1l << 39, 1l << 41, 3);
    both<long>("i64", "const i64", -2, 1, -100, 100, 3);
    both<int>("i32", "const i32", 1, -1, -100, 100, mc::pick(3, 5));
    both<unsigned>("u32", "const u32", 20, 20, 0, 1000, 3);
}
void part_narrow()
{
    both<uint8_t>("u8", "const u8", 100, 90, 0, 240, 3);
    both<uint16_t>("u16", "const u16", 40000, 300, 0, 65000, 3);
    both<int8_t>("i8", "const i8", 1, -3, -100, 100, 3);
    both<int16_t>("i16", "const i16", -300, 2, -1000, 1000, mc::pick(3, 4));
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"wide", part_wide}, {"narrow", part_narrow}}); }

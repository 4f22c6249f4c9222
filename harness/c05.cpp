// C05: Kronecker deltas and their canonical order.
#include "mc.hpp"
#include <algorithm>
#include "ieompp/algebra/kronecker.hpp"
#include "ieompp/symbolic/prefactor.hpp"
using namespace ieompp;
using algebra::Kronecker;
using Pair = std::pair<std::string, std::string>;

std::vector<Pair> canonical(std::vector<Pair> v)
{
    for(auto& p : v)
        if(p.second < p.first) std::swap(p.first, p.second);
    // insertion sort, lexicographic
    for(std::size_t i = 1; i < v.size(); ++i)
        for(std::size_t j = i; j > 0; --j) {
            const bool less = v[j].first != v[j - 1].first ? v[j].first < v[j - 1].first : v[j].second < v[j - 1].second;
            if(!less) break;
            std::swap(v[j], v[j - 1]);
        }
    return v;
}
template <typename V>
std::vector<Pair> ordered(const std::vector<Pair>& in, V value, bool& ok)
{
    symbolic::Prefactor<V> p;
    p.value = value;
    for(auto& k : in) p.kroneckers.push_back(Kronecker{k.first, k.second});
    p.order_kroneckers();
    ok = ok && p.value == value;
    std::vector<Pair> out;
    for(auto& k : p.kroneckers) out.emplace_back(k.a, k.b);
    p.order_kroneckers();
    std::vector<Pair> again;
    for(auto& k : p.kroneckers) again.emplace_back(k.a, k.b);
    ok = ok && again == out;
    return out;
}
template <typename V>
void check(const std::vector<Pair>& in, V value)
{
    bool ok        = true;
    const auto out = ordered(in, value, ok);
    MC_CHECK(out == canonical(in), "ordered to ", out, " instead of ", canonical(in));
    MC_CHECK(ok, "the value changed, or ordering twice differs from ordering once");
}

void part_delta()
{
    const std::vector<std::string> names{"", "a", "b", "ab", "k_1", "k_10", "k_2", u8"σ"};
    for(auto& a : names)
        for(auto& b : names) {
            MC_CASE("delta ", a, ",", b, " against every delta")
            {
                mc::distinct(mc::hash_str(a + "," + b));
                const Kronecker k{a, b};
                const Kronecker m = algebra::make_kronecker(a, b);
                MC_CHECK(m.a == a && m.b == b, "make_kronecker gives ", m.a, ",", m.b);
                const Kronecker mc_ = algebra::make_kronecker(a.c_str(), b.c_str());
                MC_CHECK(mc_.a == a && mc_.b == b, "make_kronecker from C strings gives ", mc_.a, ",", mc_.b);
                Kronecker o = k;
                o.order();
                MC_CHECK(o.a == std::min(a, b) && o.b == std::max(a, b), "order gives ", o.a, ",", o.b);
                MC_CHECK(o == k && !(o != k), "the ordered delta differs from the delta");
                Kronecker o2 = o;
                o2.order();
                MC_CHECK(o2.a == o.a && o2.b == o.b, "ordering twice");
                for(auto& c : names)
                    for(auto& d : names) {
                        const bool want = (a == c && b == d) || (a == d && b == c);
                        const Kronecker l{c, d};
                        MC_CHECK((k == l) == want && (l == k) == want, "== with ", c, ",", d);
                        MC_CHECK((k != l) == !want && (l != k) == !want, "!= with ", c, ",", d);
                    }
            }
        }
    for(long a : {0l, 1l, -1l, 10l, 123456789l})
        for(long b : {0l, 2l, -1l, 9l})
            MC_CASE("numeric delta ", a, ",", b)
            {
                const Kronecker k = algebra::make_kronecker(a, b);
                MC_CHECK(k.a == std::to_string(a) && k.b == std::to_string(b), "make_kronecker gives ", k.a, ",", k.b);
                const Kronecker i = algebra::make_kronecker(int(a), int(b));
                MC_CHECK(i == k, "make_kronecker of int gives ", i.a, ",", i.b);
                const Kronecker u = algebra::make_kronecker(uint64_t(a < 0 ? 7 : a), uint64_t(b < 0 ? 8 : b));
                MC_CHECK(u.a == std::to_string(a < 0 ? 7 : a) && u.b == std::to_string(b < 0 ? 8 : b), "make_kronecker of uint64_t");
            }
}

void lists(const std::vector<std::string>& names, std::size_t max_len)
{
    std::vector<Pair> ps;
    for(auto& a : names)
        for(auto& b : names) ps.emplace_back(a, b);
    for(std::size_t len = 0; len <= max_len; ++len) {
        std::vector<std::size_t> w(len, 0);
        for(;;) {
            std::vector<Pair> in;
            for(auto i : w) in.push_back(ps[i]);
            MC_CASE("list ", in)
            {
                mc::distinct(mc::hash_str(mc::str(in)));
                if(len % 2)
                    check<double>(in, -2.5);
                else
                    check<int>(in, 3);
            }
            std::size_t i = len;
            while(i > 0 && ++w[i - 1] == ps.size()) w[--i] = 0;
            if(i == 0) break;
        }
    }
}
void part_lists() { lists({"a", "b", "c"}, mc::pick(5, 6)); }
void part_names()
{
    lists({"k_1", "k_10", "k_2", ""}, mc::pick(2, 3));
    lists({"a", "b", "c", "d"}, mc::pick(3, 4));
}
// lists longer than the threshold at which the library's sort changes its algorithm: every rotation,
// reversal and flip pattern of fixed lists
void part_long()
{
    const std::vector<std::string> names{"a", "b", "c", "d", "e", "k_1", "k_10", "k_2"};
    for(std::size_t len : {7, 16, 17, 18, 33, 64, 129, 300})
        for(std::size_t stride = 1; stride <= mc::pick(5u, 11u); ++stride) {
            std::vector<Pair> base;
            for(std::size_t i = 0; i < len; ++i)
                base.emplace_back(names[(i * stride) % names.size()], names[(i * i + stride * i / 3 + i / 5) % names.size()]);
            bool ok        = true;
            const auto ref = ordered<int>(base, 1, ok);
            for(std::size_t rot = 0; rot < len; rot += (len > 64 ? 37 : 1))
                for(int rev = 0; rev < 2; ++rev)
                    for(int flip = 0; flip < 4; ++flip)
                        MC_CASE("long list ", len, " stride ", stride, " rotated ", rot, rev ? " reversed" : "", " flips ", flip)
                        {
                            auto in = base;
                            std::rotate(in.begin(), in.begin() + rot, in.end());
                            if(rev) std::reverse(in.begin(), in.end());
                            for(std::size_t i = 0; i < len; ++i)
                                if((flip >> (i % 2)) & 1) std::swap(in[i].first, in[i].second);
                            check<int>(in, -1);
                            bool k = true;
                            MC_CHECK(ordered<int>(in, 5, k) == ref, "differs from the order of another arrangement");
                        }
        }
}
int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"delta", part_delta}, {"lists", part_lists}, {"names", part_names}, {"long", part_long}});
}

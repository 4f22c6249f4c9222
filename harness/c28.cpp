// C28: lists of matrix entries.
#include "mc.hpp"
#include "ieompp/types/triplet.hpp"

#include <algorithm>
#include <limits>

using namespace ieompp::types;
using C = std::complex<double>;

template <typename S, typename I>
std::string show(const TripletList<S, I>& l)
{
    std::string s;
    for(auto& e : l) s += mc::str('(', e.row, ' ', e.column, ' ', e.value, ')');
    return s;
}
inline bool zero(double x) { return x == 0; }
inline bool zero(long x) { return x == 0; }
inline bool zero(const C& x) { return x == C(); }

template <typename S, typename I>
void check(const std::vector<std::pair<I, S>>& entries)
{
    TripletList<S, I> l, tagged;
    I tag = 0;
    const I row = entries.size() % 3 == 0 ? I(7) : entries.size() % 3 == 1 ? I(70001) : I(std::numeric_limits<I>::max() - 1);
    for(auto& e : entries) {
        l.emplace_back(row, e.first, e.second);
        tagged.push_back(Triplet<S, I>(tag++, e.first, e.second));
    }
    bool adjacent = false;
    for(std::size_t i = 1; i < entries.size(); ++i) adjacent = adjacent || entries[i].first == entries[i - 1].first;
    MC_CHECK(l.has_unique_columns() == !adjacent, "has_unique_columns of ", show(l));
    // sorting
    auto s = tagged;
    s.sort();
    bool ok = s.size() == tagged.size();
    std::vector<bool> seen(tagged.size(), false);
    for(std::size_t i = 0; ok && i < s.size(); ++i) {
        const auto t = s[i].row;
        ok = std::size_t(t) < seen.size() && !seen[t] && s[i].column == tagged[t].column && s[i].value == tagged[t].value
             && (i == 0 || s[i - 1].column <= s[i].column);
        if(ok) seen[t] = true;
    }
    MC_CHECK(ok, "sorted ", show(tagged), " into ", show(s));
    // merging
    l.sort();
    const auto before = l;
    const auto m      = l.make_columns_unique();
    std::map<I, S> sums;
    for(auto& e : entries) sums[e.first] += e.second;
    std::vector<std::pair<I, S>> want;
    for(auto& e : sums)
        if(!zero(e.second)) want.push_back(e);
    ok = m.size() == want.size();
    for(std::size_t i = 0; ok && i < m.size(); ++i) ok = m[i].column == want[i].first && m[i].value == want[i].second && m[i].row == row;
    MC_CHECK(ok, "merged ", show(l), " into ", show(m));
    MC_CHECK(m.has_unique_columns(), "duplicates after merging ", show(l));
    ok = l.size() == before.size();
    for(std::size_t i = 0; ok && i < l.size(); ++i) ok = l[i].column == before[i].column && l[i].value == before[i].value;
    MC_CHECK(ok, "the list changed while merging");
    // in place, as the matrix code does it
    l = l.make_columns_unique();
    MC_CHECK(l.size() == want.size(), "assigned to itself: ", show(l));
}

template <typename S, typename I>
void all(std::size_t length, const std::vector<I>& columns, const std::vector<S>& values, const std::string& what)
{
    std::vector<std::pair<I, S>> letters;
    for(auto c : columns)
        for(auto v : values) letters.emplace_back(c, v);
    for(std::size_t len = 0; len <= length; ++len) {
        uint64_t count = 1;
        for(std::size_t i = 0; i < len; ++i) count *= letters.size();
        for(uint64_t x = 0; x < count; ++x)
            MC_CASE(what, " length ", len, " list ", x)
            {
                mc::distinct(mc::hash_str(mc::str(what, len, '/', x)));
                std::vector<std::pair<I, S>> e;
                uint64_t r = x;
                for(std::size_t i = 0; i < len; ++i) {
                    e.push_back(letters[r % letters.size()]);
                    r /= letters.size();
                }
                check<S, I>(e);
            }
    }
}
void long_lists()
{
    for(std::size_t len = 7; len <= mc::pick(120, 400); ++len)
        for(uint64_t a = 1; a < mc::pick(12, 30); ++a)
            for(uint64_t k : {1, 2, 3, 9, 50, 401})
                MC_CASE("length ", len, " family ", a, " columns ", k)
                {
                    mc::distinct(mc::hash_str(mc::str("l", len, '/', a, '/', k)));
                    std::vector<std::pair<std::size_t, double>> e;
                    for(uint64_t i = 0; i < len; ++i) e.emplace_back((i * i * a + 7 * i + a) % k, double((i * a + i * i) % 5) - 2.);
                    check<double, std::size_t>(e);
                }
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv,
                   {{"real", [] { all<double, std::size_t>(mc::pick(6, 7), {0, 1, 5}, {1., -1., 2.}, "double"); }},
                    {"columns", [] { all<double, uint32_t>(mc::pick(8, 9), {0, 1, 2, 0xffffffffu}, {0.5}, "columns"); }},
                    {"cancel", [] { all<double, std::size_t>(mc::pick(8, 10), {0, 1}, {1., -1.}, "cancel"); }},
                    {"integer", [] { all<long, int>(mc::pick(5, 6), {-1, 0, 3}, {1, -1, 3}, "integer"); }},
                    {"complex", [] { all<C, std::size_t>(mc::pick(5, 6), {0, 2}, {C(1, 0), C(-1, 0), C(0, 1), C(0, -1)}, "complex"); }},
                    {"tiny", [] { all<double, std::size_t>(mc::pick(4, 5), {0, 3}, {std::ldexp(1., -50), std::ldexp(-1., -50), std::ldexp(1., -34), 1., std::ldexp(1., 60)}, "tiny"); }},
                    {"long", long_lists}});
}

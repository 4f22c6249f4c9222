// C06: collecting like terms.
#include "mc.hpp"
#include <deque>
#include <limits>
#include <list>
#include "algebra.hpp"
#include "ieompp/algebra/term/list.hpp"
#include "ieompp/algebra/term/order.hpp"
#include "ieompp/algebra/term/term.hpp"
using namespace alg;

template <typename T, typename CA, typename CB, typename Op>
void one(const Table<Op>& t, const std::vector<std::vector<std::size_t>>& words_, const std::vector<std::size_t>& seq,
         const std::vector<typename T::Prefactor>& pre, std::size_t prefill)
{
    using P = typename T::Prefactor;
    CA in;
    for(std::size_t i = 0; i < seq.size(); ++i) in.push_back(T{pre[i], build<typename T::Container>(t, words_[seq[i]])});
    const CA before = in;
    CB out;
    for(std::size_t i = 0; i < prefill; ++i) out.push_back(T{P(100 + int(i)), build<typename T::Container>(t, words_[i % words_.size()])});
    copy_as_unique_terms(in, out);
    // the input is unchanged
    bool same = in.size() == before.size();
    const CA& after = in;
    for(auto a = after.begin(), b = before.begin(); same && a != after.end(); ++a, ++b)
        same = a->prefactor == b->prefactor && a->have_same_operators(*b);
    MC_CHECK(same, "the input was changed");
    // model
    std::vector<std::pair<MWord, P>> sums;
    for(std::size_t i = 0; i < seq.size(); ++i) {
        const auto m = mbuild(t, words_[seq[i]]);
        bool found   = false;
        for(auto& s : sums)
            if(s.first == m) {
                s.second += pre[i];
                found = true;
            }
        if(!found) sums.emplace_back(m, pre[i]);
    }
    std::size_t k = 0, seen = 0;
    MWord last;
    bool first = true;
    for(auto& r : out) {
        const auto m = models(r.operators);
        if(k < prefill) {
            MC_CHECK(m == mbuild(t, words_[k % words_.size()]) && r.prefactor == P(100 + int(k)), "what the container held before was changed");
            ++k;
            continue;
        }
        ++k;
        MC_CHECK(first || word_less(last, m), "not strictly ascending: ", last, " before ", m);
        first      = false;
        last       = m;
        bool found = false;
        for(auto& s : sums)
            if(s.first == m) {
                found = true;
                ++seen;
                MC_CHECK(r.prefactor == s.second, "prefactor of ", m, " is ", r.prefactor, " instead of ", s.second);
                s.second = P(0); // must not be missing below
            }
        MC_CHECK(found, "a product that is not in the input: ", m);
    }
    MC_CHECK(k >= prefill, "the container lost terms");
    for(auto& s : sums) MC_CHECK(s.second == P(0), "missing product ", s.first, " with ", s.second);
    MC_CHECK(seen == sums.size(), seen, " products instead of ", sums.size(), ": some whose prefactors cancel are missing");
}

template <typename T, typename CA, typename CB, typename Op>
void sequences(const char* name, const Table<Op>& t, const std::vector<std::vector<std::size_t>>& ws, std::size_t max_len, bool cancel,
               std::size_t prefill)
{
    using P = typename T::Prefactor;
    for(std::size_t len = 0; len <= max_len; ++len)
        words(ws.size(), len, [&](const std::vector<std::size_t>& seq) {
            MC_CASE(name, cancel ? " cancelling " : " ", seq)
            {
                mc::distinct(mc::mix(mc::hash_str(mc::str(name, seq)) + cancel));
                std::vector<P> pre;
                for(std::size_t i = 0; i < len; ++i) pre.push_back(cancel ? P(i % 2 ? -1 : 1) : P(1 << i));
                one<T, CA, CB>(t, ws, seq, pre, prefill);
            }
        });
}
template <typename T, typename CA, typename CB, typename Op>
void longs(const char* name, const Table<Op>& t, const std::vector<std::vector<std::size_t>>& ws, uint64_t salts)
{
    using P = typename T::Prefactor;
    for(std::size_t len : {8, 16, 17, 40, 100, 300})
        for(uint64_t s = 1; s <= salts; ++s) {
            auto seq = long_word(ws.size(), len, s);
            for(int mode = 0; mode < 3; ++mode) {
                if(mode == 1) std::sort(seq.begin(), seq.end());
                if(mode == 2) std::reverse(seq.begin(), seq.end());
                MC_CASE(name, " long ", seq)
                {
                    std::vector<P> pre;
                    for(std::size_t i = 0; i < len; ++i) pre.push_back(P(int(i * 7 % 11) - 4));
                    one<T, CA, CB>(t, ws, seq, pre, 1);
                }
            }
        }
}
using W  = std::vector<std::vector<std::size_t>>;
using C  = std::complex<double>;
using O2 = Operator<uint64_t, bool>;
using OS = Operator<std::string>;
using O3 = Operator<bool, uint8_t, int>;
void part_short()
{
    const auto t = all_ops<uint64_t, bool>(2);
    const W ws{{}, {0}, {3}, {0, 3}, {3, 0}, {5, 5}};
    using T  = Term<int, O2>;
    using TC = Term<C, O2, std::list<O2>>;
    sequences<T, std::vector<T>, std::vector<T>>("vector", t, ws, mc::pick(6, 7), false, 0);
    sequences<T, std::vector<T>, std::deque<T>>("vector", t, ws, 4, true, 2);
    sequences<TC, std::list<TC>, std::vector<TC>>("list", t, ws, 3, false, 1);
}
void part_alphabet()
{
    // all products of length at most two, every sequence of up to three of them
    const auto t = all_ops<std::string>(3);
    W ws;
    for(std::size_t len = 0; len <= 2; ++len) words(4, len, [&](const std::vector<std::size_t>& w) { ws.push_back(w); });
    using T = Term<double, OS>;
    sequences<T, std::deque<T>, std::list<T>>("string", t, ws, mc::pick(2, 3), false, 1);
    const auto t3 = all_ops<bool, uint8_t, int>(2);
    W w3{{}};
    for(std::size_t i = 0; i < t3.size(); ++i) w3.push_back({i});
    w3.push_back({1, 2, 3});
    w3.push_back({1, 2, 4});
    using T3 = Term<long, O3>;
    sequences<T3, std::vector<T3>, std::vector<T3>>("3 indices", t3, w3, mc::pick(2, 3), true, 0);
    longs<T, std::vector<T>, std::vector<T>>("string", t, ws, mc::pick(40, 300));
    longs<T3, std::list<T3>, std::deque<T3>>("3 indices", t3, w3, mc::pick(10, 100));
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"short", part_short}, {"alphabet", part_alphabet}}); }

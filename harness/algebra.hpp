// Enumeration of operators and an index-free model of them.
#ifndef VERIF_ALGEBRA_HPP
#define VERIF_ALGEBRA_HPP
#include <cstdint>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include "ieompp/algebra/operator.hpp"
#include "ieompp/algebra/operator/get_index.hpp"
#include "ieompp/algebra/operator/make.hpp"
#include "ieompp/algebra/operator/operator.hpp"
#include "ieompp/algebra/operator/order.hpp"

namespace alg
{
    using namespace ieompp::algebra;

    struct MOp { // model: kind and rank of each index
        bool creator;
        std::vector<int> idx;
        bool operator==(const MOp& o) const { return creator == o.creator && idx == o.idx; }
        bool operator!=(const MOp& o) const { return !(*this == o); }
        bool operator<(const MOp& o) const
        {
            if(creator != o.creator) return creator; // creators first
            return idx < o.idx;
        }
        MOp dagger() const { return MOp{!creator, idx}; }
    };
    using MWord = std::vector<MOp>;
    inline std::ostream& operator<<(std::ostream& s, const MOp& m)
    {
        s << (m.creator ? "+" : "-");
        for(auto i : m.idx) s << i;
        return s;
    }
    inline MWord dagger(const MWord& w)
    {
        MWord r;
        for(std::size_t i = w.size(); i-- > 0;) r.push_back(w[i].dagger());
        return r;
    }
    inline bool word_less(const MWord& a, const MWord& b)
    {
        if(a.size() != b.size()) return a.size() < b.size();
        return a < b;
    }

    // ascending values of each index type
    template <typename T>
    struct Values {
        static std::vector<T> get()
        {
            return {std::numeric_limits<T>::lowest(), T(0), T(1), std::numeric_limits<T>::max()};
        }
    };
    template <typename T>
    struct UValues {
        static std::vector<T> get() { return {T(0), T(1), T(2), std::numeric_limits<T>::max()}; }
    };
    template <> struct Values<uint8_t> : UValues<uint8_t> {};
    template <> struct Values<uint16_t> : UValues<uint16_t> {};
    template <> struct Values<uint32_t> : UValues<uint32_t> {};
    template <> struct Values<uint64_t> : UValues<uint64_t> {};
    template <>
    struct Values<bool> {
        static std::vector<bool> get() { return {false, true}; }
    };
    template <>
    struct Values<char> {
        static std::vector<char> get() { return {'a', 'b', 'z'}; }
    };
    template <>
    struct Values<double> {
        static std::vector<double> get() { return {-1.5, -0.25, 0., 1e-300, 2.5}; }
    };
    template <>
    struct Values<std::string> {
        static std::vector<std::string> get() { return {"", "a", "ab", "b"}; }
    };

    template <typename... Ts>
    struct List {};

    template <typename Op>
    using Table = std::vector<std::pair<Op, MOp>>;

    template <typename Op, typename... Done>
    void gen(Table<Op>& out, MOp m, std::size_t, List<>, const Done&... d)
    {
        m.creator = true;
        out.emplace_back(Op::make_creator(d...), m);
        m.creator = false;
        out.emplace_back(Op::make_annihilator(d...), m);
    }
    template <typename Op, typename T, typename... Rest, typename... Done>
    void gen(Table<Op>& out, MOp m, std::size_t limit, List<T, Rest...>, const Done&... d)
    {
        const auto vals = Values<T>::get();
        for(std::size_t k = 0; k < vals.size() && k < limit; ++k) {
            MOp n = m;
            n.idx.push_back(int(k));
            const T v = vals[k];
            gen<Op>(out, n, limit, List<Rest...>{}, d..., v);
        }
    }
    // every operator over these index types (at most `limit` values per index)
    template <typename... Ts>
    Table<Operator<Ts...>> all_ops(std::size_t limit = 99)
    {
        Table<Operator<Ts...>> t;
        gen<Operator<Ts...>>(t, MOp{true, {}}, limit, List<Ts...>{});
        return t;
    }

    // read an operator's fields directly
    template <typename A>
    std::tuple<A> fields(const Operator<A>& o) { return std::make_tuple(o.index); }
    template <typename A, typename B>
    std::tuple<A, B> fields(const Operator<A, B>& o) { return std::make_tuple(o.index1, o.index2); }
    template <typename... Ts>
    std::tuple<Ts...> fields(const Operator<Ts...>& o) { return o.indices; }

    template <typename T>
    int rank(const T& v)
    {
        const auto vals = Values<T>::get();
        for(std::size_t k = 0; k < vals.size(); ++k)
            if(vals[k] == v) return int(k);
        return -1;
    }
    template <typename Tuple, std::size_t... Is>
    std::vector<int> ranks(const Tuple& t, std::index_sequence<Is...>)
    {
        return {rank(std::get<Is>(t))...};
    }
    template <typename... Ts>
    MOp model(const Operator<Ts...>& o)
    {
        return MOp{o.creator, ranks(fields(o), std::index_sequence_for<Ts...>{})};
    }
    template <typename C>
    MWord models(const C& c)
    {
        MWord w;
        for(auto& o : c) w.push_back(model(o));
        return w;
    }

    // call f(indices into a table of n) for every word of length len
    template <typename F>
    void words(std::size_t n, std::size_t len, F f)
    {
        std::vector<std::size_t> w(len, 0);
        for(;;) {
            f(w);
            std::size_t i = len;
            while(i > 0) {
                if(++w[i - 1] < n) break;
                w[--i] = 0;
            }
            if(i == 0) return;
        }
    }
    template <typename C, typename Op>
    C build(const Table<Op>& t, const std::vector<std::size_t>& w)
    {
        C c;
        for(auto i : w) c.push_back(t[i].first);
        return c;
    }
    template <typename Op>
    MWord mbuild(const Table<Op>& t, const std::vector<std::size_t>& w)
    {
        MWord c;
        for(auto i : w) c.push_back(t[i].second);
        return c;
    }
    // a long, aperiodic word
    inline std::vector<std::size_t> long_word(std::size_t n, std::size_t len, uint64_t salt = 1)
    {
        std::vector<std::size_t> w;
        uint64_t x = 88172645463325252ull + salt * 7919;
        for(std::size_t i = 0; i < len; ++i) {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            w.push_back(std::size_t(x % n));
        }
        return w;
    }
} // namespace alg
#endif

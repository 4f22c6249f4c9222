// C02: equality and order of operators and terms, factories, accessors.
#include "mc.hpp"
#include <deque>
#include <limits>
#include <list>
#include "algebra.hpp"
#include "ieompp/algebra/monomial/monomial.hpp"
#include "ieompp/algebra/term/order.hpp"
#include "ieompp/algebra/term/term.hpp"
using namespace alg;

template <typename Op>
void order(const char* name, const Table<Op>& t)
{
    const OperatorSmaller<Op> lt{};
    const OperatorGreater<Op> gt{};
    for(std::size_t i = 0; i < t.size(); ++i) {
        MC_CASE(name, " ", t[i].second, " against every operator")
        {
            const Op& a  = t[i].first;
            const MOp& m = t[i].second;
            mc::distinct(mc::hash_str(mc::str(name, m)));
            for(std::size_t j = 0; j < t.size(); ++j) {
                const Op& b  = t[j].first;
                const MOp& n = t[j].second;
                MC_CHECK((a == b) == (m == n), "== with ", n, " is ", a == b);
                MC_CHECK((a != b) == !(m == n), "!= with ", n, " is ", a != b);
                MC_CHECK(lt(a, b) == (m < n), "smaller than ", n, " is ", lt(a, b));
                MC_CHECK(gt(a, b) == (n < m), "greater than ", n, " is ", gt(a, b));
            }
        }
    }
}

template <typename Op, std::size_t I>
void access_at(const Op& o, Op& mut)
{
    const auto f = fields(o);
    MC_CHECK(get_index<I>(o) == std::get<I>(f), "get_index<", I, "> const");
    MC_CHECK(get_index<I>(mut) == std::get<I>(f), "get_index<", I, ">");
    MC_CHECK(get_index<I>(Op(o)) == std::get<I>(f), "get_index<", I, "> of a temporary");
    // writing through the accessor changes that index and no other
    using T = typename IndexType<I, Op>::Type;
    for(const T v : Values<T>::get()) {
        Op w            = o;
        get_index<I>(w) = v;
        auto g          = f;
        std::get<I>(g)  = v;
        MC_CHECK(fields(w) == g && w.creator == o.creator, "writing through get_index<", I, ">");
    }
}
template <typename Op, std::size_t... Is>
void access_all(const Op& o, std::index_sequence<Is...>)
{
    Op mut = o;
    int d[] = {(access_at<Op, Is>(o, mut), 0)...};
    (void)d;
    MC_CHECK(get_indices(o) == fields(o), "get_indices");
    MC_CHECK(o.index_tuple() == fields(o), "index_tuple");
    MC_CHECK(mut == o, "reading changed the operator");
}
template <typename Op, typename Tup, std::size_t... Is>
void factories(const MOp& m, const Tup& v, std::index_sequence<Is...>)
{
    MOp c = m, a = m;
    c.creator = true;
    a.creator = false;
    MC_CHECK(model(Op::make_creator(std::get<Is>(v)...)) == c, "Operator::make_creator (copy)");
    MC_CHECK(model(Op::make_annihilator(std::get<Is>(v)...)) == a, "Operator::make_annihilator (copy)");
    Tup x = v, y = v;
    MC_CHECK(model(Op::make_creator(std::move(std::get<Is>(x))...)) == c, "Operator::make_creator (move)");
    MC_CHECK(model(Op::make_annihilator(std::move(std::get<Is>(y))...)) == a, "Operator::make_annihilator (move)");
    MC_CHECK(model(alg::make_creator(std::get<Is>(v)...)) == c, "make_creator (copy)");
    MC_CHECK(model(alg::make_annihilator(std::get<Is>(v)...)) == a, "make_annihilator (copy)");
    Tup z = v;
    MC_CHECK(model(alg::make_creator(std::get<Is>(z)...)) == c, "make_creator (lvalue)");
    MC_CHECK(model(alg::make_annihilator(std::get<Is>(z)...)) == a, "make_annihilator (lvalue)");
    MC_CHECK(z == v, "a factory changed its arguments");
    Tup p = v, q = v;
    MC_CHECK(model(alg::make_creator(std::move(std::get<Is>(p))...)) == c, "make_creator (move)");
    MC_CHECK(model(alg::make_annihilator(std::move(std::get<Is>(q))...)) == a, "make_annihilator (move)");
}
template <typename Op>
void access(const char* name, const Table<Op>& t)
{
    for(std::size_t i = 0; i < t.size(); ++i) {
        MC_CASE(name, " access ", t[i].second)
        {
            access_all(t[i].first, std::make_index_sequence<std::tuple_size<typename Op::Indices>::value>{});
            factories<Op>(t[i].second, fields(t[i].first), std::make_index_sequence<std::tuple_size<typename Op::Indices>::value>{});
        }
    }
}
template <typename... Ts>
void both(const char* name, std::size_t limit = 99)
{
    const auto t = all_ops<Ts...>(limit);
    order(name, t);
    access(name, t);
}
void part_ops()
{
    both<int>("int");
    both<uint64_t>("u64");
    both<bool>("bool");
    both<double>("double");
    both<std::string>("string");
    both<uint64_t, bool>("u64,bool");
    both<bool, uint64_t>("bool,u64");
    both<int, int>("int,int");
    both<std::string, char>("string,char");
    both<int8_t, uint16_t, bool>("i8,u16,bool");
    both<std::string, int, bool>("string,int,bool");
    both<int, int, int>("int,int,int");
    both<int, int, int, int>("int,int,int,int", mc::pick(3, 3));
    both<bool, uint64_t, std::string, int>("bool,u64,string,int", mc::pick(2, 3));
    both<bool, bool, bool, bool, bool>("bool x5");
}

template <typename T, typename Op>
void terms(const char* name, const Table<Op>& t, std::size_t max_len)
{
    using Cont = typename T::Container;
    std::vector<std::vector<std::size_t>> all;
    for(std::size_t len = 0; len <= max_len; ++len)
        words(t.size(), len, [&](const std::vector<std::size_t>& w) { all.push_back(w); });
    auto l1 = long_word(t.size(), 9), l2 = l1;
    all.push_back(l1);
    l2.back() = (l2.back() + 1) % t.size();
    all.push_back(l2);
    l2        = l1;
    l2.front() = (l2.front() + 1) % t.size();
    all.push_back(l2);
    // more than 255 operators: one missing, one too many, one other at either end and around the middle
    const auto l3 = long_word(t.size(), 300);
    for(std::size_t len : {44, 255, 256, 257, 300}) all.emplace_back(l3.begin(), l3.begin() + len);
    for(std::size_t at : {0, 43, 127, 254, 255, 256, 299}) {
        l2     = l3;
        l2[at] = (l2[at] + 1) % t.size();
        all.push_back(l2);
    }
    std::vector<T> ts;
    std::vector<MWord> ms;
    int k = 0;
    for(auto& w : all) {
        ts.push_back(T{typename T::Prefactor((k++ * 7) % 5), build<Cont>(t, w)}); // prefactors must not matter
        ms.push_back(mbuild(t, w));
    }
    const TermSmaller<T> lt{};
    const TermGreater<T> gt{};
    for(std::size_t i = 0; i < ts.size(); ++i) {
        MC_CASE(name, " ", ms[i], " against every product")
        {
            mc::distinct(mc::hash_str(mc::str(name, ms[i])));
            const Monomial<Op> a(ts[i].operators.begin(), ts[i].operators.end());
            for(std::size_t j = 0; j < ts.size(); ++j) {
                const Monomial<Op> b(ts[j].operators.begin(), ts[j].operators.end());
                const bool eq = (ms[i] == ms[j]);
                MC_CHECK(lt(ts[i], ts[j]) == word_less(ms[i], ms[j]), "smaller than ", ms[j], " is ", lt(ts[i], ts[j]));
                MC_CHECK(gt(ts[i], ts[j]) == word_less(ms[j], ms[i]), "greater than ", ms[j], " is ", gt(ts[i], ts[j]));
                MC_CHECK(ts[i].have_same_operators(ts[j]) == eq, "have_same_operators as ", ms[j], " is ", !eq);
                MC_CHECK((a == b) == eq, "monomial == ", ms[j], " is ", !eq);
                MC_CHECK((a != b) == !eq, "monomial != ", ms[j], " is ", eq);
            }
        }
    }
}
void part_terms()
{
    using O2 = Operator<uint64_t, bool>;
    using O1 = Operator<int>;
    using O3 = Operator<bool, char, uint8_t>;
    using OS = Operator<std::string>;
    terms<Term<double, O2>>("u64,bool/vector", all_ops<uint64_t, bool>(2), mc::pick(3, 3));
    terms<Term<double, O1, std::list<O1>>>("int/list", all_ops<int>(2), mc::pick(4, 5));
    terms<Term<int, OS, std::deque<OS>>>("string/deque", all_ops<std::string>(2), mc::pick(2, 3));
    terms<Term<std::complex<double>, O3>>("bool,char,u8/vector", all_ops<bool, char, uint8_t>(2), 1);
}
int main(int argc, char** argv) { return mc::run(argc, argv, {{"ops", part_ops}, {"terms", part_terms}}); }

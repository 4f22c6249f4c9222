// C36: text helpers and compile-time queries.
#include "mc.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/algebra/operator/is_symbolic.hpp"
#include "ieompp/constants.hpp"
#include "ieompp/exception.hpp"
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/term/term.hpp"
#include "ieompp/io/exception.hpp"
#include "ieompp/models/hubbard/operator_traits.hpp"
#include "ieompp/models/hubbard_momentum_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/string.hpp"
#include "ieompp/tuple.hpp"
#include "ieompp/types/blaze.hpp"
#include "ieompp/types/function_matrix.hpp"
#include "ieompp/types/matrix.hpp"
#include "ieompp/types/names.hpp"
#include "ieompp/types/number.hpp"

#include <algorithm>
#include <limits>
#include <list>

using namespace ieompp;
using ieompp::algebra::Operator;

// ---- tuples and texts --------------------------------------------------------------------------
// values a tuple element can have, with the text it prints as
template <typename T> std::vector<std::pair<T, std::string>> vals();
template <> std::vector<std::pair<int, std::string>> vals<int>() { return {{-7, "-7"}, {0, "0"}, {42, "42"}}; }
template <> std::vector<std::pair<std::string, std::string>> vals<std::string>() { return {{"", ""}, {"a,b", "a,b"}, {"\xce\xb4(", "\xce\xb4("}}; }
template <> std::vector<std::pair<char, std::string>> vals<char>() { return {{'x', "x"}, {')', ")"}}; }
template <> std::vector<std::pair<double, std::string>> vals<double>() { return {{0.5, "0.5"}, {-2., "-2"}}; }
template <> std::vector<std::pair<uint64_t, std::string>> vals<uint64_t>() { return {{std::numeric_limits<uint64_t>::max(), "18446744073709551615"}, {3, "3"}}; }

template <typename... Ts>
void print_one(const std::tuple<Ts...>& t, const std::vector<std::string>& texts)
{
    const std::vector<std::string> parts{"", ",", ", ", "; ", "\t", "(", "]"};
    auto join = [&](const std::string& d, const std::string& l, const std::string& r) {
        std::string s = l;
        for(std::size_t i = 0; i < texts.size(); ++i) s += (i ? d : "") + texts[i];
        return s + r;
    };
    MC_CASE("tuple of ", texts.size(), " elements ", texts)
    {
        mc::distinct(mc::hash_str(mc::str(sizeof...(Ts), texts)));
        {
            std::ostringstream o;
            print_tuple(o, t);
            MC_CHECK(o.str() == join(",", "(", ")"), o.str());
        }
        for(auto& d : parts) {
            std::ostringstream o;
            print_tuple(o, t, d);
            MC_CHECK(o.str() == join(d, "(", ")"), o.str());
            for(auto& l : parts) {
                std::ostringstream o2;
                print_tuple(o2, t, d, l);
                MC_CHECK(o2.str() == join(d, l, ")"), o2.str());
                for(auto& r : parts) {
                    std::ostringstream o3;
                    o3 << "before ";
                    print_tuple(o3, t, d, l, r);
                    o3 << " after";
                    MC_CHECK(o3.str() == "before " + join(d, l, r) + " after", o3.str());
                }
            }
        }
    }
}
template <typename Done, typename... More>
struct Fill;
template <typename... Done>
struct Fill<std::tuple<Done...>> {
    static void go(const std::tuple<Done...>& t, const std::vector<std::string>& s) { print_one(t, s); }
};
template <typename... Done, typename T, typename... More>
struct Fill<std::tuple<Done...>, T, More...> {
    static void go(const std::tuple<Done...>& t, const std::vector<std::string>& s)
    {
        for(auto& v : vals<T>()) {
            auto s2 = s;
            s2.push_back(v.second);
            Fill<std::tuple<Done..., T>, More...>::go(std::tuple_cat(t, std::make_tuple(v.first)), s2);
        }
    }
};
template <typename... Ts>
void fill()
{
    Fill<std::tuple<>, Ts...>::go(std::tuple<>(), {});
}
void tuples()
{
    fill<int>();
    fill<std::string>();
    fill<int, int>();
    fill<std::string, int>();
    fill<char, double>();
    fill<int, std::string, char>();
    fill<std::string, std::string, std::string>();
    fill<double, uint64_t, int, char>();
    fill<int, int, int, int>();
    fill<char, char, double, double, uint64_t>();
    fill<char, uint64_t, double, char, uint64_t, double>();
    if(mc::thorough()) {
        fill<int, int, int, int, int>();
        fill<std::string, int, char, double, uint64_t, int>();
        fill<char, char, char, char, char, char, char, char>();
    }
}

void compose_check(std::size_t parts, const std::string& want, const std::function<std::string()>& f)
{
    MC_CASE("compose ", parts, " parts giving ", want)
    {
        mc::distinct(mc::hash_str(want));
        const std::string got = f();
        MC_CHECK(got == want, "composed ", got);
    }
}
template <typename... Ts>
void compose_one(const std::string& want, Ts... ts)
{
    compose_check(sizeof...(Ts), want, [=] { return compose(ts...); });
}
template <int N>
struct Compose {
    template <typename... Ts>
    static void go(const std::string& want, Ts... ts)
    {
        compose_one(want, ts...);
        for(auto& v : vals<int>()) Compose<N - 1>::go(want + v.second, ts..., v.first);
        for(auto& v : vals<std::string>()) Compose<N - 1>::go(want + v.second, ts..., v.first);
        for(auto& v : vals<char>()) Compose<N - 1>::go(want + v.second, ts..., v.first);
        Compose<N - 1>::go(want + "lit", ts..., "lit");
        Compose<N - 1>::go(want + "0.5", ts..., 0.5);
    }
};
template <>
struct Compose<0> {
    template <typename... Ts>
    static void go(const std::string& want, Ts... ts)
    {
        compose_one(want, ts...);
    }
};
template <typename E>
void exceptions(const char* name, bool is_base)
{
    for(auto& file : std::vector<std::string>{"", "a.cpp", "/x/y z.hpp", "d:1"})
        for(uint64_t line : {uint64_t(0), uint64_t(1), uint64_t(99), uint64_t(1000000), std::numeric_limits<uint64_t>::max()})
            for(auto& msg : std::vector<std::string>{"", "bad", "two words: x", std::string(5000, 'm'), "\xce\xb4"})
                MC_CASE(name, " file ", file, " line ", line, " message of ", msg.size())
                {
                    mc::distinct(mc::hash_str(mc::str(name, file, line, msg)));
                    const std::string want = file + ":" + std::to_string(line) + ": " + msg;
                    const E e = create_exception<E>(file, line, msg);
                    const E copy(e);
                    MC_CHECK(e.what() == want && copy.what() == want, "created ", e.what());
                    MC_CHECK(E(msg).what() == msg && E(msg.c_str()).what() == msg, "message alone");
                    bool base = false, own = false;
                    try {
                        throw create_exception<E>(file, line, msg);
                    } catch(const Exception& x) {
                        base = x.what() == want;
                    } catch(const std::exception& x) {
                    }
                    try {
                        throw create_exception<E>(file, line, msg);
                    } catch(const E& x) {
                        own = std::string(static_cast<const std::exception&>(x).what()) == want;
                    }
                    MC_CHECK(own && base == is_base, "thrown exception");
                    int line_thrown = 0;
                    std::string text;
                    try {
                        // clang-format off
                        line_thrown = __LINE__; THROW(E, msg);
                        // clang-format on
                    } catch(const std::exception& x) {
                        text = x.what();
                    }
                    MC_CHECK(text == mc::str(__FILE__, ':', line_thrown, ": ", msg), "THROW gives ", text);
                }
}
void texts()
{
    MC_CASE("compose nothing") { MC_CHECK(compose() == "", compose()); }
    Compose<3>::go("");
    exceptions<Exception>("Exception", true);
    exceptions<NotImplemented>("NotImplemented", true);
    exceptions<io::IOException>("IOException", true);
    exceptions<std::runtime_error>("runtime_error", false);
}

// ---- queries over operator types ----------------------------------------------------------------
struct Symbol {
    bool operator==(const Symbol&) const { return true; }
};
enum Kind { UInt64, Int, Bool, Char, Double, Text, Sym };
template <typename T> struct K;
template <> struct K<uint64_t> { static constexpr Kind k = UInt64; };
template <> struct K<int> { static constexpr Kind k = Int; };
template <> struct K<bool> { static constexpr Kind k = Bool; };
template <> struct K<char> { static constexpr Kind k = Char; };
template <> struct K<double> { static constexpr Kind k = Double; };
template <> struct K<std::string> { static constexpr Kind k = Text; };
template <> struct K<Symbol> { static constexpr Kind k = Sym; };
bool numeric(Kind k) { return k == UInt64 || k == Int || k == Bool || k == Char || k == Double; }
bool site(Kind k) { return k == UInt64 || k == Int; }

// what the library says about a type
struct Answers {
    std::size_t n;
    bool is_operator, symbolic, d1, d2, hub, spatial;
    std::vector<bool> has, index_symbolic;
    std::vector<int> index_type;
};
template <typename Op, bool Hub, bool OneD>
struct Spatial {
    static bool ok(const std::vector<Kind>&) { return true; }
};
template <typename Op>
struct Spatial<Op, true, true> {
    static bool ok(const std::vector<Kind>& k)
    {
        return K<typename models::hubbard::SpatialIndexType<Op>::Type>::k == k[0];
    }
};
template <typename Op>
struct Spatial<Op, true, false> {
    static bool ok(const std::vector<Kind>& k)
    {
        using P = typename models::hubbard::SpatialIndexType<Op>::Type;
        return K<typename P::first_type>::k == k[0] && K<typename P::second_type>::k == k[1];
    }
};
template <typename Op, std::size_t I, bool In>
struct Sym1 {
    static void go(Answers& a)
    {
        a.index_symbolic.push_back(algebra::IsSymbolicIndex<I, Op>::value);
        a.index_type.push_back(K<typename algebra::IndexType<I, Op>::Type>::k);
    }
};
template <typename Op, std::size_t I>
struct Sym1<Op, I, false> {
    static void go(Answers&) {}
};
void judge(const std::vector<Kind>& k, const Answers& a)
{
    const auto n = k.size();
    std::vector<int> kk(k.begin(), k.end());
    MC_CASE("operator with index kinds ", kk)
    {
        mc::distinct(mc::hash_str(mc::str(kk)));
        MC_CHECK(a.n == n && a.is_operator, "number of indices, IsOperator");
        bool symbolic = false;
        for(std::size_t i = 0; i < n; ++i) {
            symbolic = symbolic || !numeric(k[i]);
            MC_CHECK(a.index_symbolic[i] == !numeric(k[i]), "IsSymbolicIndex ", i);
            MC_CHECK(a.index_type[i] == k[i], "IndexType ", i);
        }
        MC_CHECK(a.symbolic == symbolic, "IsSymbolicOperator");
        for(int x = UInt64; x <= Sym; ++x) MC_CHECK(a.has[x] == (std::find(k.begin(), k.end(), Kind(x)) != k.end()), "HasIndexOfType ", x);
        MC_CHECK(!a.has[Sym + 1], "HasIndexOfType float");
        // sites of type bool or char are neither demanded nor excluded
        bool odd = false;
        for(std::size_t i = 0; i + 1 < n; ++i) odd = odd || k[i] == Bool || k[i] == Char;
        if(!odd || n > 3 || n < 2) {
            const bool d1 = n == 2 && site(k[0]) && k[1] == Bool, d2 = n == 3 && site(k[0]) && site(k[1]) && k[2] == Bool;
            MC_CHECK(a.d1 == d1, "Is1dHubbardOperator");
            MC_CHECK(a.d2 == d2, "Is2dHubbardOperator");
            MC_CHECK(a.hub == (d1 || d2), "IsHubbardOperator");
        }
        MC_CHECK(a.spatial, "SpatialIndexType");
    }
}
template <typename... Ts>
void query()
{
    using Op = Operator<Ts...>;
    using namespace models::hubbard;
    using algebra::HasIndexOfType;
    const std::vector<Kind> k{K<Ts>::k...};
    Answers a{Op::number_of_indices, algebra::IsOperator<Op>::value, algebra::IsSymbolicOperator<Op>::value, Is1dHubbardOperator<Op>::value,
              Is2dHubbardOperator<Op>::value, IsHubbardOperator<Op>::value, Spatial<Op, IsHubbardOperator<Op>::value, sizeof...(Ts) == 2>::ok(k),
              {HasIndexOfType<Op, uint64_t>::value, HasIndexOfType<Op, int>::value, HasIndexOfType<Op, bool>::value, HasIndexOfType<Op, char>::value,
               HasIndexOfType<Op, double>::value, HasIndexOfType<Op, std::string>::value, HasIndexOfType<Op, Symbol>::value, HasIndexOfType<Op, float>::value},
              {}, {}};
    Sym1<Op, 0, (sizeof...(Ts) > 0)>::go(a);
    Sym1<Op, 1, (sizeof...(Ts) > 1)>::go(a);
    Sym1<Op, 2, (sizeof...(Ts) > 2)>::go(a);
    Sym1<Op, 3, (sizeof...(Ts) > 3)>::go(a);
    judge(k, a);
}
template <int N, typename... All>
struct Words {
    template <typename... Ts>
    static void go()
    {
        query<Ts...>();
        int dummy[] = {(Words<N - 1, All...>::template go<Ts..., All>(), 0)...};
        (void)dummy;
    }
    static void start()
    {
        int dummy[] = {(Words<N - 1, All...>::template go<All>(), 0)...};
        (void)dummy;
    }
};
template <typename... All>
struct Words<0, All...> {
    template <typename... Ts>
    static void go()
    {
        query<Ts...>();
    }
};
struct NotAnOperator {};
void queries()
{
    MC_CASE("no operators")
    {
        MC_CHECK(!algebra::IsOperator<int>::value && !algebra::IsOperator<NotAnOperator>::value && !(algebra::IsOperator<std::tuple<int, bool>>::value),
                 "IsOperator");
    }
    MC_CASE("terms and bases")
    {
        using Op   = Operator<uint64_t, bool>;
        using Mono = algebra::Monomial<Op>;
        MC_CHECK((algebra::IsTerm<algebra::Term<double, Op>>::value && algebra::IsTerm<algebra::Term<std::complex<float>, Operator<uint64_t, uint64_t, bool>>>::value
                  && algebra::IsTerm<algebra::Term<int, Operator<char>>>::value && algebra::IsTerm<algebra::Term<double, Op, std::list<Op>>>::value),
                 "IsTerm of terms");
        MC_CHECK((!algebra::IsTerm<int>::value && !algebra::IsTerm<double>::value && !algebra::IsTerm<Op>::value && !algebra::IsTerm<Mono>::value
                     && !algebra::IsTerm<std::vector<Op>>::value && !algebra::IsTerm<std::vector<algebra::Term<double, Op>>>::value && !algebra::IsTerm<std::string>::value),
                 "IsTerm of others");
        {
            using namespace models::hubbard_real_space;
            MC_CHECK(IsOneOperatorBasis<Basis1Operator<Mono>>::value && !IsThreeOperatorBasis<Basis1Operator<Mono>>::value, "basis of single operators");
            MC_CHECK(!IsOneOperatorBasis<Basis3Operator<Mono>>::value && IsThreeOperatorBasis<Basis3Operator<Mono>>::value, "basis up to three operators");
            MC_CHECK(!IsOneOperatorBasis<std::vector<Mono>>::value && !IsThreeOperatorBasis<std::vector<Mono>>::value && !IsOneOperatorBasis<int>::value
                         && !IsThreeOperatorBasis<int>::value, "no basis");
        }
        {
            using namespace models::hubbard_momentum_space;
            MC_CHECK(!IsOneOperatorBasis<Basis3Operator<Mono>>::value && IsThreeOperatorBasis<Basis3Operator<Mono>>::value, "momentum basis");
            MC_CHECK(!IsOneOperatorBasis<std::vector<Mono>>::value && !IsThreeOperatorBasis<std::vector<Mono>>::value && !IsOneOperatorBasis<int>::value
                         && !IsThreeOperatorBasis<int>::value, "no basis");
        }
    }
    Words<2, uint64_t, int, bool, char, double, std::string, Symbol>::start();
    Words<3, uint64_t, int, bool, std::string, Symbol>::start();
    query<uint64_t, bool, int, std::string>();
    Words<4, uint64_t, bool, std::string>::start();
}

// ---- queries over numbers, matrices and constants -----------------------------------------------
template <typename A, typename B>
constexpr bool same() { return std::is_same<A, B>::value; }
template <typename T>
void number_kind(const char* name, const char* text)
{
    using namespace ieompp::types;
    MC_CASE("number type ", name)
    {
        mc::distinct(mc::hash_str(name));
        MC_CHECK(!IsComplex<T>::value && IsComplex<std::complex<T>>::value, "IsComplex");
        MC_CHECK((same<typename RealType<T>::Type, T>()) && (same<typename RealType<std::complex<T>>::Type, T>()), "RealType");
        MC_CHECK((same<typename ScalarType<T>::Type, T>()) && (same<typename ScalarType<std::complex<T>>::Type, std::complex<T>>()), "ScalarType");
        MC_CHECK(!IsMatrix<T>::value && !IsVector<T>::value && !IsRowVector<T>::value && !IsColumnVector<T>::value && !IsMatrix<std::complex<T>>::value,
                 "a number is no matrix");
        MC_CHECK(!IsBlazeMatrix<T>::value && !IsBlazeVector<T>::value && !IsBlazeDenseMatrix<T>::value && !IsBlazeSparseMatrix<T>::value, "nor one of Blaze");
        MC_CHECK((is_function_matrix<FunctionMatrix<T>>::value && is_function_matrix<FunctionMatrix<std::complex<T>, int>>::value), "is_function_matrix");
        MC_CHECK(!is_function_matrix<T>::value && !is_function_matrix<std::function<T(int, int)>>::value, "is_function_matrix of others");
        const char* const n = type_name<T>::name;
        if(text) MC_CHECK(std::string(n) == text, "name ", n);
    }
}
template <typename T>
void matrix_kinds(const char* name)
{
    using namespace ieompp::types;
    MC_CASE("matrices and vectors of ", name)
    {
        mc::distinct(mc::hash_str(mc::str("m", name)));
        using DR = blaze::DynamicMatrix<T, blaze::rowMajor>;
        using DC = blaze::DynamicMatrix<T, blaze::columnMajor>;
        using SR = blaze::CompressedMatrix<T, blaze::rowMajor>;
        using SC = blaze::CompressedMatrix<T, blaze::columnMajor>;
        using VR = blaze::DynamicVector<T, blaze::rowVector>;
        using VC = blaze::DynamicVector<T, blaze::columnVector>;
        using WR = blaze::CompressedVector<T, blaze::rowVector>;
        using WC = blaze::CompressedVector<T, blaze::columnVector>;
        MC_CHECK(IsMatrix<DR>::value && IsMatrix<DC>::value && IsMatrix<SR>::value && IsMatrix<SC>::value, "IsMatrix");
        MC_CHECK(!is_function_matrix<DR>::value && !is_function_matrix<SC>::value && !is_function_matrix<VC>::value, "is_function_matrix");
        MC_CHECK(!IsMatrix<VR>::value && !IsMatrix<VC>::value && !IsMatrix<WR>::value && !IsMatrix<WC>::value, "IsMatrix of vectors");
        MC_CHECK(IsVector<VR>::value && IsVector<VC>::value && IsVector<WR>::value && IsVector<WC>::value, "IsVector");
        MC_CHECK(!IsVector<DR>::value && !IsVector<DC>::value && !IsVector<SR>::value && !IsVector<SC>::value, "IsVector of matrices");
        MC_CHECK(IsRowVector<VR>::value && !IsRowVector<VC>::value && IsRowVector<WR>::value && !IsRowVector<WC>::value && !IsRowVector<DR>::value, "IsRowVector");
        MC_CHECK(!IsColumnVector<VR>::value && IsColumnVector<VC>::value && !IsColumnVector<WR>::value && IsColumnVector<WC>::value && !IsColumnVector<SC>::value,
                 "IsColumnVector");
        MC_CHECK(IsBlazeDenseMatrix<DR>::value && IsBlazeDenseMatrix<DC>::value && !IsBlazeDenseMatrix<SR>::value && !IsBlazeDenseMatrix<SC>::value && !IsBlazeDenseMatrix<VC>::value,
                 "IsBlazeDenseMatrix");
        MC_CHECK(!IsBlazeSparseMatrix<DR>::value && !IsBlazeSparseMatrix<DC>::value && IsBlazeSparseMatrix<SR>::value && IsBlazeSparseMatrix<SC>::value && !IsBlazeSparseMatrix<VC>::value,
                 "IsBlazeSparseMatrix");
        MC_CHECK(IsBlazeMatrix<DR>::value && IsBlazeMatrix<DC>::value && IsBlazeMatrix<SR>::value && IsBlazeMatrix<SC>::value && !IsBlazeMatrix<VC>::value && !IsBlazeMatrix<VR>::value,
                 "IsBlazeMatrix");
        MC_CHECK(IsBlazeVector<VR>::value && IsBlazeVector<VC>::value && !IsBlazeVector<DR>::value && !IsBlazeVector<SC>::value, "IsBlazeVector");
        MC_CHECK((same<typename ScalarType<DR>::Type, T>()) && (same<typename ScalarType<DC>::Type, T>()) && (same<typename ScalarType<SR>::Type, T>())
                     && (same<typename ScalarType<SC>::Type, T>()) && (same<typename ScalarType<VR>::Type, T>()) && (same<typename ScalarType<VC>::Type, T>())
                     && (same<typename ScalarType<WR>::Type, T>()) && (same<typename ScalarType<WC>::Type, T>()),
                 "ScalarType");
        for(std::size_t r = 0; r < 5; ++r) {
            const VR vr(r);
            const VC vc(r);
            using VS = blaze::CompressedVector<T, blaze::columnVector>;
            const VS vs(r);
            MC_CHECK(MatrixDimensionInfo<VS>::rows(vs) == r && MatrixDimensionInfo<VS>::columns(vs) == 1, "dimensions of a sparse vector of ", r);
            for(std::size_t c = 0; c < 5; ++c) {
                const DR dr(r, c);
                const DC dc(r, c);
                const SR sr(r, c);
                const SC sc(r, c);
                MC_CHECK(MatrixDimensionInfo<DR>::rows(dr) == r && MatrixDimensionInfo<DR>::columns(dr) == c, "dense ", r, 'x', c);
                MC_CHECK(MatrixDimensionInfo<DC>::rows(dc) == r && MatrixDimensionInfo<DC>::columns(dc) == c, "dense ", r, 'x', c);
                MC_CHECK(MatrixDimensionInfo<SR>::rows(sr) == r && MatrixDimensionInfo<SR>::columns(sr) == c, "sparse ", r, 'x', c);
                MC_CHECK(MatrixDimensionInfo<SC>::rows(sc) == r && MatrixDimensionInfo<SC>::columns(sc) == c, "sparse ", r, 'x', c);
            }
        }
    }
}
template <typename F>
void constants(const char* name, F pi, F half, F two)
{
    MC_CASE("constants of ", name)
    {
        mc::distinct(mc::hash_str(mc::str("c", name)));
        MC_CHECK(Pi<F>::value == pi, "pi ", (long double)Pi<F>::value);
        MC_CHECK(HalfPi<F>::value == half, "pi/2 ", (long double)HalfPi<F>::value);
        MC_CHECK(TwoPi<F>::value == two, "2 pi ", (long double)TwoPi<F>::value);
    }
}
void kinds()
{
    number_kind<bool>("bool", "bool");
    number_kind<uint8_t>("uint8_t", "uint8_t");
    number_kind<uint16_t>("uint16_t", "uint16_t");
    number_kind<uint32_t>("uint32_t", "uint32_t");
    number_kind<uint64_t>("uint64_t", "uint64_t");
    number_kind<int8_t>("int8_t", "int8_t");
    number_kind<int16_t>("int16_t", "int16_t");
    number_kind<int32_t>("int32_t", "int32_t");
    number_kind<int64_t>("int64_t", "int64_t");
    number_kind<float>("float", "float");
    number_kind<double>("double", "double");
    number_kind<long double>("long double", "long double");
    matrix_kinds<float>("float");
    matrix_kinds<double>("double");
    matrix_kinds<int>("int");
    matrix_kinds<std::complex<double>>("complex");
    constants<float>("float", 3.14159265358979323846264338327950288f, 1.57079632679489661923132169163975144f, 6.28318530717958647692528676655900577f);
    constants<double>("double", 3.14159265358979323846264338327950288, 1.57079632679489661923132169163975144, 6.28318530717958647692528676655900577);
    constants<long double>("long double", 3.14159265358979323846264338327950288L, 1.57079632679489661923132169163975144L, 6.28318530717958647692528676655900577L);
}

int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"tuples", tuples}, {"texts", texts}, {"queries", queries}, {"kinds", kinds}});
}

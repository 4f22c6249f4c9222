// Numbers read from a stream are stored by the standard library, out of sight of the race detection.  With this locale they
// are stored by code of the harness, which is instrumented.
#ifndef VERIF_SEEN_INPUT_HPP
#define VERIF_SEEN_INPUT_HPP
#include <ios>
#include <iterator>
#include <locale>
struct SeenInput : std::num_get<char> {
    using It = std::istreambuf_iterator<char>;
    template <typename T>
    It seen(It b, It e, std::ios_base& s, std::ios_base::iostate& err, T& v) const
    {
        T x;
        b = std::num_get<char>::do_get(b, e, s, err, x);
        v = x;
        return b;
    }
    It do_get(It b, It e, std::ios_base& s, std::ios_base::iostate& err, bool& v) const override { return seen(b, e, s, err, v); }
    It do_get(It b, It e, std::ios_base& s, std::ios_base::iostate& err, long& v) const override { return seen(b, e, s, err, v); }
    It do_get(It b, It e, std::ios_base& s, std::ios_base::iostate& err, long long& v) const override { return seen(b, e, s, err, v); }
    It do_get(It b, It e, std::ios_base& s, std::ios_base::iostate& err, unsigned short& v) const override { return seen(b, e, s, err, v); }
    It do_get(It b, It e, std::ios_base& s, std::ios_base::iostate& err, unsigned& v) const override { return seen(b, e, s, err, v); }
    It do_get(It b, It e, std::ios_base& s, std::ios_base::iostate& err, unsigned long& v) const override { return seen(b, e, s, err, v); }
    It do_get(It b, It e, std::ios_base& s, std::ios_base::iostate& err, unsigned long long& v) const override { return seen(b, e, s, err, v); }
    It do_get(It b, It e, std::ios_base& s, std::ios_base::iostate& err, float& v) const override { return seen(b, e, s, err, v); }
    It do_get(It b, It e, std::ios_base& s, std::ios_base::iostate& err, double& v) const override { return seen(b, e, s, err, v); }
    It do_get(It b, It e, std::ios_base& s, std::ios_base::iostate& err, long double& v) const override { return seen(b, e, s, err, v); }
    static void use() { std::locale::global(std::locale(std::locale::classic(), new SeenInput)); }
};
#endif

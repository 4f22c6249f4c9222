// C32: reading lines.
#include "mc.hpp"
#include "ieompp/io/line.hpp"

// reference: position after the line starting at p, and the line
struct Ref {
    const std::string& s;
    std::size_t p = 0;
    static bool skip(const std::string& l)
    {
        for(unsigned char c : l) {
            if(c == ' ' || (c >= 9 && c <= 13)) continue;
            return c == '#';
        }
        return true;
    }
    std::string next()
    {
        while(p < s.size()) {
            const auto e  = s.find('\n', p);
            const auto l  = (e == std::string::npos) ? s.substr(p) : s.substr(p, e - p);
            p             = (e == std::string::npos) ? s.size() : e + 1;
            if(!skip(l)) return l;
        }
        return "";
    }
};
std::string show(const std::string& s)
{
    std::string r = mc::str(s.size(), ":\"");
    for(unsigned char c : s.substr(0, 60)) {
        if(c < 32 || c > 126)
            r += mc::str("\\x", int(c));
        else
            r += char(c);
    }
    return r + '"';
}
void one(const std::string& t)
{
    MC_CASE("text ", show(t))
    {
        mc::distinct(mc::hash_str(t));
        std::istringstream in(t);
        Ref ref{t};
        MC_CHECK(ieompp::io::is_skippable_line(t) == Ref::skip(t), "is_skippable_line gives ", ieompp::io::is_skippable_line(t));
        // lines, three reads beyond the end
        int beyond = 0;
        for(std::size_t n = 0; n < t.size() + 4 && beyond < 3; ++n) {
            if(ref.p >= t.size()) ++beyond;
            const auto e = ref.next();
            const auto l = ieompp::io::next_line(in);
            MC_CHECK(l == e, "read ", n, " gives ", show(l), " instead of ", show(e));
            const auto pos = in.rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in);
            MC_CHECK(pos == std::streamoff(ref.p), "after read ", n, " the stream is at ", pos, " instead of ", ref.p);
            MC_COUNT("reads", 1);
        }
        // what is left can be read by anybody
        std::istringstream two(t);
        Ref r2{t};
        r2.next();
        ieompp::io::next_line(two);
        std::ostringstream rest;
        if(two.good()) rest << two.rdbuf();
        MC_CHECK(rest.str() == t.substr(r2.p), "after one line the rest is ", show(rest.str()));
    }
}
void enumerate(const std::string& alphabet, std::size_t max_len)
{
    for(std::size_t len = 0; len <= max_len; ++len) {
        std::vector<std::size_t> w(len, 0);
        std::string t(len, alphabet[0]);
        for(;;) {
            one(t);
            std::size_t i = len;
            while(i > 0) {
                if(++w[i - 1] < alphabet.size()) {
                    t[i - 1] = alphabet[w[i - 1]];
                    break;
                }
                w[--i] = 0;
                t[i]   = alphabet[0];
            }
            if(i == 0) break;
        }
    }
}
void part_texts() { enumerate(" #a\n", mc::pick(10, 11)); }
void part_blanks() { enumerate("\n\r\t\v\f #0", mc::pick(6, 7)); }
void part_bytes()
{
    // every byte, alone and in front of and behind others
    for(int c = 0; c < 256; ++c)
        for(const std::string f : {"", " ", "#", "a", "\n", " #", "\t "})
            for(const std::string b : {"", " ", "#", "a", "\n", "\n#\nx", "\r\n", "#\n"}) one(f + char(c) + b);
}
void part_long()
{
    for(std::size_t n : {100, 1000, 100000, 1000000})
        for(char c : {' ', '\t', 'x', '#', '\n'})
            for(const std::string f : {"", "#", "a", "1\t"})
                for(const std::string b : {"", "\n", "\n2\t3\n", "#", "z"}) one(f + std::string(n, c) + b);
    for(std::size_t n : {1, 2, 10, 1000}) {
        std::string t;
        for(std::size_t i = 0; i < n; ++i) t += "# header\n\n" + std::to_string(i) + "\t0.5\n  \t\n";
        for(std::size_t cut = 0; cut <= 20; ++cut) one(t.substr(0, t.size() - cut));
    }
}
int main(int argc, char** argv)
{
    return mc::run(argc, argv, {{"texts", part_texts}, {"blanks", part_blanks}, {"bytes", part_bytes}, {"long", part_long}});
}

// Reads the commutators a program prints and evaluates them in Fock space for every way its symbols can
// coincide.
#ifndef VERIF_COMM_CHECK_HPP
#define VERIF_COMM_CHECK_HPP
#include "prog.hpp"
#include "fock.hpp"

#include <algorithm>
#include <set>

namespace comm
{
    struct Op {
        bool creator;
        std::string index;
        bool up;
    };
    struct Term {
        double prefactor = 1;
        std::vector<std::pair<std::string, std::string>> deltas;
        std::vector<Op> ops;
    };
    using Sum = std::vector<Term>;

    const std::string DELTA = "\xce\xb4_{", DOT = "\xe2\x8b\x85", DAGGER = "\xe2\x80\xa0", UP = "\xe2\x86\x91", DOWN = "\xe2\x86\x93";

    inline bool eat(const std::string& s, std::size_t& p, const std::string& t)
    {
        if(s.compare(p, t.size(), t)) return false;
        p += t.size();
        return true;
    }
    inline bool pair_of(const std::string& s, std::size_t& p, std::pair<std::string, std::string>& r)
    {
        const auto end = s.find('}', p), comma = s.find(',', p);
        if(end == std::string::npos || comma == std::string::npos || comma > end) return false;
        r = {s.substr(p, comma - p), s.substr(comma + 1, end - comma - 1)};
        p = end + 1;
        return true;
    }
    // [-][number][ deltas] dot operators
    inline bool parse(const std::string& s, Term& t)
    {
        std::size_t p = 0;
        auto blanks = [&] { while(p < s.size() && s[p] == ' ') ++p; };
        blanks();
        if(eat(s, p, "-")) t.prefactor = -1;
        blanks();
        if(p < s.size() && (std::isdigit((unsigned char)s[p]) || s[p] == '.')) {
            char* end = nullptr;
            t.prefactor *= std::strtod(s.c_str() + p, &end);
            p = end - s.c_str();
        }
        blanks();
        while(eat(s, p, DELTA)) {
            t.deltas.emplace_back();
            if(!pair_of(s, p, t.deltas.back())) return false;
            blanks();
        }
        if(eat(s, p, DOT)) blanks();
        while(p < s.size()) {
            Op o;
            if(!eat(s, p, "c")) return false;
            o.creator = eat(s, p, "^" + DAGGER);
            std::pair<std::string, std::string> i;
            if(!eat(s, p, "_{") || !pair_of(s, p, i)) return false;
            o.index = i.first;
            if(i.second != UP && i.second != DOWN) return false;
            o.up = i.second == UP;
            t.ops.push_back(o);
            blanks();
        }
        return true;
    }
    inline std::string show(const Sum& s)
    {
        std::string r;
        for(auto& t : s) {
            r += mc::str(r.empty() ? "" : " + ", t.prefactor);
            for(auto& d : t.deltas) r += " d(" + d.first + "," + d.second + ")";
            for(auto& o : t.ops) r += std::string(" c") + (o.creator ? "+" : "") + "(" + o.index + (o.up ? ",up)" : ",down)");
        }
        return r;
    }

    using Assignment = std::map<std::string, int>;
    using Vector     = std::map<uint32_t, double>;
    inline void apply(const Sum& s, const Assignment& a, const Vector& in, Vector& out, double factor)
    {
        for(auto& t : s) {
            bool zero = false;
            for(auto& d : t.deltas) zero = zero || a.at(d.first) != a.at(d.second);
            if(zero) continue;
            fock::Word w;
            for(auto& o : t.ops) w.push_back({o.creator, 2 * a.at(o.index) + (o.up ? 1 : 0)});
            for(auto& x : in) {
                uint32_t st = x.first;
                const int sign = fock::apply(w, st);
                if(sign) out[st] += factor * t.prefactor * sign * x.second;
            }
        }
    }
    inline void prune(Vector& v)
    {
        for(auto i = v.begin(); i != v.end();)
            if(i->second == 0) i = v.erase(i);
            else ++i;
    }
    inline void symbols(const Sum& s, std::set<std::string>& r)
    {
        for(auto& t : s) {
            for(auto& d : t.deltas) {
                r.insert(d.first);
                r.insert(d.second);
            }
            for(auto& o : t.ops) r.insert(o.index);
        }
    }

    // every way the symbols can coincide
    template <typename F>
    void partitions(const std::vector<std::string>& s, std::size_t i, int blocks, Assignment& a, F f)
    {
        if(i == s.size()) {
            f(a, blocks);
            return;
        }
        for(int b = 0; b <= blocks; ++b) {
            a[s[i]] = b;
            partitions(s, i + 1, std::max(blocks, b + 1), a, f);
        }
    }

    // printed = [h, t] for all of them; a printed operand: compare printed with t alone (h empty)
    inline void compare(const std::string& what, const Sum& printed, const Sum& h, const Sum& t, bool operand)
    {
        std::set<std::string> known, all;
        symbols(h, known);
        symbols(t, known);
        all = known;
        symbols(printed, all);
        MC_CASE(what, " symbols of ", show(printed))
        {
            mc::distinct(mc::hash_str(what));
            MC_CHECK(all == known, "other symbols than those of the operands in ", show(printed));
        }
        Assignment a;
        partitions(std::vector<std::string>(all.begin(), all.end()), 0, 0, a, [&](const Assignment& as, int blocks) {
            std::string text;
            for(auto& x : as) text += mc::str(' ', x.first, '=', x.second);
            MC_CASE(what, " with", text)
            {
                mc::distinct(mc::hash_str(what + text));
                const uint32_t dim = uint32_t(1) << (2 * blocks);
                for(uint32_t st = 0; st < dim; ++st) {
                    Vector want, got, x, in{{st, 1.}};
                    if(operand) {
                        apply(t, as, in, want, 1);
                    } else {
                        apply(t, as, in, x, 1);
                        apply(h, as, x, want, 1);
                        x.clear();
                        apply(h, as, in, x, 1);
                        apply(t, as, x, want, -1);
                    }
                    apply(printed, as, in, got, 1);
                    prune(want);
                    prune(got);
                    if(!(got == want)) {
                        MC_CHECK(false, what, ": ", show(printed), " is not the commutator on state ", st);
                        break;
                    }
                }
                MC_COUNT("states", dim);
                MC_COUNT("transitions", dim * (h.size() * t.size() * 2 + printed.size()));
                MC_COUNT("traces", 1);
            }
        });
    }

    inline std::vector<std::string> output()
    {
        std::ostringstream os;
        auto* old = std::cout.rdbuf(os.rdbuf());
        const int rc = prog::run();
        std::cout.rdbuf(old);
        std::vector<std::string> lines;
        std::istringstream is(os.str());
        std::string l;
        while(std::getline(is, l)) lines.push_back(l);
        MC_CASE("the program's exit status") { MC_CHECK(rc == 0, "the program returns ", rc); }
        return lines;
    }
    // runs of lines that start with two tabs
    inline std::vector<std::vector<std::string>> blocks(const std::vector<std::string>& lines)
    {
        std::vector<std::vector<std::string>> r;
        bool in = false;
        for(auto& l : lines) {
            const bool is = l.compare(0, 2, "\t\t") == 0;
            if(is && !in) r.emplace_back();
            if(is) r.back().push_back(l.substr(2));
            in = is;
        }
        return r;
    }
    // the innermost headings over each of these runs: the last lines with no and with one tab before it
    inline std::vector<std::string> headings(const std::vector<std::string>& lines)
    {
        std::vector<std::string> r;
        std::string outer, inner;
        bool in = false;
        for(auto& l : lines) {
            const bool is = l.compare(0, 2, "\t\t") == 0;
            if(is && !in) r.push_back(outer + " " + inner);
            in = is;
            if(is || l.find_first_not_of(" \t") == std::string::npos) continue;
            if(l[0] == '\t') {
                inner = l.substr(1);
            } else {
                outer = l;
                inner.clear();
            }
        }
        return r;
    }
    inline bool mentions(std::string text, const std::string& word)
    {
        std::transform(text.begin(), text.end(), text.begin(), [](unsigned char c) { return std::tolower(c); });
        return text.find(word) != std::string::npos;
    }
    // deltas with their symbols in order, the deltas of a term in order
    inline void ordered(const std::string& what, const Sum& s)
    {
        MC_CASE(what, ": order of the deltas")
        {
            mc::distinct(mc::hash_str(what + " deltas"));
            for(auto& t : s) {
                for(auto& d : t.deltas) MC_CHECK(!(d.second < d.first), what, ": delta of ", d.first, " and ", d.second, " is not ordered");
                MC_CHECK(std::is_sorted(t.deltas.begin(), t.deltas.end()), what, ": the deltas of a term are not ordered");
                MC_COUNT("states", 1);
            }
        }
    }
    inline Sum parse_all(const std::vector<std::string>& lines)
    {
        Sum s;
        for(auto& l : lines) {
            s.emplace_back();
            MC_CHECK(parse(l, s.back()), "not a term: ", l);
        }
        return s;
    }
    inline Sum parse_some(const std::vector<std::string>& lines)
    {
        Sum s;
        for(auto& l : lines) {
            s.emplace_back();
            parse(l, s.back());
        }
        return s;
    }
} // namespace comm
#endif

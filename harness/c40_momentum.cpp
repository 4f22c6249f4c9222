// C40: the program printing commutators in momentum space.
#include "comm_check.hpp"
#include "src/hubbard/hubbard_commutators_momentum_space.cpp"

using comm::Sum;

const Sum kinetic{{1, {}, {{true, "k", true}, {false, "k", true}}}, {1, {}, {{true, "k", false}, {false, "k", false}}}};
const Sum interaction{{1, {}, {{true, "k_1", true}, {false, "k_2", true}, {true, "k_3", false}, {false, "k_4", false}}}};
const Sum one{{1, {}, {{true, "q", true}}}};
const Sum three{{1, {}, {{true, "q_1", true}, {true, "q_2", false}, {false, "q_3", false}}}};

void all()
{
    const auto lines = comm::output();
    const auto b = comm::blocks(lines);
    // headings: [ h + h'  ,  t ]=
    std::vector<std::pair<std::vector<std::string>, std::vector<std::string>>> heads;
    for(auto& l : lines) {
        const auto open = l.find("[ "), sep = l.find("  ,  "), close = l.rfind(" ]");
        if(l.compare(0, 2, "\t\t") == 0 || open == std::string::npos || sep == std::string::npos || close == std::string::npos) continue;
        heads.emplace_back();
        std::string h = l.substr(open + 2, sep - open - 2);
        for(std::size_t p; (p = h.find(" + ")) != std::string::npos; h = h.substr(p + 3)) heads.back().first.push_back(h.substr(0, p));
        heads.back().first.push_back(h);
        heads.back().second.push_back(l.substr(sep + 5, close - sep - 5));
    }
    MC_CASE("the program's output")
    {
        MC_CHECK(b.size() == 4 && heads.size() == 4, b.size(), " commutators are printed, ", heads.size(), " headings");
        for(auto& x : b) comm::parse_all(x);
        for(auto& x : heads) {
            comm::parse_all(x.first);
            comm::parse_all(x.second);
        }
    }
    if(b.size() != 4 || heads.size() != 4) return;
    const Sum *h[] = {&kinetic, &interaction, &kinetic, &interaction}, *t[] = {&one, &one, &three, &three};
    for(int i = 0; i < 4; ++i) {
        const std::string what = mc::str("commutator ", i);
        comm::ordered(what, comm::parse_some(b[i]));
        MC_CASE(what, " section") { MC_CHECK(comm::mentions(comm::headings(lines)[i], i < 2 ? "one operator" : "three operators"), what, " stands in another section"); }
        comm::compare(what, comm::parse_some(b[i]), *h[i], *t[i], false);
        comm::compare(what + " left operand", comm::parse_some(heads[i].first), {}, *h[i], true);
        comm::compare(what + " right operand", comm::parse_some(heads[i].second), {}, *t[i], true);
    }
}

int prog::explorer(int argc, char** argv)
{
    return mc::run(argc, argv, {{"all", all}});
}

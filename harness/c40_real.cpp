// C40: the program printing commutators in real space.
#include "comm_check.hpp"
#include "src/hubbard/hubbard_commutators_real_space.cpp"

using comm::Op;
using comm::Sum;

const std::string R = "r_i", D = "r_i+\xce\xb4_j", RHO = "\xcf\x81";
const Sum kinetic{{1, {}, {{true, R, true}, {false, D, true}}}, {1, {}, {{true, D, true}, {false, R, true}}},
                  {1, {}, {{true, R, false}, {false, D, false}}}, {1, {}, {{true, D, false}, {false, R, false}}}};
const Sum interaction{{1, {}, {{true, R, true}, {false, R, true}, {true, R, false}, {false, R, false}}}};
const Sum one{{1, {}, {{true, RHO, true}}}};
const Sum three{{1, {}, {{true, RHO + "_1", true}, {true, RHO + "_2", false}, {false, RHO + "_3", false}}}};

void commutators()
{
    const auto lines = comm::output();
    const auto b = comm::blocks(lines);
    MC_CASE("the program's output")
    {
        MC_CHECK(b.size() == 4, b.size(), " commutators are printed");
        for(auto& x : b) comm::parse_all(x);
    }
    if(b.size() != 4) return;
    const auto heads = comm::headings(lines);
    const char *outer[] = {"one operator", "one operator", "three operators", "three operators"}, *inner[] = {"kinetic", "interaction", "kinetic", "interaction"};
    const Sum *h[] = {&kinetic, &interaction, &kinetic, &interaction}, *t[] = {&one, &one, &three, &three};
    for(int i = 0; i < 4; ++i) {
        const std::string what = mc::str(outer[i], ", ", inner[i]);
        MC_CASE(what, " heading")
        {
            MC_CHECK(comm::mentions(heads[i], outer[i]) && comm::mentions(heads[i], inner[i]), what, " is printed under \"", heads[i], "\"");
        }
        const auto printed = comm::parse_some(b[i]);
        comm::ordered(what, printed);
        comm::compare(what, printed, *h[i], *t[i], false);
    }
}
// the Hamiltonian is printed before the commutators
void hamiltonian()
{
    std::vector<std::vector<std::string>> groups;
    std::vector<std::string> heads;
    bool in = false;
    for(auto& l : comm::output()) {
        if(l.compare(0, 3, "One") == 0) break;
        if(!l.empty() && l[0] != '\t') heads.push_back(l);
        const bool is = l.size() > 1 && l[0] == '\t';
        if(is && !in) groups.emplace_back();
        if(is) groups.back().push_back(l.substr(1));
        in = is;
    }
    MC_CASE("the Hamiltonian")
    {
        MC_CHECK(groups.size() == 2, groups.size(), " parts of the Hamiltonian are printed");
        for(auto& x : groups) comm::parse_all(x);
        MC_CHECK(heads.size() == 2 && comm::mentions(heads[0], "kinetic") && comm::mentions(heads[1], "interaction"), "other headings over the Hamiltonian's parts");
    }
    if(groups.size() != 2) return;
    comm::compare("kinetic terms", comm::parse_some(groups[0]), {}, kinetic, true);
    comm::compare("interaction terms", comm::parse_some(groups[1]), {}, interaction, true);
}

int prog::explorer(int argc, char** argv)
{
    return mc::run(argc, argv, {{"commutators", commutators}, {"hamiltonian", hamiltonian}});
}

// Models of Hubbard basis elements: sequences of (creator, site or momentum index, spin).
#ifndef VERIF_BASIS_UTIL_HPP
#define VERIF_BASIS_UTIL_HPP
#include "mc.hpp"

#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/algebra/operator/io.hpp"
#include "ieompp/types/blaze.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"

#include <deque>

namespace bas
{
    struct Op {
        bool creator;
        uint64_t index;
        bool up;
        bool operator==(const Op& o) const { return creator == o.creator && index == o.index && up == o.up; }
    };
    using Word = std::vector<Op>;
    inline std::ostream& operator<<(std::ostream& s, const Op& o)
    {
        return s << (o.creator ? "c+" : "c") << o.index << (o.up ? "u" : "d");
    }
    template <typename M>
    Word word(const M& m)
    {
        Word w;
        for(auto& o : m) w.push_back({o.creator, uint64_t(o.index1), o.index2});
        return w;
    }
    inline Word dagger(const Word& w)
    {
        Word r;
        for(std::size_t i = w.size(); i-- > 0;) r.push_back({!w[i].creator, w[i].index, w[i].up});
        return r;
    }
    using Operator = ieompp::algebra::Operator<uint64_t, bool>;
    using Monomial = ieompp::algebra::Monomial<Operator>;
} // namespace bas
#endif

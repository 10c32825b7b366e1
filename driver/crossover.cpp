// Driver translation unit: only instantiates the real templates of /repo so that clang's AST holds their bodies.
#include "crossover/crossover_impl.hpp"
namespace gapp::crossover::dtl
{
    using G = unsigned long;
    template CandidatePair<G> nPointCrossoverImpl<G>(const Candidate<G>&, const Candidate<G>&, small_vector<size_t>);
    template CandidatePair<G> singlePointCrossoverImpl<G>(const Candidate<G>&, const Candidate<G>&, size_t);
    template CandidatePair<G> twoPointCrossoverImpl<G>(const Candidate<G>&, const Candidate<G>&, std::pair<size_t, size_t>);
    template bool isValidIntegerPermutation<G>(const Chromosome<G>&);
    template Candidate<G> order1CrossoverImpl<G>(const Candidate<G>&, const Candidate<G>&, size_t, size_t);
    template Candidate<G> order2CrossoverImpl<G>(const Candidate<G>&, const Candidate<G>&, size_t, size_t);
    template Candidate<G> positionCrossoverImpl<G>(const Candidate<G>&, const Candidate<G>&, std::span<const size_t>);
    template std::vector<size_t> findOddCycleIndices<G>(const Chromosome<G>&, const Chromosome<G>&);
    template CandidatePair<G> cycleCrossoverImpl<G>(const Candidate<G>&, const Candidate<G>&);
    template Candidate<G> edgeCrossoverImpl<G>(const Candidate<G>&, const Candidate<G>&);
    template Candidate<G> pmxCrossoverImpl<G>(const Candidate<G>&, const Candidate<G>&, size_t, size_t);
    template NeighbourLists<G> makeNeighbourLists<G>(const Chromosome<G>&, const Chromosome<G>&);
    template class NeighbourList<G>;
}

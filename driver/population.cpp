// Driver: the real population functions (population.cpp is included so that its functions are in the same translation unit).
#include "core/population.cpp"
#include "encoding/gene_types.hpp"
namespace verif
{
    inline void use(gapp::Candidates<double> a, const gapp::Population<double>& p)
    {
        (void)gapp::detail::mergeParetoSets<double>(a, a);
        (void)gapp::detail::findParetoFront<double>(p);
        (void)gapp::detail::toFitnessMatrix<double>(p);
    }
}

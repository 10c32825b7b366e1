// Driver: the real single-objective selection and replacement sources.
#include "algorithm/soga_replacement.cpp"
#include "algorithm/soga_selection.cpp"
#include "algorithm/single_objective.cpp"
#include "core/ga_base.hpp"
#include "encoding/gene_types.hpp"
namespace verif
{
    inline void use(gapp::algorithm::Algorithm& a, const gapp::GA<double>& ga, gapp::Population<double> p, const gapp::FitnessMatrix& f)
    {
        (void)a.nextPopulation<double>(ga, p, p);
        (void)a.optimalSolutions<double>(ga, p);
        (void)a.select<double>(ga, p, f);
    }
}

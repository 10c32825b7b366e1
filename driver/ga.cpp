// Driver: the genetic algorithm class and the operator wrappers for one gene type.
#include "gapp.hpp"
namespace gapp { template class GA<IntegerGene>; }
namespace gapp::mutation { template class Mutation<IntegerGene>; }
namespace gapp::crossover { template class Crossover<IntegerGene>; }

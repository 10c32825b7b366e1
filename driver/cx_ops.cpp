// Driver translation unit: the real operator sources plus instantiations of the templates they use.
#include "crossover/binary.cpp"
#include "crossover/integer.cpp"

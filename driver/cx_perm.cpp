// Driver: the real operator sources.
#include "crossover/permutation.cpp"

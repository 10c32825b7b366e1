// Driver: the real operator sources.
#include "crossover/real.cpp"

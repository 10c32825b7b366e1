// Driver: the real multi-objective algorithm sources.
#include "algorithm/nsga2.cpp"
#include "algorithm/nsga3.cpp"

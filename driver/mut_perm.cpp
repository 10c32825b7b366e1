// Driver: the real operator sources.
#include "mutation/permutation.cpp"

#include "algorithm/nd_sort.cpp"

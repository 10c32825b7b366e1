// Driver: the real operator sources.
#include "mutation/real.cpp"

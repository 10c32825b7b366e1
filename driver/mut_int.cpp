// Driver: the real operator sources.
#include "mutation/integer.cpp"

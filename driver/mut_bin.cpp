// Driver: the real operator sources.
#include "mutation/binary.cpp"

// Driver: the real encoding sources.
#include "gapp.hpp"
#include "encoding/binary.cpp"
#include "encoding/integer.cpp"
#include "encoding/permutation.cpp"
#include "encoding/real.cpp"

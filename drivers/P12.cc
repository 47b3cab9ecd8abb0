// Translation unit of the contracts of P12: the real source, nothing added.
#include "split.cc"

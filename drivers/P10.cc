// Translation unit of the P10 contracts: the real source, with the parsing constructors instantiated.
#include <scribbu/framesv2.cc>
template scribbu::play_count::play_count(const unsigned char*, const unsigned char*);
template scribbu::popularimeter::popularimeter(const unsigned char*, const unsigned char*);

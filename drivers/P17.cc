// Translation unit of the P17 contracts: the real sources.
#include <scribbu/id3v2.cc>
#include <scribbu/framesv2.cc>
#include <scribbu/framesv22.cc>
#include <scribbu/framesv23.cc>
#include <scribbu/framesv24.cc>

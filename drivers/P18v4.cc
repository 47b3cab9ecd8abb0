// Translation unit of the P18 contracts for ID3v2.4: the real sources.
#include <scribbu/id3v2.cc>
#include <scribbu/framesv2.cc>
#include <scribbu/id3v24.cc>

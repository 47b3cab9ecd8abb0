// Translation unit of the P21 contracts: the real sources, with the parsing constructor instantiated.
#include <scribbu/framesv2.cc>

typedef const unsigned char *it;
template scribbu::tag_cloud::tag_cloud(it, it);

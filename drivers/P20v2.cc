// Translation unit of the P20 contracts for ID3v2.2: the real sources.
#include <scribbu/id3v2.cc>
#include <scribbu/framesv2.cc>
#include <scribbu/id3v22.cc>
// the lookups of one kind, with one kind of output iterator
template scribbu::COM* scribbu::id3v2_2_tag::get_comments<scribbu::COM*>(scribbu::COM*) const;
template scribbu::CNT* scribbu::id3v2_2_tag::get_play_counts<scribbu::CNT*>(scribbu::CNT*) const;
template scribbu::POP* scribbu::id3v2_2_tag::get_popularimeters<scribbu::POP*>(scribbu::POP*) const;
// the positions
static void positions(scribbu::id3v2_2_tag::iterator p, scribbu::id3v2_2_tag::const_iterator q)
{
  ++p; p++; --p; p--; p += 1; p -= 1; p + 1; p - 1; *p; p.operator->(); p[1]; p.index(); p - p; p == p; p != p; p < p;
  ++q; q++; --q; q--; q += 1; q -= 1; q + 1; q - 1; *q; q.operator->(); q.index(); q - q;
}

// Translation unit of the P20 contracts for ID3v2.3: the real sources.
#include <scribbu/id3v2.cc>
#include <scribbu/framesv2.cc>
#include <scribbu/id3v23.cc>
// the lookups of one kind, with one kind of output iterator
template scribbu::COMM* scribbu::id3v2_3_tag::get_comments<scribbu::COMM*>(scribbu::COMM*) const;
template scribbu::PCNT* scribbu::id3v2_3_tag::get_play_counts<scribbu::PCNT*>(scribbu::PCNT*) const;
template scribbu::POPM* scribbu::id3v2_3_tag::get_popularimeters<scribbu::POPM*>(scribbu::POPM*) const;
// the positions
static void positions(scribbu::id3v2_3_tag::iterator p, scribbu::id3v2_3_tag::const_iterator q)
{
  ++p; p++; --p; p--; p += 1; p -= 1; p + 1; p - 1; *p; p.operator->(); p[1]; p.index(); p - p; p == p; p != p; p < p;
  ++q; q++; --q; q--; q += 1; q -= 1; q + 1; q - 1; *q; q.operator->(); q.index(); q - q;
}

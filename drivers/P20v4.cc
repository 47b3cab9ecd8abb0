// Translation unit of the P20 contracts for ID3v2.4: the real sources.
#include <scribbu/id3v2.cc>
#include <scribbu/framesv2.cc>
#include <scribbu/id3v24.cc>
// the lookups of one kind, with one kind of output iterator
template scribbu::COMM_2_4* scribbu::id3v2_4_tag::get_comments<scribbu::COMM_2_4*>(scribbu::COMM_2_4*) const;
template scribbu::PCNT_2_4* scribbu::id3v2_4_tag::get_play_counts<scribbu::PCNT_2_4*>(scribbu::PCNT_2_4*) const;
template scribbu::POPM_2_4* scribbu::id3v2_4_tag::get_popularimeters<scribbu::POPM_2_4*>(scribbu::POPM_2_4*) const;
// the positions
static void positions(scribbu::id3v2_4_tag::iterator p, scribbu::id3v2_4_tag::const_iterator q)
{
  ++p; p++; --p; p--; p += 1; p -= 1; p + 1; p - 1; *p; p.operator->(); p[1]; p.index(); p - p; p == p; p != p; p < p;
  ++q; q++; --q; q--; q += 1; q -= 1; q + 1; q - 1; *q; q.operator->(); q.index(); q - q;
}

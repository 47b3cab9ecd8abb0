// Translation unit of the contracts of P11: the real header, its templates instantiated.
#include <algorithm>
#include <tuple>
#include <vector>
#include <scribbu/scribbu.hh>
#include <scribbu/tagset.hh>
#include <scribbu/id3v2-utils.hh>
#include <scribbu/id3v22.hh>
#include <scribbu/id3v23.hh>
#include <scribbu/id3v24.hh>

typedef std::vector<scribbu::id3v2_tag*>::iterator tag_iterator;
template void scribbu::adjust_padding_to<tag_iterator>(tag_iterator, tag_iterator, std::size_t, std::size_t, scribbu::padding_strategy);
template std::tuple<std::size_t, std::size_t> scribbu::tagset_sizes<tag_iterator>(tag_iterator, tag_iterator, scribbu::apply_unsync);
template std::tuple<std::size_t, std::size_t> scribbu::total_id3v2_size<tag_iterator>(tag_iterator, tag_iterator, bool);

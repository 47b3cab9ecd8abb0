// Instantiations of the unsynchronisation templates with the types the library uses.
#include <iterator>
#include <vector>
#include <scribbu/framesv2.cc>

template std::size_t
scribbu::detail::count_syncs<std::vector<unsigned char>::const_iterator>(
  std::vector<unsigned char>::const_iterator, std::vector<unsigned char>::const_iterator, bool);

template std::size_t
scribbu::detail::count_syncs<const char*>(const char*, const char*, bool);

template std::size_t
scribbu::detail::unsynchronise<std::back_insert_iterator<std::vector<unsigned char>>, std::vector<unsigned char>::const_iterator>(
  std::back_insert_iterator<std::vector<unsigned char>>, std::vector<unsigned char>::const_iterator,
  std::vector<unsigned char>::const_iterator, bool);

// Translation unit of the P16 contracts: the real sources, with the parsing constructors instantiated.
#include <scribbu/framesv2.cc>
#include <scribbu/framesv22.cc>
#include <scribbu/framesv23.cc>
#include <scribbu/framesv24.cc>

typedef const unsigned char *it;
using scribbu::id3v2_version;
template it scribbu::detail::find_trailing_null<it>(std::size_t, it, it);
template scribbu::unique_file_id::unique_file_id(it, it);
template scribbu::encryption_method::encryption_method(it, it);
template scribbu::user_defined_text::user_defined_text(id3v2_version, it, it);
template scribbu::comments::comments(id3v2_version, it, it);
template scribbu::play_count::play_count(it, it);
template scribbu::popularimeter::popularimeter(it, it);
template scribbu::private_frame::private_frame(it, it);
template scribbu::unknown_id3v2_2_frame::unknown_id3v2_2_frame(const scribbu::frame_id3&, it, it);
template scribbu::id3v2_2_text_frame::id3v2_2_text_frame(const scribbu::frame_id3&, it, it);
typedef boost::optional<unsigned char> oid;
typedef boost::optional<std::size_t> osz;
typedef scribbu::id3v2_3_plus_frame plus;
template scribbu::unknown_id3v2_3_frame::unknown_id3v2_3_frame(const scribbu::frame_id4&, plus::tag_alter_preservation, plus::file_alter_preservation, plus::read_only, const oid&, const oid&, const osz&, it, it);
template scribbu::id3v2_3_text_frame::id3v2_3_text_frame(const scribbu::frame_id4&, it, it, plus::tag_alter_preservation, plus::file_alter_preservation, plus::read_only, const oid&, const oid&, const osz&);
template scribbu::unknown_id3v2_4_frame::unknown_id3v2_4_frame(const scribbu::frame_id4&, plus::tag_alter_preservation, plus::file_alter_preservation, plus::read_only, const oid&, const oid&, bool, bool, const osz&, it, it);
template scribbu::id3v2_4_text_frame::id3v2_4_text_frame(const scribbu::frame_id4&, it, it, plus::tag_alter_preservation, plus::file_alter_preservation, plus::read_only, const oid&, const oid&, bool, bool, const osz&);

// P04: ID3v1 location and audio boundary
#include "harness.hh"
#include "streams.hh"
#include <scribbu/id3v1.hh>
#include <scribbu/scribbu.hh>

// input: function (1 query, 2 boundary, 3 both), exception mask, position (2 bytes), content
std::string check(const bytes &in)
{
  if (in.size() < 4) return "";
  std::ios_base::iostate mask = mask_of(in[1]);
  std::string data(in.begin() + 4, in.end());
  std::size_t n = data.size(), pos = std::min<std::size_t>(in[2] + 256 * in[3], n);
  bool ext = n >= 355 && 0 == data.compare(n - 355, 4, "TAG+");
  bool std_ = !ext && n >= 128 && 0 == data.compare(n - 128, 3, "TAG");
  std::streamoff start = ext ? n - 355 : std_ ? n - 128 : n;
  for (int kind = 0; kind < 2; ++kind) {
    if (in[0] & 1) {
      any_stream S(kind, data); std::istream &is = S.get();
      is.seekg(pos); is.exceptions(mask);
      scribbu::id3v1_info I = scribbu::ends_in_id3v1(is);
      auto want = ext ? scribbu::id3_v1_tag_type::v_1_extended : std_ ? scribbu::id3_v1_tag_type::v_1 : scribbu::id3_v1_tag_type::none;
      if (I.type_ != want) return "wrong tag type";
      if (I.start_ != start || I.end_ != (std::streamoff)n) return "wrong tag boundaries";
      if (is.exceptions() != mask) return "tag query: exception mask not restored";
      if (!is.good()) return "tag query: stream state changed";
      if (is.tellg() != (std::streamoff)pos) return "tag query: read position not restored";
    }
    if (in[0] & 2) {
      any_stream S(kind, data); std::istream &is = S.get();
      is.seekg(pos); is.exceptions(mask);
      std::streampos a, b;
      std::tie(a, b) = scribbu::find_id3v1_tag(is);
      if (a != (std::streamoff)pos) return "audio start is not the read position";
      if (b != start) { std::ostringstream m; m << "audio end is " << b << ", expected " << start; return m.str(); }
      if (is.exceptions() != mask) return "boundary: exception mask not restored";
      if (!is.good()) return "boundary: stream not usable";
    }
  }
  return "";
}
static bytes make(int fn, int mask, int pos, const std::string &s)
{
  bytes b = { (std::uint8_t)fn, (std::uint8_t)mask, (std::uint8_t)pos, (std::uint8_t)(pos >> 8) };
  b.insert(b.end(), s.begin(), s.end());
  return b;
}
static std::string content(std::size_t n, int what)
{
  std::string s(n, '.');
  if ((what & 1) && n >= 128) s.replace(n - 128, 3, "TAG");
  if ((what & 2) && n >= 355) s.replace(n - 355, 4, "TAG+");
  if ((what & 4) && n >= 355) s.replace(n - 355, 4, "TAG-");
  if ((what & 8) && n >= 128) s.replace(n - 128, 3, "TAX");
  if ((what & 16) && n >= 227) s.replace(n - 227, 4, "TAG+");
  return s;
}
void directed(const std::function<bool(const bytes&)> &f)
{
  for (int n : { 0, 1, 2, 3, 4, 127, 128, 129, 130, 131, 226, 227, 228, 354, 355, 356, 358, 359, 400, 1000 })
    for (int what = 0; what < 32; ++what)
      for (int mask = 0; mask < 8; ++mask)
        for (int pos : { 0, 1, 130, 400, n })
          f(make(3, mask, pos, content(n, what)));
}
bytes random_input(rng_t &r)
{
  std::size_t n = r() % 3 ? r() % 600 : 100 + r() % 60;
  std::string s = content(n, r() % 32);
  for (int k = r() % 4; k > 0 && n; --k) s[r() % n] = "TAG+"[r() % 4];
  return make(3, r() % 8, r() % (n + 1), s);
}
bool nontrivial(const bytes &in) { return in.size() >= 4 + 128; }

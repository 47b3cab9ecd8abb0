// P05: an ID3v1 tag read and written back is the same bytes
#include "harness.hh"
#include "streams.hh"
#include <scribbu/id3v1.hh>
#include <iterator>

typedef std::vector<unsigned char> uc;
static std::string sub(const std::string &s, std::size_t a, std::size_t b) { return s.substr(a, b - a); }
template <class F> static std::string get(F f)
{
  uc v; f(std::back_inserter(v));
  return std::string(v.begin(), v.end());
}
static const std::ios_base::iostate masks[] = { std::ios_base::goodbit, std::ios_base::failbit | std::ios_base::badbit };
// input: constructor (1 stream only, 2 stream and kind), bytes before the block, block
std::string check(const bytes &in)
{
  using scribbu::id3v1_tag;
  if (in.size() < 2) return "";
  std::string b(in.begin() + 2, in.end()), before(in[1], '#');
  bool enh = b.size() == 355, std_ = b.size() == 128;
  bool two = in[0] == 2;
  if (two && !enh && !std_) {
    // cut short
    bool e = in[1] & 1;
    if (b.size() >= (e ? 355u : 128u)) return "";
    for (int kind = 0; kind < 2; ++kind)
      for (auto m : masks) {
        any_stream S(kind, before + b); std::istream &is = S.get();
        is.seekg(before.size()); is.exceptions(m);
        try { id3v1_tag t(is, e); return "a block cut short is accepted"; }
        catch (const id3v1_tag::invalid_tag&) { }
        if (is.exceptions() != m) return "exception mask changed";
        if (!is.good() || is.tellg() != std::streampos(before.size())) return "stream not as found after a refusal";
      }
    return "";
  }
  bool ok = enh ? (sub(b, 0, 4) == "TAG+" && sub(b, 227, 230) == "TAG") : std_ && sub(b, 0, 3) == "TAG";
  std::string data = before + b + (two && (in[1] & 1) ? "trailing" : "");
  std::size_t o = enh ? 227 : 0;
  for (int kind = 0; kind < 4; ++kind) {
    any_stream S(kind & 1, data); std::istream &is = S.get();
    auto mask = masks[(kind & 2) / 2];
    is.seekg(before.size());
    is.exceptions(mask);
    std::unique_ptr<id3v1_tag> p;
    try { p.reset(two ? new id3v1_tag(is, enh) : new id3v1_tag(is)); }
    catch (const id3v1_tag::invalid_tag&) {
      if (ok) return "a well-formed tag is refused";
      if (is.exceptions() != mask) return "exception mask changed";
      if (!is.good() || is.tellg() != std::streampos(before.size())) return "stream not as found after a refusal";
      continue;
    }
    if (is.exceptions() != mask) return "exception mask changed";
    if (!is.good() || is.tellg() != std::streampos(before.size() + b.size())) return "stream not left after the tag";
    if (!ok) return "a block that is not a tag is accepted";
    const id3v1_tag &t = *p;
    std::string x = enh ? b.substr(4) : std::string();
    auto ext = [&](int i, int j) { return enh ? sub(x, i, j) : std::string(); };
    bool v11 = b[o + 125] == 0 && b[o + 126] != 0;
    if (t.enhanced() != enh || t.extended() != enh || t.size() != b.size()) return "wrong kind or size";
    if (t.v1_1() != v11) return "wrong revision";
    if (get([&](auto q) { t.title(q); }) != sub(b, o + 3, o + 33) + ext(0, 60)) return "title";
    if (get([&](auto q) { t.artist(q); }) != sub(b, o + 33, o + 63) + ext(60, 120)) return "artist";
    if (get([&](auto q) { t.album(q); }) != sub(b, o + 63, o + 93) + ext(120, 180)) return "album";
    if (get([&](auto q) { t.year(q); }) != sub(b, o + 93, o + 97)) return "year";
    if (get([&](auto q) { t.comment(q); }) != sub(b, o + 97, v11 ? o + 125 : o + 127)) return "comment";
    if (t.track_number().first != v11 || (v11 && t.track_number().second != (unsigned char)b[o + 126])) return "track number";
    if (t.genre() != (unsigned char)b[o + 127]) return "genre";
    if (t.speed().first != enh) return "speed present";
    if (enh) {
      if (t.speed().second != (unsigned char)x[180]) return "speed";
      if (get([&](auto q) { t.enh_genre(q); }) != sub(x, 181, 211)) return "enhanced genre";
      if (get([&](auto q) { t.start_time(q); }) != sub(x, 211, 217)) return "start time";
      if (get([&](auto q) { t.end_time(q); }) != sub(x, 217, 223)) return "end time";
    }
    std::ostringstream os;
    t.write(os);
    if (os.str() != b) return "bytes written differ from the bytes read";
  }
  return "";
}
static bytes make(int fn, int before, const std::string &s)
{
  bytes b = { (std::uint8_t)fn, (std::uint8_t)before };
  b.insert(b.end(), s.begin(), s.end());
  return b;
}
static std::string block(std::size_t n, int what, rng_t &r)
{
  std::string s(n, '\0');
  int style = r() % 4;
  for (auto &c : s) c = style == 0 ? r() : style == 1 ? (r() % 4 ? ' ' + r() % 95 : 0) : style == 2 ? 0x80 | r() : 1 + r() % 255;
  std::size_t o = n == 355 ? 227 : 0;
  if (!(what & 1)) s.replace(o, std::min<std::size_t>(3, n), "TAG");
  if (n == 355 && !(what & 2)) s.replace(0, 4, "TAG+");
  if (n == 128 || n == 355) {
    if (what & 4) s[o + 125] = 0;
    if (what & 8) s[o + 126] = 0;
    if (what & 16) s[o + 126] = 1 + r() % 255;
    if (what & 32) s[o + 125] = ' ';
  }
  return s;
}
void directed(const std::function<bool(const bytes&)> &f)
{
  rng_t r(7);
  for (int n : { 0, 1, 127, 128, 129, 227, 354, 355, 356 })
    for (int what = 0; what < 64; ++what)
      for (int fn = 1; fn < 3; ++fn)
        for (int k = 0; k < 2; ++k)
          f(make(fn, k, block(n, what, r)));
  // one marker byte wrong
  for (int n : { 128, 355 })
    for (int i : { 0, 1, 2, 3, 227, 228, 229 })
      if (i < n) for (int fn = 1; fn < 3; ++fn) {
        std::string s = block(n, 0, r);
        s[i] ^= 0x20;
        f(make(fn, 0, s));
      }
}
bytes random_input(rng_t &r)
{
  std::size_t n = r() % 2 ? 128 : r() % 8 ? 355 : r() % 400;
  return make(1 + r() % 2, r() % 3, block(n, (r() % 6 ? 0 : r() % 4) | (r() % 16) << 2, r));
}
bool nontrivial(const bytes &in) { return in.size() == 130 || in.size() == 357; }

// P13: checksum and size of the track
#include "harness.hh"
#include "streams.hh"
#include <scribbu/scribbu.hh>
#include <openssl/evp.h>

static std::string md5(const std::string &s)
{
  unsigned char d[EVP_MAX_MD_SIZE];
  unsigned int n = 0;
  EVP_Digest(s.data(), s.size(), d, &n, EVP_md5(), 0);
  return std::string((char*)d, n);
}
// input: function (1 checksum, end given; 2 checksum; 3 track description; +16: stream over a file), exception mask,
// position (3 bytes), end (4 bytes, from the position), filler in front of the content (4 bytes), content
std::string check(const bytes &in)
{
  if (in.size() < 13) return "";
  int fn = in[0] & 15, kind = in[0] >> 4 & 1;
  std::ios_base::iostate mask = mask_of(in[1]);
  std::size_t fill = in[9] + 256 * in[10] + 65536 * in[11] + 16777216ul * (in[12] & 1);
  std::string data(fill, 0);
  std::uint32_t x = 12345;
  for (auto &c : data) c = (char)((x = x * 1664525 + 1013904223) >> 24);
  data.append(in.begin() + 13, in.end());
  std::size_t n = data.size(), pos = in[2] + 256 * in[3] + 65536 * in[4], end;
  bool ext = n >= 355 && 0 == data.compare(n - 355, 4, "TAG+");
  bool std_ = !ext && n >= 128 && 0 == data.compare(n - 128, 3, "TAG");
  end = ext ? n - 355 : std_ ? n - 128 : n;
  pos = std::min(pos, end);
  if (fn == 1) end = pos + in[5] + 256 * in[6] + 65536 * in[7] + 16777216ul * (in[8] & 1);
  std::string want = md5(data.substr(pos, end - pos));

  any_stream S(kind, data);
  std::istream &is = S.get();
  is.seekg(pos); is.exceptions(mask);
  std::string got;
  if (fn == 1 || fn == 2) {
    std::array<unsigned char, scribbu::MD5_DIGEST_SIZE> a;
    try {
      if (fn == 1) a = scribbu::compute_track_md5(is, end);
      else a = scribbu::compute_track_md5(is);
    }
    catch (const std::exception &ex) { return end > n ? "" : std::string("refused: ") + ex.what(); }
    if (end > n) return "range past the end of the file not refused";
    got.assign(a.begin(), a.end());
  }
  else if (fn == 3) {
    try {
      scribbu::track_data T(is);
      T.get_md5(std::back_inserter(got));
      if (T.size() != end - pos) { std::ostringstream m; m << "size " << T.size() << ", expected " << end - pos; return m.str(); }
    }
    catch (const std::exception &ex) { return std::string("refused: ") + ex.what(); }
  }
  else return "";
  if (got != want) return "checksum is not that of the audio bytes";
  if (is.exceptions() != mask) return "exception mask not restored";
  if (!is.good()) return "stream not usable";
  if (is.tellg() != (std::streamoff)end) { std::ostringstream m; m << "read position " << is.tellg() << ", expected " << end; return m.str(); }
  return "";
}
bool nontrivial(const bytes &in) { return in.size() >= 13; }
static bytes make(int fn, int mask, std::size_t pos, std::size_t end, std::size_t fill, const std::string &s)
{
  bytes b { (std::uint8_t)fn, (std::uint8_t)mask };
  for (int i = 0; i < 3; ++i) b.push_back((std::uint8_t)(pos >> 8 * i));
  for (int i = 0; i < 4; ++i) b.push_back((std::uint8_t)(end >> 8 * i));
  for (int i = 0; i < 4; ++i) b.push_back((std::uint8_t)(fill >> 8 * i));
  b.insert(b.end(), s.begin(), s.end());
  return b;
}
static std::string tail(int what)
{
  std::string t(what == 2 ? 355 : 128, ' ');
  if (what == 0) return "";
  if (what == 2) t.replace(0, 4, "TAG+"), t.replace(227, 3, "TAG");
  else t.replace(0, 3, "TAG");
  return t;
}
static std::string frame(bool xing, unsigned frames, unsigned size)
{
  std::string s("\xff\xfb\x90\x00", 4);
  s.resize(417, 'x');
  if (xing) {
    std::string h("Xing\0\0\0\3", 8);
    for (unsigned v : { frames, size }) for (int i = 3; i >= 0; --i) h += (char)(v >> 8 * i);
    s.replace(36, h.size(), h);
  }
  return s;
}
void directed(const std::function<bool(const bytes&)> &f)
{
  const std::size_t M = 4 * 1024 * 1024;
  std::vector<std::string> audio { "", "a", std::string(127, 'b'), std::string(128, 'c'), std::string(354, 'd'), std::string(1000, 'e'),
    frame(false, 0, 0), frame(false, 0, 0) + frame(false, 0, 0), frame(true, 2, 834) + frame(false, 0, 0), frame(true, 2, 100000) + "zz",
    frame(true, 1, 0), frame(true, 0xffffffff, 0xffffffff), frame(false, 0, 0).substr(0, 20), "junk" + frame(false, 0, 0) + frame(false, 0, 0).substr(0, 6),
    std::string("\xff\xfb\x90", 3), std::string("\xff\xff\xff\xff", 4), frame(false, 0, 0) + "\xff\xff\xff\xff" };
  for (auto &a : audio)
    for (int what = 0; what < 3; ++what)
      for (int mask = 0; mask < 8; ++mask)
        for (int k = 0; k < 32; k += 16) {
          std::string s = a + tail(what);
          for (std::size_t p : { std::size_t(0), std::size_t(1), a.size() / 2, a.size() }) {
            if (!f(make(3 + k, mask, p, 0, 0, s)) || !f(make(2 + k, mask, p, 0, 0, s))) return;
            for (std::size_t e : { std::size_t(0), std::size_t(1), a.size(), s.size(), s.size() + 1 }) if (!f(make(1 + k, mask, p, e, 0, s))) return;
          }
        }
  for (std::size_t big : { M - 1, M, M + 1, 2 * M - 1, 2 * M, 2 * M + 77, 3 * M })
    for (int what = 0; what < 2; ++what)
      if (!f(make(3, 4, 3, 0, big + 3, tail(what))) || !f(make(2, 0, 0, 0, big, tail(what))) || !f(make(17, 7, 1, big, big + 1, "xyz")) || !f(make(1, 0, 0, big + 5, big, "xyz"))) return;
}
bytes random_input(rng_t &r)
{
  std::string s;
  for (int k = r() % 4; k > 0; --k)
    switch (r() % 3) {
    case 0: s += std::string(r() % 700, (char)r()); break;
    case 1: s += frame(r() % 2, r() % 8, r() % 2 ? r() % 4000 : r()); break;
    default: for (int i = r() % 200; i > 0; --i) s += (char)(r() % 3 ? r() : 0xff);
    }
  std::size_t a = s.size();
  s += tail(r() % 3);
  return make(1 + r() % 3 + 16 * (r() % 8 == 0), r() % 8, r() % (a + 1), r() % (s.size() + 3), r() % 3 ? 0 : r() % 70000, s);
}

// P18: reading a tag
#include "harness.hh"
#include <algorithm>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <typeinfo>
#include <unordered_map>
#include <boost/optional.hpp>
#include <boost/exception/all.hpp>
#include <boost/shared_array.hpp>
#include <boost/filesystem.hpp>
#include <boost/iterator/iterator_facade.hpp>
#include <boost/lexical_cast.hpp>
#include <boost/uuid/detail/md5.hpp>
#include <arpa/inet.h>
#include <zlib.h>
#define private public
#define protected public
#include <scribbu/id3v2.hh>
#include <scribbu/id3v22.hh>
#include <scribbu/id3v23.hh>
#include <scribbu/id3v24.hh>
#undef private
#undef protected
using namespace scribbu;
typedef id3v2_3_plus_frame plus;
typedef boost::optional<unsigned char> oid;
typedef boost::optional<std::size_t> osz;

static std::string bin(const std::string &s)
{
  return h::hex((const std::uint8_t*)s.data(), std::min<std::size_t>(s.size(), 200));
}
static std::string number(const char *what, std::size_t want, std::size_t got)
{
  std::ostringstream m; m << what << ": expected " << want << ", got " << got; return m.str();
}
static std::string be(std::size_t n, int w, int bits)
{
  std::string s;
  for (int i = w - 1; i >= 0; --i) s += (char)(n >> (bits * i) & ((1u << bits) - 1));
  return s;
}

// -------------------------------------------------------------- what is to be read
struct frame { std::string id, content; bool tap, fap, ro, z, u; oid group, method; osz size; };
struct contents {
  enum { fine, refused, unjudged } what;
  std::vector<frame> frames;
  std::size_t padding;
};
static std::size_t num(const std::string &s, std::size_t i, int w, int bits)
{
  std::size_t n = 0;
  while (w--) n = n << bits | ((unsigned char)s[i++] & ((1u << bits) - 1));
  return n;
}
/// length of the extended header at the start of `s'; -1: malformed
static long extended(int ver, const std::string &s)
{
  if (ver == 3) {
    if (s.size() < 10) return -1;
    std::size_t n = num(s, 0, 4, 8);
    if (n != ((unsigned char)s[4] & 0x80 ? 10 : 6) || n + 4 > s.size()) return -1;
    return n + 4;
  }
  if (s.size() < 6) return -1;
  std::size_t n = num(s, 0, 4, 7), i = 5 + (unsigned char)s[4];
  int fl = (unsigned char)s[5];
  if (n > s.size() || !s[4]) return -1;
  if (fl & 0x40) { if (i + 1 > s.size() || s[i]) return -1; i += 1; }
  if (fl & 0x20) {
    if (i + 6 > s.size() || s[i] != 5 || (unsigned char)s[i + 1] > 15) return -1;
    for (int k = 2; k < 6; ++k) if ((unsigned char)s[i + k] > 127) return -1;
    i += 6;
  }
  if (fl & 0x10) { if (i + 2 > s.size() || s[i] != 1) return -1; i += 2; }
  return n;
}
static contents read_independently(int ver, int flags, std::string s)
{
  contents c { contents::refused, { }, 0 };
  if (ver != 4 && (flags & 0x80)) {
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i) {
      r += s[i];
      if ((unsigned char)s[i] == 0xff && i + 1 < s.size() && !s[i + 1]) ++i;
    }
    s = r;
  }
  std::size_t i = 0, idn = ver == 2 ? 3 : 4, head = ver == 2 ? 6 : 10;
  if (ver > 2 && (flags & 0x40)) {
    long n = extended(ver, s);
    if (n < 0) return c;
    i = n;
  }
  bool encrypted = false;
  while (i < s.size()) {
    std::size_t left = s.size() - i;
    if (s.compare(i, std::min(left, idn), std::string(std::min(left, idn), '\0')) == 0) { c.padding = left; break; }
    if (left == head && !num(s, i + idn, idn, ver == 4 ? 7 : 8)) { c.what = contents::unjudged; return c; }   // an empty frame
    if (left < head + 1) return c;
    std::size_t n = num(s, i + idn, idn, ver == 4 ? 7 : 8);
    if (n > left - head) return c;
    frame f { s.substr(i, idn), s.substr(i + head, n) };
    if (ver > 2) {
      int a = (unsigned char)s[i + 8], b = (unsigned char)s[i + 9];
      bool v3 = ver == 3;
      std::size_t k = 0;
      auto byte = [&]() { return (unsigned char)f.content[k++]; };
      f.tap = a & (v3 ? 0x80 : 0x40); f.fap = a & (v3 ? 0x40 : 0x20); f.ro = a & (v3 ? 0x20 : 0x10);
      bool g = b & (v3 ? 0x20 : 0x40), m = b & (v3 ? 0x40 : 0x04), w = b & (v3 ? 0x80 : 0x01);
      f.z = b & (v3 ? 0x80 : 0x08); f.u = !v3 && (b & 2);
      if (g + m + 4 * w > (int)n) return c;
      if (v3) {
        if (w) { f.size = num(f.content, 0, 4, 8); k = 4; }
        if (m) f.method = byte();
        if (g) f.group = byte();
      } else {
        if (g) f.group = byte();
        if (m) f.method = byte();
        if (w) { f.size = num(f.content, k, 4, 7); k += 4; }
      }
      encrypted = encrypted || m;
      f.content.erase(0, k);
      if (f.z) {
        if (!f.size) return c;
        if (*f.size > 100000) { c.what = contents::unjudged; return c; }
        std::string q(*f.size + 1, 0);
        uLongf l = *f.size;
        if (Z_OK != uncompress((Bytef*)&q[0], &l, (const Bytef*)f.content.data(), f.content.size())) { c.what = encrypted ? contents::unjudged : contents::refused; return c; }
        f.content = q.substr(0, l);
      }
    }
    if (f.id == "XTG" || f.id == "XTAG" || f.id == "ENCR") { c.what = contents::unjudged; return c; }
    c.frames.push_back(f);
    i += n + head;
  }
  c.what = encrypted ? contents::refused : contents::fine;
  return c;
}

// -------------------------------------------------------------- what was read
#define B (const unsigned char*)f.content.data()
#define E (B + f.content.size())
static std::unique_ptr<id3v2_2_frame> made2(const frame &f)
{
  id3v2_2_frame *p;
  frame_id3 id(f.id.c_str());
  if (f.id == "COM") p = new COM(B, E); else if (f.id == "CNT") p = new CNT(B, E); else if (f.id == "POP") p = new POP(B, E);
  else if (f.id == "UFI") p = new UFI(B, E); else if (f.id == "TXX") p = new TXX(B, E);
  else if (f.id == "TT2" || f.id == "TAL") p = new id3v2_2_text_frame(id, B, E);
  else if (f.id[0] == 'z') p = new unknown_id3v2_2_frame(id, B, E);
  else p = 0;
  return std::unique_ptr<id3v2_2_frame>(p);
}
#define TAP (f.tap ? plus::tag_alter_preservation::discard : plus::tag_alter_preservation::preserve)
#define FAP (f.fap ? plus::file_alter_preservation::discard : plus::file_alter_preservation::preserve)
#define RO (f.ro ? plus::read_only::set : plus::read_only::clear)
#define A3 TAP, FAP, RO, f.method, f.group, f.size
#define A4 TAP, FAP, RO, f.method, f.group, f.z, f.u, f.size
static std::unique_ptr<id3v2_3_frame> made3(const frame &f)
{
  id3v2_3_frame *p;
  frame_id4 id(f.id.c_str());
  if (f.id == "COMM") p = new COMM(B, E, A3); else if (f.id == "PCNT") p = new PCNT(B, E, A3); else if (f.id == "POPM") p = new POPM(B, E, A3);
  else if (f.id == "UFID") p = new UFID(B, E, A3); else if (f.id == "TXXX") p = new TXXX(B, E, A3); else if (f.id == "PRIV") p = new PRIV(B, E, A3);
  else if (f.id == "TIT2" || f.id == "TALB") p = new id3v2_3_text_frame(id, B, E, A3);
  else if (f.id[0] == 'z') p = new unknown_id3v2_3_frame(id, A3, B, E);
  else p = 0;
  return std::unique_ptr<id3v2_3_frame>(p);
}
static std::unique_ptr<id3v2_4_frame> made4(const frame &f)
{
  id3v2_4_frame *p;
  frame_id4 id(f.id.c_str());
  if (f.id == "COMM") p = new COMM_2_4(B, E, A4); else if (f.id == "PCNT") p = new PCNT_2_4(B, E, A4); else if (f.id == "POPM") p = new POPM_2_4(B, E, A4);
  else if (f.id == "UFID") p = new UFID_2_4(B, E, A4); else if (f.id == "TXXX") p = new TXXX_2_4(B, E, A4); else if (f.id == "PRIV") p = new PRIV_2_4(B, E, A4);
  else if (f.id == "TIT2" || f.id == "TALB") p = new id3v2_4_text_frame(id, B, E, A4);
  else if (f.id[0] == 'z') p = new unknown_id3v2_4_frame(id, A4, B, E);
  else p = 0;
  return std::unique_ptr<id3v2_4_frame>(p);
}
#undef B
#undef E
template <class F> static std::string payload(const F &f) { std::ostringstream os; f.serialize(os); return os.str(); }
static std::string attributes(const id3v2_2_frame&, const frame&) { return ""; }
static std::string plus_attributes(const id3v2_3_plus_frame &g, const frame &f)
{
  if (g.tag_alter_preserve() != TAP || g.file_alter_preserve() != FAP || g.readonly() != RO) return "flags";
  if (g.group_id_ != f.group) return "group";
  if (g.enc_method_ != f.method) return "encryption method";
  return "";
}
static std::string attributes(const id3v2_3_frame &g, const frame &f)
{
  return g.compressed() != !!f.size ? "compression flag" : plus_attributes(g, f);
}
static std::string attributes(const id3v2_4_frame &g, const frame &f)
{
  return g.compressed_ != f.z || g.compressed() != f.z || g.unsynchronised_ != f.u ? "format flags" : g.data_len_indicator_ != f.size ? "data length" : plus_attributes(g, f);
}
static std::string text(const frame_id3 &id) { unsigned char b[3]; id.copy(b); return std::string(b, b + 3); }
static std::string text(const frame_id4 &id) { unsigned char b[4]; id.copy(b); return std::string(b, b + 4); }
template <class T, class M> static std::string compare(T &t, const contents &c, M made)
{
  if (t.num_frames() != c.frames.size()) return number("frames", c.frames.size(), t.num_frames());
  if (t.padding() != c.padding) return number("padding", c.padding, t.padding());
  auto p = t.frames_.begin();
  std::map<std::string, std::size_t> ids;
  for (const auto &f: c.frames) {
    const auto &g = **p++;
    if (text(g.id()) != f.id) return "frame " + bin(text(g.id())) + " instead of " + bin(f.id);
    std::string e = attributes(g, f);
    if (!e.empty()) return "frame " + f.id + ": " + e;
    auto want = made(f);
    if (want) {
      if (typeid(*want) != typeid(g)) return "frame " + f.id + " read as another kind";
      if (payload(*want) != payload(g)) return "contents of frame " + f.id + ": " + bin(payload(g)) + " instead of " + bin(f.content);
      if (f.id[0] == 'z' && payload(g) != f.content) return "contents of frame " + f.id + ": " + bin(payload(g)) + " instead of " + bin(f.content);
    }
    ++ids[f.id];
  }
  for (auto &i: ids) if (t.has_frame(i.first.c_str()) != i.second) return "looking up " + i.first + ": " + number("frames", i.second, t.has_frame(i.first.c_str()));
  return "";
}
static std::string flags(const id3v2_2_tag &t, int f) { return t.compression_ == !!(f & 0x40) ? "" : "compression flag"; }
static std::string flags(const id3v2_3_tag &t, int f) { return t.experimental_ == !!(f & 0x20) ? "" : "experimental flag"; }
static std::string flags(const id3v2_4_tag &t, int f)
{
  return t.experimental_ != !!(f & 0x20) ? "experimental flag" : t.footer_ != !!(f & 0x10) ? "footer flag" : "";
}
template <class T, class M> static std::string read(int ver, bool info, const std::string &s, M made)
{
  std::size_t n = num(s, 6, 4, 7);
  int fl = (unsigned char)s[5];
  contents c { contents::refused, { }, 0 };
  if (n + 10 <= s.size()) c = read_independently(ver, fl, s.substr(10, n));
  if (c.what == contents::fine)
    try { for (const auto &f: c.frames) made(f); }
    catch (const std::exception&) { c.what = contents::refused; }   // its kind of frame does not take these contents
  std::istringstream is(s);
  is.exceptions(std::ios_base::badbit);
  std::unique_ptr<T> t;
  id3v2_info H { true, (unsigned char)s[3], (unsigned char)s[4], (unsigned char)fl, (std::uint32_t)n };
  try {
    if (info) { is.seekg(10); t.reset(new T(is, H)); }
    else t.reset(new T(is));
  } catch (const std::exception &ex) {
    if (c.what == contents::fine) return std::string("refused: ") + ex.what();
  }
  if (is.exceptions() != std::ios_base::badbit) return "the stream's exception mask is changed";
  std::size_t at = t ? 10 + n : 10;
  if (!is.good() && !is.eof()) return "the stream is left failed";
  if (is.good() && (std::size_t)is.tellg() != at) return number("position in the stream", at, is.tellg());
  if (!t || c.what == contents::unjudged) return "";
  if (c.what == contents::refused) return "a malformed tag is read";
  if (t->version() != s[3] || t->revision() != s[4]) return "version";
  if (!t->unsynchronised() || *t->unsynchronised() != !!(fl & 0x80)) return "unsynchronisation flag";
  std::string e = flags(*t, fl);
  return e.empty() ? compare(*t, c, made) : e;
}
// input: version (2-4; with 0x10: header read by the caller), revision, flags, size (four bytes, as in the header),
// then what follows the header
std::string check(const bytes &in)
{
  if (in.size() < 7) return "";
  int ver = in[0] & 15;
  for (int i = 3; i < 7; ++i) if (in[i] > 127) return "";
  if (ver < 2 || ver > 4 || in[1] == 255) return "";
  std::string s = std::string("ID3") + (char)ver + std::string(in.begin() + 1, in.end());
  std::size_t n = num(s, 6, 4, 7);
  if (n > (1 << 20) || (n == 0 && !(in[0] & 16))) return "";
  bool info = in[0] & 16;
  return ver == 2 ? read<id3v2_2_tag>(ver, info, s, made2) : ver == 3 ? read<id3v2_3_tag>(ver, info, s, made3) : read<id3v2_4_tag>(ver, info, s, made4);
}

// -------------------------------------------------------------- inputs
static std::string unsynced(const std::string &s)
{
  std::string r;
  for (std::size_t i = 0; i < s.size(); ++i) {
    r += s[i];
    if ((unsigned char)s[i] == 0xff && (i + 1 == s.size() || (unsigned char)s[i + 1] >= 0xe0 || s[i + 1] == 0)) r += '\0';
  }
  return r;
}
static bytes input(int ver, bool info, int flags, const std::string &body, long more = 0, const std::string &after = "")
{
  std::size_t n = std::max(0l, (long)body.size() + more);
  std::string s = std::string(1, (char)(ver | (info ? 16 : 0))) + '\0' + (char)flags + be(n, 4, 7) + body + after;
  return bytes(s.begin(), s.end());
}
/// a frame with flag bytes `a', `b' and room for what these announce
static std::string frame_bytes(int ver, const std::string &id, int a, int b, std::string p, long more = 0)
{
  if (ver == 2) return id.substr(0, 3) + be(p.size() + more, 3, 8) + p;
  bool v3 = ver == 3, z = b & (v3 ? 0x80 : 8);
  std::size_t n = p.size();
  if (z) {
    std::string q(compressBound(p.size()), 0);
    uLongf l = q.size();
    compress((Bytef*)&q[0], &l, (const Bytef*)p.data(), p.size());
    p = q.substr(0, l);
  }
  std::string x;
  bool g = b & (v3 ? 0x20 : 0x40), m = b & (v3 ? 0x40 : 4), w = b & (v3 ? 0x80 : 1);
  if (v3) x = (w ? be(n, 4, 8) : "") + (m ? "\x80" : "") + (g ? "\x91" : "");
  else x = std::string(g ? "\x91" : "") + (m ? "\x80" : "") + (w ? be(n, 4, 7) : "");
  p = x + p;
  return id + be(p.size() + more, 4, v3 ? 8 : 7) + (char)a + (char)b + p;
}
static const char *ID2[] = { "zab", "TT2", "COM", "CNT", "POP", "UFI", "TXX", "TAL", "XYZ" };
static const char *ID4[] = { "zabc", "TIT2", "COMM", "PCNT", "POPM", "UFID", "TXXX", "PRIV", "TALB", "XYZW", "ENCR" };
static const char *EXT3[] = { "00000006000000000000", "0000000a80000000000301020304" };
static const char *EXT4[] = { "000000060100", "00000007014000", "0000000c0120050f7f010203", "0000000f0170000501020304050102", "000000080110019c", "0000000602007f" };
static std::string raw(const char *hx) { bytes b = h::unhex(hx); return std::string(b.begin(), b.end()); }
void directed(const std::function<bool(const bytes&)> &f)
{
  std::string some("\0eng\0hello\xff\xe1 \xff", 14);
  for (int ver = 2; ver < 5; ++ver)
    for (int info = 0; info < 2; ++info) {
      int n = ver == 2 ? 9 : 11;
      for (int fl = 0; fl < 256; fl += 16)
        if (ver == 2 || !(fl & 0x40))
          for (int pad = 0; pad < 16; ++pad) {
            std::string b;
            for (int k = 0; k < n; ++k) b += frame_bytes(ver, ver == 2 ? ID2[k] : ID4[k], 0, 0, some);
            b = frame_bytes(ver, "zabc", 0, 0, "x") + b + std::string(pad, '\0');
            f(input(ver, info, fl, fl & 0x80 && ver < 4 ? unsynced(b) : b, 0, pad & 1 ? "more" : ""));
            f(input(ver, info, fl, std::string(pad, '\0'), 0, "TIT2"));
          }
      for (int k = 0; ver > 2 && k < (ver == 3 ? 2 : 6); ++k)
        for (int d = -3; d < 4; ++d)
          f(input(ver, info, 0x40, raw(ver == 3 ? EXT3[k] : EXT4[k]) + frame_bytes(ver, "zabc", 0, 0, some) + frame_bytes(ver, "TIT2", 0, 0, some), d));
      if (ver > 2)
        for (int a = 0; a < 256; a += 1)
          for (int b : { 0, 0x01, 0x02, 0x04, 0x08, 0x09, 0x10, 0x20, 0x40, 0x80, 0x41, 0x49, 0x6f, 0xa0, 0xe0 })
            f(input(ver, info, 0, frame_bytes(ver, "zabc", a, b, some) + frame_bytes(ver, "zabd", b, a, some) + frame_bytes(ver, "TIT2", a, 0, some)));
      // lengths that do not fit
      for (int d = -12; d < 24; ++d)
        for (int tail = 0; tail < 14; ++tail) {
          std::string b = frame_bytes(ver, "zabc", 0, 0, some) + frame_bytes(ver, "zabd", 0, 0, some, d) + std::string(tail, 'q');
          f(input(ver, info, 0, b));
          f(input(ver, info, 0, b, tail - 7, "and more of it"));
        }
      for (std::size_t n : { 127u, 128u, 129u, 255u, 256u, 16383u, 16384u, 65535u, 65536u, 70000u })
        f(input(ver, info, 0, frame_bytes(ver, "zabc", 0, 0, std::string(n, 'x')) + frame_bytes(ver, "TIT2", 0, 0, some)));
      for (int k = 1; k < 12; ++k) f(input(ver, info, 0, frame_bytes(ver, "zabc", 0, 0, some) + std::string(k, 'q')));
      for (int b = 0; ver > 2 && b < 256; ++b)            // fields with no room
        for (int n = 0; n < 7; ++n)
          f(input(ver, info, 0, std::string(b & 1 ? "ENCR" : "zabc") + be(n, 4, 7) + '\0' + (char)b + std::string(n, '\1')));
    }
}
bytes random_input(rng_t &r)
{
  int ver = 2 + r() % 3, fl = r() % 3 ? 0 : r() % 256;
  std::string b;
  if (ver > 2 && (fl & 0x40)) b = raw(ver == 3 ? EXT3[r() % 2] : EXT4[r() % 6]);
  for (int k = r() % 5; k >= 0; --k) {
    std::string p;
    for (int n = 1 + r() % (r() % 6 ? 12 : 400); n > 0; --n) {
      int x = r() % 8;
      p += (char)(x < 2 ? 0 : x < 4 ? 0xff : x == 4 ? 0xe0 + r() % 32 : r());
    }
    int g = 0;
    if (r() % 2) g = ver == 3 ? (r() % 8) << 5 & (r() % 4 ? 0xa0 : 0xff) : r() & (r() % 4 ? 0x4b : 0xff);
    if (ver == 4 && (g & 8)) g |= 1;
    b += frame_bytes(ver, ver == 2 ? ID2[r() % 9] : ID4[r() % (r() % 8 ? 10 : 11)], r() % 2 ? 0 : r(), g, p, r() % 8 ? 0 : (long)(r() % 30) - 15);
  }
  if (r() % 2) b += std::string(r() % 20, '\0');
  if (r() % 6 == 0) b += std::string(r() % 12, (char)r());
  if (r() % 8 == 0 && !b.empty()) b[r() % b.size()] = (char)r();
  if (ver < 4 && (fl & 0x80)) b = unsynced(b);
  return input(ver, r() % 2, fl, b, r() % 8 ? 0 : (long)(r() % 40) - 20, r() % 3 ? "" : std::string(r() % 40, 'z'));
}
bool nontrivial(const bytes &in) { return in.size() > 20; }

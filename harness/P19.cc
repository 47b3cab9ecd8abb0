// P19: writing a tag
#include "harness.hh"
#include <algorithm>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <typeinfo>
#include <unordered_map>
#include <boost/optional.hpp>
#include <boost/exception/all.hpp>
#include <boost/shared_array.hpp>
#include <boost/filesystem.hpp>
#include <boost/iterator/iterator_facade.hpp>
#include <boost/lexical_cast.hpp>
#include <boost/uuid/detail/md5.hpp>
#include <arpa/inet.h>
#include <zlib.h>
#define private public
#define protected public
#include <scribbu/id3v2.hh>
#include <scribbu/id3v22.hh>
#include <scribbu/id3v23.hh>
#include <scribbu/id3v24.hh>
#undef private
#undef protected
using namespace scribbu;
typedef id3v2_3_plus_frame plus;
static std::string bin(const std::string &s)
{
  return h::hex((const std::uint8_t*)s.data(), std::min<std::size_t>(s.size(), 200));
}
static std::string number(const char *what, std::size_t want, std::size_t got)
{
  std::ostringstream m; m << what << ": expected " << want << ", got " << got; return m.str();
}
static std::string be(std::size_t n, int w, int bits)
{
  std::string s;
  for (int i = w - 1; i >= 0; --i) s += (char)(n >> (bits * i) & ((1u << bits) - 1));
  return s;
}


static std::string crc_of(const std::string &s, std::uint32_t x = 0)
{
  return be(crc32(x, (const Bytef*)s.data(), s.size()), 4, 8);
}
static std::string unsynced(const std::string &s, bool last)
{
  std::string r;
  for (std::size_t i = 0; i < s.size(); ++i) {
    r += s[i];
    if ((unsigned char)s[i] == 0xff && (i + 1 < s.size() ? (unsigned char)s[i + 1] >= 0xe0 || s[i + 1] == 0 : last)) r += '\0';
  }
  return r;
}
static bool false_syncs(const std::string &s)
{
  for (std::size_t i = 0; i + 1 < s.size(); ++i) if ((unsigned char)s[i] == 0xff && (unsigned char)s[i + 1] >= 0xe0) return true;
  return false;
}
// -------------------------------------------------------------- the parts of a tag
template <class F> static std::string plain(const F &f) { std::ostringstream os; f.write(os, false); return os.str(); }
static std::string part(const id3v2_2_frame &f, bool unsync, bool) { std::ostringstream os; f.write(os, unsync); return os.str(); }
static std::string part(const id3v2_3_plus_frame &f, bool unsync, bool last)
{
  f.serialized_size(unsync, last);
  std::ostringstream os; f.write(os, unsync); return os.str();
}
static bool needs(const id3v2_2_frame &f, bool) { return f.needs_unsynchronisation(); }
static bool needs(const id3v2_3_frame &f, bool last) { return f.needs_unsynchronisation(last); }
static bool needs(const id3v2_4_frame &f, bool) { return f.needs_unsynchronisation(); }
struct facts { std::string ext; bool crc, footer; };
/// the extended header in plain form; `frames': the frames' plain forms
static facts extended(const id3v2_2_tag&, const std::string&) { return { "", false, false }; }
static facts extended(const id3v2_3_tag &t, const std::string &frames)
{
  if (!t.pext_header_) return { "", false, false };
  bool c = t.pext_header_->has_crc();
  return { be(c ? 10 : 6, 4, 8) + (c ? '\x80' : '\0') + '\0' + be(t.pext_header_->cbpad_, 4, 8) + (c ? crc_of(frames) : ""), c, false };
}
static facts extended(const id3v2_4_tag &t, const std::string&)
{
  std::string s;
  if (t.pext_header_) {
    const auto &h = *t.pext_header_;
    s = std::string(1, '\1') + (char)(h.is_update_ * 64 | h.fcrc_ * 32 | h.restricted_ * 16);
    if (h.is_update_) s += '\0';
    if (h.fcrc_) s += '\5' + be(h.crc_, 5, 7);
    if (h.restricted_) s += std::string(1, '\1') + (char)((int)h.tag_size_restriction_ << 6 | h.text_enc_restriction_ << 5 | (int)h.text_size_restriction_ << 3 | h.image_enc_restriction_ << 2 | (int)h.image_sz_restriction_);
    s = be(s.size() + 4, 4, 7) + s;
  }
  return { s, false, t.footer_ };
}
static void grow(id3v2_2_tag &t) { t.push_back(unknown_id3v2_2_frame("zzz", (const unsigned char*)"\xff\xe0z", (const unsigned char*)"\xff\xe0z" + 3)); }
#define PLAIN plus::tag_alter_preservation::preserve, plus::file_alter_preservation::preserve, plus::read_only::clear, boost::none, boost::none
static void grow(id3v2_3_tag &t) { t.push_back(unknown_id3v2_3_frame("zzzz", PLAIN, boost::none, (const unsigned char*)"\xff\xe0z", (const unsigned char*)"\xff\xe0z" + 3)); }
static void grow(id3v2_4_tag &t) { t.push_back(unknown_id3v2_4_frame("zzzz", PLAIN, false, false, boost::none, (const unsigned char*)"\xff\xe0z", (const unsigned char*)"\xff\xe0z" + 3)); }
template <class T> static std::string written(int ver, bool unsync, bool more, int fl, std::size_t pad, const std::string &s)
{
  std::unique_ptr<T> t, ref;
  auto read = [&s, more, unsync]() { 
    std::istringstream is(s);
    std::unique_ptr<T> t(new T(is));
    if (more) { std::ostringstream os; t->write(os, unsync); grow(*t); }      // changed after it was written once
    return t;
  };
  try { t = read(); ref = read(); }
  catch (const std::exception&) { return ""; }
  if (pad == 0xffff) pad = t->padding();
  if (pad == 0xfffe) pad = 1 << 28;
  t->padding(pad); ref->padding(pad);
  // the parts, each by itself
  std::size_t n = ref->num_frames(), i = 0;
  std::string bare;
  auto other = read();
  for (auto &p: other->frames_) bare += plain(*p);
  facts x = extended(*ref, bare);
  bool any = ver == 3 && false_syncs(x.ext), all = true;
  std::string want = ver == 3 && unsync ? unsynced(x.ext, false) : x.ext;
  for (auto &p: ref->frames_) {
    bool last = ++i == n && !pad && !x.crc;          // with a checksum, the frames were cached before
    want += part(*p, unsync, last);
  }
  ref = read(); ref->padding(pad); i = 0;
  for (auto &p: ref->frames_) {
    bool b = needs(*p, ++i == n && !pad && !x.crc);
    any = any || b; all = all && b;
  }
  if (t->needs_unsynchronisation() != (ver == 4 ? all : any)) return ver == 4 ? "needs unsynchronisation other than if all frames do" : "needs unsynchronisation other than if some part does";
  if (pad < (1 << 24)) want += std::string(pad, '\0');
  t = read(); t->padding(pad);
  if (ver < 4 && t->size(unsync) != want.size() && pad < (1 << 24)) return number("size", want.size(), t->size(unsync));
  for (int again = 0; again < 3; ++again) {
    if (again == 2) { t = read(); t->padding(pad); }   // not measured before
    std::ostringstream os;
    std::size_t k;
    try { k = t->write(os, unsync); }
    catch (const std::exception &ex) {
      if (pad >= (1 << 28)) return "";
      return std::string("not written: ") + ex.what();
    }
    if (pad >= (1 << 28)) return "a tag too large for its header is written";
    std::string w = os.str();
    int flags = (fl & (ver == 2 ? 0x40 : ver == 3 ? 0x60 : 0x70)) | (unsync || (ver == 4 && (fl & 0x80)) ? 0x80 : 0);
    std::string head = std::string(1, (char)ver) + '\0' + (char)flags + be(want.size(), 4, 7);
    if (k != w.size()) return number("bytes written", w.size(), k);
    std::size_t total = 10 + want.size() + (x.footer ? 10 : 0);
    if (w.compare(0, 10, "ID3" + head)) return "header " + bin(w.substr(0, 10)) + " instead of " + bin("ID3" + head);
    if (w.size() != total) return number("length of the tag", total, w.size());
    if (w.compare(10, want.size(), want)) return "contents " + bin(w.substr(10, want.size())) + " instead of " + bin(want);
    if (x.footer && w.compare(10 + want.size(), 10, "3DI" + head)) return "footer " + bin(w.substr(10 + want.size())) + " instead of " + bin("3DI" + head);
    if (!unsync && !x.footer && !want.empty() && !(fl & 0x80)) {   // and reads back
      std::istringstream is(w);
      try {
        T b(is);
        if (b.num_frames() != n) return number("frames read back", n, b.num_frames());
        if (b.padding() != pad) return number("padding read back", pad, b.padding());
      } catch (const std::exception &ex) { return std::string("not read back: ") + ex.what(); }
    }
  }
  return "";
}
// input: version, unsynchronise? (1) written before and changed since? (2), flags, padding (two bytes; ffff: as read, fffe: too much), then what follows the header
// (in plain form)
std::string check(const bytes &in)
{
  if (in.size() < 5) return "";
  int ver = in[0], fl = in[2];
  if (ver < 2 || ver > 4) return "";
  std::string b(in.begin() + 5, in.end());
  if (ver < 4 && (fl & 0x80)) b = unsynced(b, true);
  if (b.empty() || b.size() > (1 << 20)) return "";
  std::string s = std::string("ID3") + (char)ver + '\0' + (char)fl + be(b.size(), 4, 7) + b;
  std::size_t pad = in[3] << 8 | in[4];
  return ver == 2 ? written<id3v2_2_tag>(ver, in[1] & 1, in[1] & 2, fl, pad, s) : ver == 3 ? written<id3v2_3_tag>(ver, in[1] & 1, in[1] & 2, fl, pad, s) : written<id3v2_4_tag>(ver, in[1] & 1, in[1] & 2, fl, pad, s);
}

// -------------------------------------------------------------- inputs
static bytes input(int ver, int unsync, int flags, int pad, const std::string &body)
{
  std::string s = std::string(1, (char)ver) + (char)unsync + (char)flags + (char)(pad >> 8) + (char)pad + body;
  return bytes(s.begin(), s.end());
}
/// a frame with flag bytes `a', `b' and room for what these announce
static std::string frame_bytes(int ver, const std::string &id, int a, int b, std::string p, long more = 0)
{
  if (ver == 2) return id.substr(0, 3) + be(p.size() + more, 3, 8) + p;
  bool v3 = ver == 3, z = b & (v3 ? 0x80 : 8);
  std::size_t n = p.size();
  if (z) {
    std::string q(compressBound(p.size()), 0);
    uLongf l = q.size();
    compress((Bytef*)&q[0], &l, (const Bytef*)p.data(), p.size());
    p = q.substr(0, l);
  }
  std::string x;
  bool g = b & (v3 ? 0x20 : 0x40), m = b & (v3 ? 0x40 : 4), w = b & (v3 ? 0x80 : 1);
  if (v3) x = (w ? be(n, 4, 8) : "") + (m ? "\x80" : "") + (g ? "\x91" : "");
  else x = std::string(g ? "\x91" : "") + (m ? "\x80" : "") + (w ? be(n, 4, 7) : "");
  p = x + p;
  return id + be(p.size() + more, 4, v3 ? 8 : 7) + (char)a + (char)b + p;
}
static const char *ID2[] = { "zab", "TT2", "COM", "CNT", "POP", "UFI", "TXX", "TAL", "XYZ" };
static const char *ID4[] = { "zabc", "TIT2", "COMM", "PCNT", "POPM", "UFID", "TXXX", "PRIV", "TALB", "XYZW" };
static const char *EXT3[] = { "00000006000000000000", "0000000a80000000000301020304", "00000006000000ff00e0", "0000000600000000ffe0", "0000000a80000000ff0001020304" };
static const char *EXT4[] = { "000000060100", "00000007014000", "0000000c0120050f7f010203", "0000000f0170000501020304050102", "000000080110019c", "0000000f0170000500000000000163" };
static std::string raw(const char *hx) { bytes b = h::unhex(hx); return std::string(b.begin(), b.end()); }
void directed(const std::function<bool(const bytes&)> &f)
{
  const std::string kinds[] = { std::string("x"), std::string("\xff\xe1 \xff", 4), std::string("\xff\0z\xff", 4), std::string("\0eng\0hello", 10), std::string(300, '\xff') };
  for (int ver = 2; ver < 5; ++ver)
    for (int unsync = 0; unsync < 4; ++unsync)
      for (int fl = 0; fl < 256; fl += 16)
        for (int e = 0; e < (ver > 2 && (fl & 0x40) ? ver == 3 ? 5 : 6 : 1); ++e) {
          std::string x;
          if (ver > 2 && (fl & 0x40)) x = raw(ver == 3 ? EXT3[e] : EXT4[e]);
          for (int pad : { 0xffff, 0, 1, 2, 63, 64, 65, 127, 128, 200, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 1200, 2049, 5000, 16500 })
            for (int a = 0; a < 5; ++a)
              for (int b = -1; b < 5; ++b) {
                if (pad > 2 && pad < 0xffff && (a > 1 || b > 1)) continue;
                std::string s = x + frame_bytes(ver, "zabc", 0, 0, kinds[a]);
                if (b >= 0) s += frame_bytes(ver, "zabd", 0, 0, kinds[b]);
                f(input(ver, unsync, fl, pad, s + (a == 1 ? std::string(b + 1, '\0') : "")));
              }
          f(input(ver, unsync, fl, 0xffff, x + std::string(11, '\0')));
          f(input(ver, unsync, fl, 0, x + std::string(11, '\0')));
          f(input(ver, unsync, fl, 0xfffe, x + frame_bytes(ver, "zabc", 0, 0, "x")));
          std::string s = x;
          for (int k = 0; k < (ver == 2 ? 9 : 10); ++k) s += frame_bytes(ver, ver == 2 ? ID2[k] : ID4[k], 0, 0, kinds[3]);
          f(input(ver, unsync, fl, 0, s));
          f(input(ver, unsync, fl, 40, s));
        }
}
bytes random_input(rng_t &r)
{
  int ver = 2 + r() % 3, fl = r() % 3 ? 0 : r() % 256;
  std::string b;
  if (ver > 2 && (fl & 0x40)) b = raw(ver == 3 ? EXT3[r() % 5] : EXT4[r() % 6]);
  for (int k = r() % 6; k > 0; --k) {
    std::string p;
    for (int n = 1 + r() % (r() % 6 ? 12 : 400); n > 0; --n) {
      int x = r() % 8;
      p += (char)(x < 2 ? 0 : x < 4 ? 0xff : x == 4 ? 0xe0 + r() % 32 : r());
    }
    if (r() % 3 == 0) p = std::string("\0eng\0", 5) + p;
    int g = 0;
    if (r() % 2) g = ver == 3 ? (r() % 8) << 5 & 0xa0 : r() & 0x4b;
    if (ver == 4 && (g & 8)) g |= 1;
    b += frame_bytes(ver, ver == 2 ? ID2[r() % 9] : ID4[r() % 10], r() % 2 ? 0 : r(), g, p);
  }
  if (r() % 2) b += std::string(r() % 20, '\0');
  int pad = r() % 3 == 0 ? 0xffff : r() % 3 == 0 ? 0 : r() % 3 == 0 ? r() % 1300 : r() % 20;
  return input(ver, r() % 4, fl, pad, b);
}
bool nontrivial(const bytes &in) { return in.size() > 20; }

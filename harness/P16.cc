// P16: contents of frames
#include "harness.hh"
#include <algorithm>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <boost/optional.hpp>
#include <boost/exception/all.hpp>
#include <boost/shared_array.hpp>
#include <boost/filesystem.hpp>
#include <arpa/inet.h>
#define private public
#define protected public
#include <scribbu/framesv2.hh>
#include <scribbu/framesv22.hh>
#include <scribbu/framesv23.hh>
#include <scribbu/framesv24.hh>
#undef private
#undef protected
using namespace scribbu;
typedef id3v2_3_plus_frame plus;

// s: bytes, 0: up to and with a zero, n: up to and with a null of the encoding, b: a byte, l: three bytes
static const char *LAYOUT[] = { "", "0s", "0bs", "bns", "blns", "s", "0bs", "0s", "bs", "bs", "bs", "s", "s", "s" };

/// What must be written after reading `p'; false: the encoding is not known.
static bool expected(int code, int ver, const std::string &p, std::string &out)
{
  std::size_t i = 0, n = p.size();
  bool wide = n && p[0] && (ver != 4 || p[0] != 3), have = true;
  if (code == 4 && n && (unsigned char)p[0] > (ver == 4 ? 3 : 1)) return false;
  out.clear();
  for (const char *l = LAYOUT[code]; *l; ++l)
    switch (*l) {
    case 'b': have = i < n; out += have ? p[i] : '\0'; ++i; break;
    case 'l': have = i + 3 <= n; out += have ? p.substr(i, 3) : std::string(3, '\0'); i += 3; break;
    case 's': if (have && i < n) out += p.substr(i); break;
    default: {
      std::size_t w = *l == 'n' && wide ? 2 : 1, j = i;
      if (have && i < n) {
        while (j < n && !(p[j] == 0 && (w == 1 || (j + 1 < n && p[j + 1] == 0)))) j += w;
        if (j > n) j = n;
        // a lone byte after the last pair belongs to the field
        out += p.substr(i, j - i);
      } else j = std::max(i, n);
      out += std::string(w, '\0');
      have = have && j + w <= n;
      i = j + w;
    } }
  return true;
}
static std::size_t pairs(const std::string &s, bool false_only)
{
  std::size_t k = 0;
  for (std::size_t i = 0; i + 1 < s.size(); ++i) {
    unsigned char y = s[i + 1];
    k += (unsigned char)s[i] == 0xff && (y >= 0xe0 || (!false_only && y == 0));
  }
  return k;
}
static std::string differs(const char *what, const std::string &want, const std::string &got)
{
  return std::string(what) + ": expected " + h::hex((const std::uint8_t*)want.data(), want.size()) + ", written "
    + h::hex((const std::uint8_t*)got.data(), got.size());
}
static std::string number(const char *what, std::size_t want, std::size_t got)
{
  std::ostringstream m; m << what << ": expected " << want << ", got " << got; return m.str();
}
template <class F> static std::string payload(const F &f, const std::string &want)
{
  std::ostringstream os;
  std::size_t n = f.write(os);
  if (os.str() != want) return differs("content", want, os.str());
  if (n != want.size()) return number("bytes reported by writing", want.size(), n);
  if (f.size() != want.size()) return number("size", want.size(), f.size());
  if (f.serialized_size(false) != want.size()) return number("serialized size", want.size(), f.serialized_size(false));
  if (f.serialized_size(true) != want.size() + pairs(want, false))
    return number("serialized size with unsynchronisation", want.size() + pairs(want, false), f.serialized_size(true));
  if (f.needs_unsynchronisation() != pairs(want, true)) return number("false syncs", pairs(want, true), f.needs_unsynchronisation());
  return "";
}
template <class F> static std::string frame(const F &f, const std::string &want)
{
  std::ostringstream os;
  std::size_t n = f.serialize(os);
  if (os.str() != want) return differs("frame", want, os.str());
  if (n != want.size()) return number("bytes reported by writing the frame", want.size(), n);
  if (f.size() != want.size()) return number("size of the frame", want.size(), f.size());
  return "";
}
/// exactly the bytes, so that reading past them is seen
struct exact {
  std::size_t n; unsigned char *p;
  explicit exact(const std::string &s): n(s.size()), p((unsigned char*)std::malloc(n ? n : 1)) { if (n) std::memcpy(p, s.data(), n); else { std::free(p); p = 0; } }
  ~exact() { std::free(p); }
  const unsigned char *begin() const { return p; }
  const unsigned char *end() const { return p + n; }
};
template <class MK> static std::string attempt(MK mk, bool ok, const std::string &want)
{
  try {
    std::string e = mk(want);
    return ok ? e : "an unknown encoding is accepted";
  }
  catch (const std::exception &e) { return ok ? std::string("refused: ") + e.what() : ""; }
}
template <class F> static std::string flags(const F &f, int m)
{
  if ((f.tag_alter_preserve() == plus::tag_alter_preservation::discard) != !!(m & 1)) return "tag alteration flag";
  if ((f.file_alter_preserve() == plus::file_alter_preservation::discard) != !!(m & 2)) return "file alteration flag";
  if ((f.readonly() == plus::read_only::set) != !!(m & 4)) return "read-only flag";
  if (f.encrypted() != !!(m & 8)) return "encryption method";
  if (f.encrypted() && f.encmeth() != 0x41) return "value of the encryption method";
  if (f.grouped() != !!(m & 16)) return "group";
  if (f.grouped() && f.gid() != 0x82) return "value of the group";
  if (f.compressed() != !!(m & 32)) return "compressed";
  return "";
}
typedef boost::optional<unsigned char> oid;
typedef boost::optional<std::size_t> osz;
#define TAP ((m & 1) ? plus::tag_alter_preservation::discard : plus::tag_alter_preservation::preserve)
#define FAP ((m & 2) ? plus::file_alter_preservation::discard : plus::file_alter_preservation::preserve)
#define RO ((m & 4) ? plus::read_only::set : plus::read_only::clear)
#define ENC ((m & 8) ? oid(0x41) : oid())
#define GID ((m & 16) ? oid(0x82) : oid())
#define DSZ ((m & 32) ? osz(77) : osz())
static const int MASKS[] = { 0, 1, 2, 4, 8, 16, 32, 63, 64, 127 };

template <class F> static std::string v2(const exact &b, const std::string &want, const char *id)
{
  auto p = F::create(frame_id3(id), b.begin(), b.n);
  if (!dynamic_cast<F*>(p.get())) return "class of the frame";
  if (p->id() != frame_id3(id)) return "identifier of the frame";
  return frame(*p, want);
}
template <class F> static std::string v3(const exact &b, const std::string &want, const char *id)
{
  std::string e;
  for (int m : MASKS) {
    if (m & 64) continue;
    auto p = F::create(frame_id4(id), b.begin(), b.n, TAP, FAP, RO, ENC, GID, DSZ);
    if (!dynamic_cast<F*>(p.get())) return "class of the frame";
    if (p->id() != frame_id4(id)) return "identifier of the frame";
    if (!(e = flags(*p, m)).empty() || !(e = frame(*p, want)).empty()) return e;
  }
  return "";
}
template <class F> static std::string v4(const exact &b, const std::string &want, const char *id)
{
  std::string e;
  for (int m : MASKS) {
    auto p = F::create(frame_id4(id), b.begin(), b.n, TAP, FAP, RO, ENC, GID, !!(m & 32), !!(m & 64), osz());
    if (!dynamic_cast<F*>(p.get())) return "class of the frame";
    if (p->id() != frame_id4(id)) return "identifier of the frame";
    if (p->unsynchronised() != !!(m & 64)) return "unsynchronised";
    if (!(e = flags(*p, m)).empty() || !(e = frame(*p, want)).empty()) return e;
  }
  return "";
}
// a tag cloud (bounded only): 14, then keys and values
static std::string cloud(const bytes &in)
{
  std::map<std::string, std::set<std::string>> m;
  std::string key, cur;
  bool haskey = false;
  for (std::size_t i = 2; i < in.size(); ++i) {
    unsigned char x = in[i];
    if (x < 0x40) { if (haskey) m[key].insert(cur); cur.clear(); }
    else if (x < 0x60) { key = cur; m[key]; haskey = true; cur.clear(); }
    else cur += (char)x;
  }
  tag_cloud f("own", m.begin(), m.end());
  std::ostringstream os;
  std::size_t n = f.write(os);
  std::string s = os.str();
  if (n != s.size()) return number("bytes reported by writing a tag cloud", s.size(), n);
  if (f.size() != n) return number("size of a tag cloud", n, f.size());
  if (f.serialized_size(true) != n + pairs(s, false)) return number("size of a tag cloud with unsynchronisation", n + pairs(s, false), f.serialized_size(true));
  if (f.needs_unsynchronisation() != pairs(s, true)) return number("false syncs of a tag cloud", pairs(s, true), f.needs_unsynchronisation());
  exact b(s);
  tag_cloud g(b.begin(), b.end());
  if (g.owner() != "own") return "owner of a tag cloud";
  if (std::map<std::string, std::set<std::string>>(g.begin(), g.end()) != m) return "tag cloud read differs from the one written";
  std::ostringstream o2;
  g.write(o2);
  return o2.str() == s ? "" : "tag cloud written differently";
}
// input: class, form, bytes; form 0x80 + version: the bytes of a frame; 1, 2: the same, with an encoding of that width
std::string check(const bytes &in)
{
  if (in.size() < 2) return "";
  int code = in[0], form = in[1];
  if (code == 14) return cloud(in);
  if (code < 1 || code > 13) return "";
  std::string p(in.begin() + 2, in.end());
  if (form < 0x80 && (code == 3 || code == 4) && !p.empty()) p[0] = form == 2 ? 1 : 0;
  std::string e;
  exact b(p);
  for (int ver = 2; ver < 5; ++ver) {
    if (form > 0x80 && form < 0x85 && ver != form - 0x80) continue;
    std::string want;
    bool ok = expected(code, ver, p, want);
    id3v2_version iv = ver == 2 ? id3v2_version::v2 : ver == 3 ? id3v2_version::v3 : id3v2_version::v4;
    std::function<std::string(const std::string&)> mk, fr;
#define WRAP(P, A, B, C, ...) mk = [&](const std::string &w) { return payload(P(__VA_ARGS__ b.begin(), b.end()), w); }; \
    fr = [&](const std::string &w) { return ver == 2 ? A : ver == 3 ? v3<B>(b, w, #B) : v4<C>(b, w, #B); }
#define COMMA ,
    switch (code) {
    case 1: WRAP(unique_file_id, v2<UFI>(b, w, "UFI"), UFID, UFID_2_4, ); break;
    case 2: WRAP(encryption_method, std::string(), ENCR, ENCR_2_4, ); break;
    case 3: WRAP(user_defined_text, v2<TXX>(b, w, "TXX"), TXXX, TXXX_2_4, iv COMMA); break;
    case 4: WRAP(comments, v2<COM>(b, w, "COM"), COMM, COMM_2_4, iv COMMA); break;
    case 5: WRAP(play_count, v2<CNT>(b, w, "CNT"), PCNT, PCNT_2_4, ); break;
    case 6: WRAP(popularimeter, v2<POP>(b, w, "POP"), POPM, POPM_2_4, ); break;
    case 7: WRAP(private_frame, std::string(), PRIV, PRIV_2_4, ); break;
    case 8: if (ver == 2) fr = [&](const std::string &w) { return v2<id3v2_2_text_frame>(b, w, "TT2"); }; break;
    case 9: if (ver == 3) fr = [&](const std::string &w) { return v3<id3v2_3_text_frame>(b, w, "TIT2"); }; break;
    case 10: if (ver == 4) fr = [&](const std::string &w) { return v4<id3v2_4_text_frame>(b, w, "TIT2"); }; break;
    case 11: if (ver == 2) fr = [&](const std::string &w) { return frame(unknown_id3v2_2_frame(frame_id3("XXX"), b.begin(), b.end()), w); }; break;
    case 12: if (ver == 3) fr = [&](const std::string &w) {
          for (int m : MASKS) {
            if (m & 64) continue;
            unknown_id3v2_3_frame f(frame_id4("XXXX"), TAP, FAP, RO, ENC, GID, DSZ, b.begin(), b.end());
            std::string e = flags(f, m);
            if (!e.empty() || !(e = frame(f, w)).empty()) return e;
          }
          return std::string();
        };
      break;
    case 13: if (ver == 4) fr = [&](const std::string &w) {
          for (int m : MASKS) {
            unknown_id3v2_4_frame f(frame_id4("XXXX"), TAP, FAP, RO, ENC, GID, !!(m & 32), !!(m & 64), osz(), b.begin(), b.end());
            std::string e = flags(f, m);
            if (f.unsynchronised() != !!(m & 64)) return std::string("unsynchronised");
            if (!e.empty() || !(e = frame(f, w)).empty()) return e;
          }
          return std::string();
        };
      break;
    }
    if (mk && !(e = attempt(mk, ok, want)).empty()) return e;
    if (fr && !(e = attempt(fr, ok, want)).empty()) return e;
  }
  return "";
}
void directed(const std::function<bool(const bytes&)> &f)
{
  static const int AL[] = { 0, 1, 3, 'a', 0xe0, 0xff };
  for (int code = 1; code < 14; ++code) {
    f(bytes{ (std::uint8_t)code, 0x80 });
    for (int n = 1; n < 5; ++n) {
      std::size_t k = 1;
      for (int i = 0; i < n; ++i) k *= 6;
      for (std::size_t x = 0; x < k; ++x) {
        bytes b = { (std::uint8_t)code, 0x80 };
        std::size_t y = x;
        for (int i = 0; i < n; ++i, y /= 6) b.push_back(AL[y % 6]);
        f(b);
      }
    }
  }
}
bytes random_input(rng_t &r)
{
  int code = 1 + r() % 14;
  bytes b = { (std::uint8_t)code, 0x80 };
  if (code == 14) {
    for (int n = r() % 24; n > 0; --n) b.push_back(r() % 3 ? 0x60 + r() % 0xa0 : 0x30 + r() % 0x30);
    return b;
  }
  if (code == 3 || code == 4) {
    b.push_back(r() % 4);
    if (code == 4) for (int i = 0; i < 3; ++i) b.push_back(r() % 3 ? 'e' : 0xff);
  }
  for (int n = r() % (r() % 8 ? 24 : 200); n > 0; --n) {
    int x = r() % 8;
    b.push_back(x < 3 ? 0 : x < 5 ? 0xff : x == 5 ? 0xe0 + r() % 32 : r());
  }
  return b;
}
bool nontrivial(const bytes &in) { return in.size() > 3; }

// P17: frames as they are written
#include "harness.hh"
#include <algorithm>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <boost/optional.hpp>
#include <boost/exception/all.hpp>
#include <boost/shared_array.hpp>
#include <boost/filesystem.hpp>
#include <arpa/inet.h>
#include <zlib.h>
#define private public
#define protected public
#include <scribbu/framesv2.hh>
#include <scribbu/framesv22.hh>
#include <scribbu/framesv23.hh>
#include <scribbu/framesv24.hh>
#undef private
#undef protected
using namespace scribbu;
typedef id3v2_3_plus_frame plus;
typedef boost::optional<unsigned char> oid;
typedef boost::optional<std::size_t> osz;
#define TAP ((m & 1) ? plus::tag_alter_preservation::discard : plus::tag_alter_preservation::preserve)
#define FAP ((m & 2) ? plus::file_alter_preservation::discard : plus::file_alter_preservation::preserve)
#define RO ((m & 4) ? plus::read_only::set : plus::read_only::clear)
#define GID ((m & 16) ? oid(0x82) : oid())
#define DSZ ((m & 32) ? osz(77) : osz())
#define DLI ((m & 128) ? osz(78) : osz())

static std::string be(std::size_t n, int w, int bits)
{
  std::string s;
  for (int i = w - 1; i >= 0; --i) s += (char)(n >> (bits * i) & ((1u << bits) - 1));
  return s;
}
static std::string unsynced(const std::string &s, bool last)
{
  std::string r;
  for (std::size_t i = 0; i < s.size(); ++i) {
    r += s[i];
    if ((unsigned char)s[i] == 0xff && (i + 1 < s.size() ? (unsigned char)s[i + 1] >= 0xe0 || s[i + 1] == 0 : last)) r += '\0';
  }
  return r;
}
static std::size_t syncs(const std::string &s)
{
  std::size_t k = 0;
  for (std::size_t i = 0; i + 1 < s.size(); ++i) k += (unsigned char)s[i] == 0xff && (unsigned char)s[i + 1] >= 0xe0;
  return k;
}
static std::string number(const char *what, std::size_t want, std::size_t got)
{
  std::ostringstream m; m << what << ": expected " << want << ", got " << got; return m.str();
}
static std::string bin(const std::string &s)
{
  return h::hex((const std::uint8_t*)s.data(), std::min<std::size_t>(s.size(), 200));
}
/// what precedes `stored' bytes holding `n' bytes of contents
static std::string header(int ver, int m, const std::string &id, std::size_t stored, std::size_t n)
{
  if (ver == 2) return id + be(stored, 3, 8);
  bool z = m & 32, g = m & 16;
  if (ver == 3) {
    std::string x = (z ? be(n, 4, 8) : "") + (g ? std::string(1, (char)0x82) : "");
    return id + be(stored + x.size(), 4, 8) + (char)((m & 1 ? 0x80 : 0) | (m & 2 ? 0x40 : 0) | (m & 4 ? 0x20 : 0)) + (char)((z ? 0x80 : 0) | (g ? 0x20 : 0)) + x;
  }
  std::string x = (g ? std::string(1, (char)0x82) : "") + (m & 128 ? be(n, 4, 7) : "");
  return id + be(stored + x.size(), 4, 7) + (char)((m & 1 ? 0x40 : 0) | (m & 2 ? 0x20 : 0) | (m & 4 ? 0x10 : 0))
    + (char)((g ? 0x40 : 0) | (z ? 8 : 0) | (m & 64 ? 2 : 0) | (m & 128 ? 1 : 0)) + x;
}
/// `f' holds `p': is it written so?
template <class F> static std::string written_as(const F &f, const std::function<std::unique_ptr<F>()> &fresh, int ver, int m, const std::string &id, const std::string &p, bool last)
{
  std::string want;
  // each asked of a frame not asked before
  std::size_t n[2] = { fresh()->serialized_size(false, last), fresh()->serialized_size(true, last) }, k = fresh()->needs_unsynchronisation(last);
  if (f.serialized_size(false, last) != n[0] || f.serialized_size(true, last) != n[1] || f.needs_unsynchronisation(last) != k) return "sizes differ when asked again";
  std::ostringstream os;
  std::size_t w = f.write(os, false);
  std::string s = os.str();
  if (ver != 2 && (m & 32)) {
    std::size_t h = header(ver, m, id, 0, 0).size();
    if (s.size() < h) return "written: " + bin(s);
    std::string q(p.size() + 1, 0);
    uLongf l = q.size(), used = s.size() - h;
    if (Z_OK != uncompress2((Bytef*)&q[0], &l, (const Bytef*)s.data() + h, &used) || used != s.size() - h || l != p.size() || q.substr(0, l) != p) return "compressed contents of " + bin(s);
    want = header(ver, m, id, s.size() - h, p.size()) + s.substr(h);
  }
  else want = header(ver, m, id, p.size(), p.size()) + p;
  if (s != want) return "expected " + bin(want) + ", written " + bin(s);
  if (w != s.size()) return number("bytes reported by writing", s.size(), w);
  if (n[0] != s.size()) return number("serialized size", s.size(), n[0]);
  bool l = last && ver != 2;
  if (k != syncs(s) + (l && (unsigned char)s.back() == 0xff)) return number("false syncs", syncs(s), k);
  std::ostringstream o2;
  w = f.write(o2, true);
  std::string u = unsynced(s, l);
  if (o2.str() != u) return "with unsynchronisation: expected " + bin(u) + ", written " + bin(o2.str());
  if (w != u.size()) return number("bytes reported by writing with unsynchronisation", u.size(), w);
  if (n[1] != u.size()) return number("serialized size with unsynchronisation", u.size(), n[1]);
  std::ostringstream o3;
  f.write(o3, false);
  if (o3.str() != s) return "written again: " + bin(o3.str());
  return "";
}
template <class F> static std::string written(const F &f, int ver, int m, const std::string &id, const std::string &p, bool last = false)
{
  typedef typename std::conditional<std::is_base_of<id3v2_2_frame, F>::value, id3v2_2_frame, plus>::type base;
  return written_as<base>(f, [&]() { return std::unique_ptr<base>(f.clone()); }, ver, m, id, p, last);
}
template <class F> static std::string content(const F &f) { std::ostringstream os; f.serialize(os); return os.str(); }
/// write, change, and write again
template <class F, class G> static std::string changed(F &f, int ver, const std::string &id, G change, const char *what)
{
  std::string e = written(f, ver, 0, id, content(f));
  if (!e.empty()) return e;
  change(f);
  e = written(f, ver, 0, id, content(f));
  return e.empty() ? e : std::string("after ") + what + ": " + e;
}
template <class T, class C, class P, class X>
static std::string changes(int ver, T &t, C &c, P &p, X &x, const std::string &txt)
{
  std::string e;
  const char *N[3][4] = { { "TT2", "CNT", "POP", "XTG" }, { "TIT2", "PCNT", "POPM", "XTAG" }, { "TIT2", "PCNT", "POPM", "XTAG" } };
  const char **id = N[ver - 2];
  if (!(e = changed(t, ver, id[0], [&](T &f) { f.set(txt); }, "setting the text")).empty()) return e;
  if (!(e = changed(t, ver, id[0], [&](T &f) { f.set(std::string("\xe4\xbd\xa0") + txt); }, "setting the text")).empty()) return e;
  if (!(e = changed(c, ver, id[1], [&](C &f) { f.inc(); }, "counting")).empty()) return e;
  if (!(e = changed(c, ver, id[1], [&](C &f) { f.count(0x12345); }, "setting the count")).empty()) return e;
  if (!(e = changed(p, ver, id[2], [&](P &f) { f.inc(); }, "counting")).empty()) return e;
  if (!(e = changed(p, ver, id[2], [&](P &f) { f.count(0x12345); }, "setting the count")).empty()) return e;
  if (!(e = changed(p, ver, id[2], [&](P &f) { f.rating(129); }, "rating")).empty()) return e;
  if (!(e = changed(x, ver, id[3], [&](X &f) { f.add_key("k" + txt); }, "adding a key")).empty()) return e;
  if (!(e = changed(x, ver, id[3], [&](X &f) { f.add_value("k" + txt, "v"); }, "adding a value")).empty()) return e;
  if (!(e = changed(x, ver, id[3], [&](X &f) { f.merge("a=b&c=d"); }, "merging tags")).empty()) return e;
  if (!(e = changed(x, ver, id[3], [&](X &f) { f.update("a=e"); }, "updating tags")).empty()) return e;
  return changed(x, ver, id[3], [&](X &f) { f.reset({ { "k", { "v", "w" } } }); }, "setting the tags");
}
// input: version, flags, length (four bytes), contents, repeated up to the length (0xff at will beyond);
// version 0x12.. : change frames, with the contents as text
std::string check(const bytes &in)
{
  if (in.size() < 6) return "";
  int ver = in[0] & 15, m = in[1];
  std::size_t n = (std::size_t)in[2] << 24 | in[3] << 16 | in[4] << 8 | in[5];
  if (ver < 2 || ver > 4) return "";
  std::string p(in.begin() + 6, in.end());
  if (in[0] > 15) {
    for (auto &c : p) if (c < 32 || c == 127) c = 'x';
    std::string a("\0abc", 4), q("x@y.z\0\x80\0\0\0\1", 11), c("\0\0\0\xfe", 4);
    const unsigned char *pa = (const unsigned char*)a.data(), *pq = (const unsigned char*)q.data(), *pc = (const unsigned char*)c.data();
    std::map<std::string, std::set<std::string>> none;
    if (ver == 2) {
      id3v2_2_text_frame t(frame_id3("TT2"), pa, pa + 4); CNT k(pc, pc + 4); POP r(pq, pq + 11);
      XTG x("me", none.begin(), none.end());
      return changes(2, t, k, r, x, p);
    }
    auto tap = plus::tag_alter_preservation::preserve; auto fap = plus::file_alter_preservation::preserve; auto ro = plus::read_only::clear;
    if (ver == 3) {
      id3v2_3_text_frame t(frame_id4("TIT2"), pa, pa + 4, tap, fap, ro, oid(), oid(), osz()); PCNT k(pc, pc + 4, tap, fap, ro, oid(), oid(), osz());
      POPM r(pq, pq + 11, tap, fap, ro, oid(), oid(), osz());
      XTAG x("me", none.begin(), none.end(), tap, fap, ro, oid(), oid(), osz());
      return changes(3, t, k, r, x, p);
    }
    id3v2_4_text_frame t(frame_id4("TIT2"), pa, pa + 4, tap, fap, ro, oid(), oid(), false, false, osz()); PCNT_2_4 k(pc, pc + 4, tap, fap, ro, oid(), oid(), false, false, osz());
    POPM_2_4 r(pq, pq + 11, tap, fap, ro, oid(), oid(), false, false, osz());
    XTAG_2_4 x("me", none.begin(), none.end(), tap, fap, ro, oid(), oid(), false, false, osz());
    return changes(4, t, k, r, x, p);
  }
  if (n > 0x10000001) return "";
  std::size_t k = p.size();
  if (k > n) p.resize(n);
  p.resize(n, (char)0xff);
  for (std::size_t i = k; k && i < n; ++i) p[i] = p[i % k];
  const unsigned char *b = (const unsigned char*)p.data(), *e = b + n;
  std::size_t lim = ver == 2 ? 0xffffff : ver == 3 ? 0xffffffff : 0xfffffff;
  std::size_t x = ver == 2 ? 0 : header(ver, m, "XXXX", 0, 0).size() - 10;
  bool refused = !(m & 32 && ver > 2) && n + x > lim;
  for (int last = 0; last < 2; ++last)
    try {
      std::string r;
      if (ver == 2) r = written(unknown_id3v2_2_frame(frame_id3("XYZ"), b, e), 2, m, "XYZ", p, last);
      else if (ver == 3) r = written(unknown_id3v2_3_frame(frame_id4("XYZW"), TAP, FAP, RO, oid(), GID, DSZ, b, e), 3, m, "XYZW", p, last);
      else r = written(unknown_id3v2_4_frame(frame_id4("XYZW"), TAP, FAP, RO, oid(), GID, !!(m & 32), !!(m & 64), DLI, b, e), 4, m, "XYZW", p, last);
      if (refused) return "a frame too large for its header is written";
      if (!r.empty()) return r;
    }
    catch (const std::exception &ex) { if (!refused) return std::string("refused: ") + ex.what(); }
  return "";
}
static bytes input(int ver, int m, std::size_t n, const bytes &p)
{
  bytes b = { (std::uint8_t)ver, (std::uint8_t)m, (std::uint8_t)(n >> 24), (std::uint8_t)(n >> 16), (std::uint8_t)(n >> 8), (std::uint8_t)n };
  b.insert(b.end(), p.begin(), p.end());
  return b;
}
void directed(const std::function<bool(const bytes&)> &f)
{
  for (int ver = 2; ver < 5; ++ver) {
    f(input(ver + 16, 0, 0, { }));
    f(input(ver + 16, 0, 0, { 'a', 0xc3, 0xbf }));
    for (int m = 0; m < (ver == 2 ? 1 : 256); ++m)
      if (!(m & 8) && (ver != 3 || m < 64))
        for (std::size_t n : { 1, 4, 127, 128, 255, 256, 300 }) f(input(ver, m, n, { 0xff, 0xe1, 0, 'a', 0xff, 0 }));
    for (std::size_t n : { 0x7fff, 0x8000, 0xffff, 0x10000, 0x1fffff, 0x200000 }) f(input(ver, 0, n, { 'a', 'b' }));
  }
  f(input(2, 0, 0xffffff, { 'a' }));
  f(input(2, 0, 0x1000000, { 'a' }));
  f(input(4, 0, 0x10000000, { 'a' }));
}
bytes random_input(rng_t &r)
{
  int ver = 2 + r() % 3, m = ver == 2 ? 0 : r() % 256 & ~8;
  if (ver == 3) m &= 0x37;
  if (r() % 10 == 0) {
    bytes p;
    for (int n = r() % 12; n > 0; --n) p.push_back(32 + r() % 90);
    return input(ver + 16, 0, 0, p);
  }
  bytes p;
  std::size_t n = r() % (r() % 8 ? 24 : 3000);
  for (std::size_t i = 0; i < std::min<std::size_t>(n, 40); ++i) {
    int x = r() % 8;
    p.push_back(x < 2 ? 0 : x < 4 ? 0xff : x == 4 ? 0xe0 + r() % 32 : r());
  }
  return input(ver, m, n, p);
}
bool nontrivial(const bytes &in) { return in.size() > 6; }

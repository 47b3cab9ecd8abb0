// P20: a tag under edits, copies and assignments, against a plain list of frames
#include "harness.hh"
#include <algorithm>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <typeinfo>
#include <unordered_map>
#include <boost/optional.hpp>
#include <scribbu/id3v2.hh>
#include <scribbu/id3v22.hh>
#include <scribbu/id3v23.hh>
#include <scribbu/id3v24.hh>
using namespace scribbu;
typedef id3v2_3_plus_frame plus;
typedef const unsigned char *P;
struct given { std::string id, p; int fl; };
static P beg(const given &g) { return (P)g.p.data(); }
static P fin(const given &g) { return (P)g.p.data() + g.p.size(); }
static plus::tag_alter_preservation tap(int f) { return f & 1 ? plus::tag_alter_preservation::preserve : plus::tag_alter_preservation::discard; }
static plus::file_alter_preservation fap(int f) { return f & 2 ? plus::file_alter_preservation::preserve : plus::file_alter_preservation::discard; }
static plus::read_only ro(int f) { return f & 4 ? plus::read_only::set : plus::read_only::clear; }
static boost::optional<unsigned char> gid(int f) { boost::optional<unsigned char> r; if (f & 8) r = 0x91; return r; }
static const boost::optional<unsigned char> none1;
static const boost::optional<std::size_t> none2;

static std::string general(const id3v2_tag &t)
{
  std::ostringstream s;
  s << (int)t.version() << ' ' << (int)t.revision() << ' ' << t.padding() << ' ' << (int)t.flags() << ' ';
  if (t.unsynchronised()) s << *t.unsynchronised(); else s << '-';
  return s.str();
}
struct V2 {
  typedef id3v2_2_tag tag; typedef id3v2_2_frame frame; typedef id3v2_2_text_frame text; typedef frame_id3 id; enum { ver = 2 };
  typedef COM com; typedef CNT cnt; typedef POP pop; typedef TXX txx; typedef UFI ufi; typedef unknown_id3v2_2_frame unk;
  template <class C> static C make(const given &g) { return C(beg(g), fin(g)); }
  static text make_text(const given &g) { return text(id(g.id.c_str()), beg(g), fin(g)); }
  static unk make_unk(const given &g) { return unk(id(g.id.c_str()), beg(g), fin(g)); }
  static const char *name(int i) { static const char *N[] = { "TAL", "TP1", "TCO", "TEN", "TLA", "TT2", "TRK", "TYE", "COM", "CNT", "POP", "TXX", "UFI", "XYZ", "zab", "TCM" }; return N[i % 16]; }
  static std::unique_ptr<tag> fresh(int n, int k)
  {
    if (k % 3 == 0 || n == 0) return std::unique_ptr<tag>(new tag(n));
    // the revision and the unsynchronisation flag can only be read
    std::string x = std::string("ID3\2", 4) + (char)(k & 1) + (char)(k % 3 == 2 ? 0x80 : 0) + std::string("\0\0\0", 3) + (char)n + std::string(n, '\0');
    std::istringstream is(x);
    return std::unique_ptr<tag>(new tag(is));
  }
  static std::string settings(const tag &t) { std::ostringstream s; s << general(t) << ' ' << t.compression(); return s.str(); }
};
struct V3 {
  typedef id3v2_3_tag tag; typedef id3v2_3_frame frame; typedef id3v2_3_text_frame text; typedef frame_id4 id; enum { ver = 3 };
  typedef COMM com; typedef PCNT cnt; typedef POPM pop; typedef TXXX txx; typedef PRIV ufi; typedef unknown_id3v2_3_frame unk;
  template <class C> static C make(const given &g) { return C(beg(g), fin(g), tap(g.fl), fap(g.fl), ro(g.fl), none1, gid(g.fl), none2); }
  static text make_text(const given &g) { return text(id(g.id.c_str()), beg(g), fin(g), tap(g.fl), fap(g.fl), ro(g.fl), none1, gid(g.fl), none2); }
  static unk make_unk(const given &g) { return unk(id(g.id.c_str()), tap(g.fl), fap(g.fl), ro(g.fl), none1, gid(g.fl), none2, beg(g), fin(g)); }
  static const char *name(int i) { static const char *N[] = { "TALB", "TPE1", "TCON", "TENC", "TLAN", "TIT2", "TRCK", "TYER", "COMM", "PCNT", "POPM", "TXXX", "PRIV", "XYZW", "zabc", "TCOM" }; return N[i % 16]; }
  static std::unique_ptr<tag> fresh(int n, int k)
  {
    typedef tag::want_extended_header w;
    return std::unique_ptr<tag>(new tag(n, k & 1, k % 3 == 0 ? w::none : k % 3 == 1 ? w::present : w::with_crc));
  }
  static std::string settings(const tag &t)
  {
    std::ostringstream s;
    s << general(t) << ' ' << t.experimental() << ' ' << t.has_extended_header();
    if (t.has_extended_header()) s << ' ' << t.extended_header().padding_size() << ' ' << t.extended_header().has_crc();
    return s.str();
  }
};
struct V4 {
  typedef id3v2_4_tag tag; typedef id3v2_4_frame frame; typedef id3v2_4_text_frame text; typedef frame_id4 id; enum { ver = 4 };
  typedef COMM_2_4 com; typedef PCNT_2_4 cnt; typedef POPM_2_4 pop; typedef TXXX_2_4 txx; typedef PRIV_2_4 ufi; typedef unknown_id3v2_4_frame unk;
  template <class C> static C make(const given &g) { return C(beg(g), fin(g), tap(g.fl), fap(g.fl), ro(g.fl), none1, gid(g.fl), false, false, none2); }
  static text make_text(const given &g) { return text(id(g.id.c_str()), beg(g), fin(g), tap(g.fl), fap(g.fl), ro(g.fl), none1, gid(g.fl), false, false, none2); }
  static unk make_unk(const given &g) { return unk(id(g.id.c_str()), tap(g.fl), fap(g.fl), ro(g.fl), none1, gid(g.fl), false, false, none2, beg(g), fin(g)); }
  static const char *name(int i) { return V3::name(i); }
  static std::unique_ptr<tag> fresh(int n, int k)
  {
    if (k % 3 == 0) return std::unique_ptr<tag>(new tag(n, k & 1));
    // an extended header (and a footer flag) can only be read
    std::string x("ID3\4\0", 5);
    bool foot = k % 3 == 2, ext = k % 6 != 5;
    x += (char)((ext ? 0x40 : 0) | (k & 1 ? 0x20 : 0) | (foot ? 0x10 : 0));
    x[4] = (char)(n & 1);
    x += std::string("\0\0\0", 3) + (char)(6 * ext + n % 100);
    std::string z = x;
    if (ext) x += std::string("\0\0\0\6\1\0", 6);
    x += std::string(n % 100, '\0');
    if (foot) x += "3DI" + z.substr(3);
    std::istringstream is(x);
    return std::unique_ptr<tag>(new tag(is));
  }
  static std::string settings(const tag &t)
  {
    std::ostringstream s;
    s << general(t) << ' ' << t.experimental() << ' ' << t.has_extended_header() << ' ' << t.has_footer();
    if (t.has_extended_header()) s << ' ' << t.extended_header().size();
    return s.str();
  }
};
template <class V> std::string say(const typename V::frame &f)
{
  std::ostringstream s;
  f.write(s, false);
  std::string b = s.str();
  return std::string(typeid(f).name()) + ":" + f.id().as_string() + ":" + h::hex((const std::uint8_t*)b.data(), b.size());
}
template <class V> std::string name_of(const std::string &s) { auto i = s.find(':'); return s.substr(i + 1, V::ver == 2 ? 3 : 4); }
typedef std::vector<std::string> list;
template <class V> struct side {
  std::unique_ptr<typename V::tag> t;
  list m;              // the frames it should hold
  std::string set, bytes, sum;
};
static std::string show(const list &l) { std::string s; for (auto &x: l) s += (s.empty() ? "" : ", ") + x.substr(0, 60); return "[" + s + "]"; }
template <class V> list frames_of(const typename V::tag &t)
{
  list r;
  for (const typename V::frame &f: t) r.push_back(say<V>(f));
  return r;
}
// the checksum kept, without having it made anew
static bool compressed(const id3v2_2_tag &t) { return t.compression(); }
template <class T> static bool compressed(const T &) { return false; }
static std::string sum_of(const id3v2_2_tag &) { return ""; }
static std::string sum_of(const id3v2_3_tag &t) { return t.has_extended_header() && t.extended_header().has_crc() ? std::to_string(t.extended_header().crc()) : ""; }
static std::string sum_of(const id3v2_4_tag &) { return ""; }
template <class V> std::string written(const typename V::tag &t)
{
  std::ostringstream s;
  t.write(s, false);
  return s.str();
}
template <class V, class C> list kind(const list &m)
{
  list r;
  for (auto &x: m) if (x.compare(0, x.find(':'), typeid(C).name()) == 0) r.push_back(x);
  std::sort(r.begin(), r.end());
  return r;
}
template <class V, class C> std::string same_kind(const char *what, const std::vector<C> &got, const list &m)
{
  list g, w = kind<V, C>(m);
  for (auto &x: got) g.push_back(say<V>(x));
  std::sort(g.begin(), g.end());
  return g == w ? "" : std::string(what) + ": the tag holds " + show(w) + " but gives " + show(g);
}
// positions: every way of getting from one to another
template <class V> std::string walk(typename V::tag &t, std::size_t n)
{
  typedef typename V::frame frame;
  const typename V::tag &c = t;
  std::vector<const frame*> A;
  for (auto p = c.begin(); p != c.end(); ++p) A.push_back(&*p);
  if (A.size() != n) return "there are other positions than frames";
  auto at = [](const frame &f) { return &f; };
  auto p = t.begin(), e = t.end();
  auto q = t.cbegin(), f = t.cend();
  if (!(c.end() == f) || std::size_t(e - p) != n || std::size_t(f - q) != n || n && (!(p < e) || e < p || p == e)) return "the positions of a tag are not in order";
  for (std::size_t i = 0; i < n; ++i) {
    frame &x = *(t.begin() + i), &y = *(t.end() - (n - i)), &z = t.begin()[i], &u = *p;
    if (at(x) != A[i] || at(y) != A[i] || at(z) != A[i] || at(u) != A[i] || p.operator->().operator->() != A[i]) return "a position is not that of its frame";
    if (at(*(t.cbegin() + i)) != A[i] || at(*(t.cend() - (n - i))) != A[i] || at(*q) != A[i] || q.operator->() != A[i]) return "a constant position is not that of its frame";
    if (p.index() != i || q.index() != i) return "a position has another index";
    auto p1 = p++; auto q1 = q++;
    if (p1.index() != i || q1.index() != i || p.index() != i + 1 || q.index() != i + 1) return "moving on does not go to the next position";
    p1 += 1; q1 += 1;
    if (p1 != p || q1 != q) return "adding one does not go to the next position";
    auto p2 = p1--; auto q2 = q1--;
    if (p2 != p || q2 != q || p1.index() != i || q1.index() != i) return "moving back does not go to the position before";
    p2 -= 1; q2 -= 1;
    if (p2 != p1 || q2 != q1 || ++p2 != p || ++q2 != q || --p2 != p1 || --q2 != q1) return "moving forth and back does not end where it began";
  }
  if (p != e || q != f) return "the last position is not followed by the end";
  return "";
}
template <class V> std::string look(side<V> &s, const char *who)
{
  typename V::tag &t = *s.t;
  const list &m = s.m;
  list have = frames_of<V>(t);
  if (have != m) return std::string(who) + " holds " + show(have) + " instead of " + show(m);
  for (int i = 0; i < 16; ++i) {
    typename V::id id(V::name(i));
    std::size_t n = 0, nt = 0;
    for (auto &x: m) if (name_of<V>(x) == V::name(i)) { ++n; if (x.compare(0, x.find(':'), typeid(typename V::text).name()) == 0) ++nt; }
    std::ostringstream e;
    if (t.has_frame(id) != n) { e << who << " holds " << n << " of " << V::name(i) << " but says " << t.has_frame(id); return e.str(); }
    if (n) {
      std::string x = say<V>(t.get_frame(id));
      if (std::find(m.begin(), m.end(), x) == m.end() || name_of<V>(x) != V::name(i)) return std::string(who) + ": looking up " + V::name(i) + " gives " + x;
    }
    std::size_t c = i == 0 ? t.has_album() : i == 1 ? t.has_artist() : i == 2 ? t.has_content_type() : i == 3 ? t.has_encoded_by() : i == 4 ? t.has_languages() : i == 5 ? t.has_title() : i == 6 ? t.has_track() : i == 7 ? t.has_year() : n;
    if (c != n) { e << who << " holds " << n << " of " << V::name(i) << " but counts " << c; return e.str(); }
    if (i < 8 && (nt || i == m.size() % 8)) {
      bool threw = false;
      std::string x;
      try { x = i == 0 ? t.album() : i == 1 ? t.artist() : i == 2 ? t.content_type() : i == 3 ? t.encoded_by() : i == 4 ? t.languages() : i == 5 ? t.title() : i == 6 ? t.track() : t.year(); }
      catch (const std::exception &) { threw = true; }
      // a text may be undecodable
      if (threw && nt)
        for (const typename V::frame &f: t)
          if (auto p = dynamic_cast<const typename V::text*>(&f)) if (f.id() == id) try { p->template as_str<std::string>(); } catch (const std::exception &) { nt = 0; }
      if (threw != (nt == 0)) { e << who << " holds " << nt << " texts " << V::name(i) << " and asking for it " << (threw ? "fails" : "succeeds"); return e.str(); }
      if (!threw) {
        bool ok = false;
        for (const typename V::frame &f: t)
          if (auto p = dynamic_cast<const typename V::text*>(&f)) try { ok = ok || f.id() == id && p->template as_str<std::string>() == x; } catch (const std::exception &) { }
        if (!ok) return std::string(who) + ": the text of " + V::name(i) + " is given as '" + x + "'";
      }
    }
  }
  std::vector<typename V::com> c; t.get_comments(std::back_inserter(c));
  std::vector<typename V::cnt> n; t.get_play_counts(std::back_inserter(n));
  std::vector<typename V::pop> p; t.get_popularimeters(std::back_inserter(p));
  std::string e = same_kind<V>("comments", c, m);
  if (e.empty()) e = same_kind<V>("play counts", n, m);
  if (e.empty()) e = same_kind<V>("popularimeters", p, m);
  if (!e.empty()) return std::string(who) + ", " + e;
  list w = kind<V, typename V::cnt>(m);
  if (t.has_play_count() != w.size()) return std::string(who) + ": wrong number of play counts";
  try {
    std::size_t k = t.play_count();
    if (w.size() != 1) return std::string(who) + ": a play count is given";
    if (k != n[0].count()) return std::string(who) + ": wrong play count";
  } catch (const std::domain_error &) { try { n.at(0).count(); return std::string(who) + ": the play count is refused"; } catch (const std::domain_error &) { } }   // more than it can hold
  catch (const std::logic_error &) { if (w.size() == 1) return std::string(who) + ": the play count is not given"; }
  if (V::settings(t) != s.set) return std::string(who) + ": settings " + V::settings(t) + " instead of " + s.set;
  return "";
}
// the kinds of text with their identifiers in ID3v2.2 and later (empty: there is none)
struct kind_of_text { id3v2_text_frames k; const char *id2, *id4; };
static const kind_of_text TEXTS[] = {
  { id3v2_text_frames::talb, "TAL", "TALB" }, { id3v2_text_frames::tbpm, "TBP", "TBPM" }, { id3v2_text_frames::tcom, "TCM", "TCOM" }, { id3v2_text_frames::tcon, "TCO", "TCON" },
  { id3v2_text_frames::tcop, "TCR", "TCOP" }, { id3v2_text_frames::tdat, "TDA", "TDAT" }, { id3v2_text_frames::tdly, "TDY", "TDLY" }, { id3v2_text_frames::tenc, "TEN", "TENC" },
  { id3v2_text_frames::text, "TXT", "TEXT" }, { id3v2_text_frames::tflt, "TFT", "TFLT" }, { id3v2_text_frames::time, "TIM", "TIME" }, { id3v2_text_frames::tit1, "TT1", "TIT1" },
  { id3v2_text_frames::tit2, "TT2", "TIT2" }, { id3v2_text_frames::tit3, "TT3", "TIT3" }, { id3v2_text_frames::tkey, "TKE", "TKEY" }, { id3v2_text_frames::tlan, "TLA", "TLAN" },
  { id3v2_text_frames::tlen, "TLE", "TLEN" }, { id3v2_text_frames::tmed, "TMT", "TMED" }, { id3v2_text_frames::toal, "TOT", "TOAL" }, { id3v2_text_frames::tofn, "TOF", "TOFN" },
  { id3v2_text_frames::toly, "TOL", "TOLY" }, { id3v2_text_frames::tope, "TOA", "TOPE" }, { id3v2_text_frames::tory, "TOR", "TORY" }, { id3v2_text_frames::town, "", "TOWN" },
  { id3v2_text_frames::tpe1, "TP1", "TPE1" }, { id3v2_text_frames::tpe2, "TP2", "TPE2" }, { id3v2_text_frames::tpe3, "TP3", "TPE3" }, { id3v2_text_frames::tpe4, "TP4", "TPE4" },
  { id3v2_text_frames::tpos, "TPA", "TPOS" }, { id3v2_text_frames::tpub, "TPB", "TPUB" }, { id3v2_text_frames::trck, "TRK", "TRCK" }, { id3v2_text_frames::trda, "TRD", "TRDA" },
  { id3v2_text_frames::trsn, "", "TRSN" }, { id3v2_text_frames::trso, "", "TRSO" }, { id3v2_text_frames::tsiz, "TSI", "TSIZ" }, { id3v2_text_frames::tsrc, "TRC", "TSRC" },
  { id3v2_text_frames::tsse, "TSS", "TSSE" }, { id3v2_text_frames::tyer, "TYE", "TYER" },
};
// the kinds with a name of their own, as in name()
static const int OWN[] = { 0, 24, 3, 7, 15, 12, 30, 37 };
template <class V> const char *id_of(const kind_of_text &k) { return V::ver == 2 ? k.id2 : k.id4; }
static const kind_of_text &text_kind(int a) { return TEXTS[a < 128 ? OWN[a % 8] : (a - 128) % 38]; }
template <class V, class F> std::string on_frame(int k, int a, int b, F f)
{
  // frames of each class
  static const std::string T[] = { std::string("\0hello", 6), std::string("\0caf\xe9", 5), std::string("\0\xff\xe0", 3), std::string("\0", 1) };
  given g; g.fl = a / 8; g.id = V::name(a);
  std::string n(1, (char)b);
  switch (k % 7) {
  case 0: g.p = std::string("\0eng", 4) + std::string("d\0", 2) + n; f(V::template make<typename V::com>(g)); break;
  case 1: g.p = std::string("\0\0\1", 3) + n; f(V::template make<typename V::cnt>(g)); break;
  case 2: g.p = std::string("a@b\0", 4) + n + std::string("\0\0\0\2", 4); f(V::template make<typename V::pop>(g)); break;
  case 3: g.id = id_of<V>(text_kind(a)); if (g.id.empty()) g.id = V::name(a % 8); g.p = T[b % 4] + (b % 4 ? "" : n); if (!(n[0] & 0x80)) {} f(V::make_text(g)); break;
  case 4: g.p = std::string("\0data", 5) + n; f(V::make_unk(g)); break;
  case 5: g.p = std::string("\0d\0", 3) + n; f(V::template make<typename V::txx>(g)); break;
  default: g.p = std::string("own\0", 4) + n; f(V::template make<typename V::ufi>(g)); break;
  }
  return "";
}
template <class V> std::string run(const bytes &in)
{
  typedef typename V::tag tag; typedef typename V::frame frame;
  side<V> S[2];
  for (int i = 0; i < 2; ++i) {
    int k = in[1 + i];
    S[i].t = V::fresh(k / 4, k);
    S[i].set = V::settings(*S[i].t);
  }
  if (V::ver == 2 || in[1] % 3 == 0) if (S[0].t->padding() != std::size_t(in[1] / 4)) return "a new tag has other padding than asked for";
  std::string e;
  if (compressed(tag())) return "a new tag counts as compressed";
  for (int i = 0; i < 2; ++i) {
    if (!(e = look(S[i], i ? "the second new tag" : "the first new tag")).empty()) return e;
    S[i].bytes = written<V>(*S[i].t);
    S[i].sum = sum_of(*S[i].t);
  }
  for (std::size_t o = 3; o + 4 <= in.size(); o += 4) {
    int op = in[o] % 24, who = in[o] / 24 % 2, a = in[o + 1], b = in[o + 2], c = in[o + 3];
    side<V> &s = S[who], &q = S[1 - who];
    tag &t = *s.t;
    list &m = s.m;
    std::size_t n = m.size(), k = n ? a % n : 0, k1 = a % (n + 1);
    bool both = false;
    std::ostringstream what;
    what << "operation " << (o - 3) / 4 << " (" << op << "): ";
    std::size_t ret = ~std::size_t(0), want = ret;
    switch (op) {
    case 0: on_frame<V>(b, c, a, [&](auto f) { t.push_back(f); m.push_back(say<V>(f)); }); break;
    case 1: on_frame<V>(b, c, a, [&](auto f) { t.push_back((const frame&)f); m.push_back(say<V>(f)); }); break;
    case 2: on_frame<V>(b, c, c, [&](auto f) { auto r = t.insert(t.cbegin() + k1, f); m.insert(m.begin() + k1, say<V>(f)); ret = r - t.begin(); want = k1; }); break;
    case 3: on_frame<V>(b, c, c, [&](auto f) { auto r = t.insert(t.cbegin() + k1, (const frame&)f); m.insert(m.begin() + k1, say<V>(f)); ret = r - t.begin(); want = k1; }); break;
    case 4: if (n) { auto r = t.erase(t.cbegin() + k); m.erase(m.begin() + k); ret = r - t.begin(); want = k; } break;
    case 5: { std::size_t x = std::min(k1, b % (n + 1)), y = std::max(k1, b % (n + 1)); auto r = t.erase(t.cbegin() + x, t.cbegin() + y); m.erase(m.begin() + x, m.begin() + y); ret = r - t.begin(); want = x; break; }
    case 6: if (n) on_frame<V>(b, c, c, [&](auto f) { *(t.begin() + k) = f; m[k] = say<V>(f); }); break;
    case 7: if (n) on_frame<V>(b, c, c, [&](auto f) { *(t.begin() + k) = (const frame&)f; m[k] = say<V>(f); }); break;
    case 8: if (n) { std::size_t x = b % n; *(t.begin() + k) = *(t.begin() + x); std::swap(m[k], m[x]); } break;
    case 9: if (n && q.m.size()) { std::size_t x = b % q.m.size(); *(t.begin() + k) = *(q.t->begin() + x); std::swap(m[k], q.m[x]); both = true; } break;
    case 10: {
      std::size_t before = n;
      std::string id = id_of<V>(text_kind(a));
      try { t.delete_frame(text_kind(a).k); if (id.empty()) return what.str() + "a text unknown to the version is deleted"; }
      catch (const unknown_text_frame &) { if (!id.empty()) return what.str() + "deleting " + id + " is refused"; }
      list now = frames_of<V>(t);
      bool any = false, ok = false;
      for (std::size_t i = 0; i < n; ++i) if (name_of<V>(m[i]) == id) {
        any = true;
        list w = m; w.erase(w.begin() + i);
        if (w == now) ok = true;
      }
      if (any) { if (!ok) return what.str() + "deleting " + id + " left " + show(now) + " of " + show(m); m = now; }
      break;
    }
    case 11: t.add_comment("said " + std::to_string(b), language::eng, encoding::UTF_8, use_unicode::no, "what"); break;
    case 12: t.add_user_defined_text("text " + std::to_string(b), encoding::UTF_8, use_unicode::no, "what"); break;
    case 13: {
      id3v2_text_frames k = text_kind(a).k;
      std::string id = id_of<V>(text_kind(a)), x = b % 3 ? "title " + std::to_string(b) : "";
      std::size_t nt = 0;
      for (auto &y: m) if (name_of<V>(y) == id && y.compare(0, y.find(':'), typeid(typename V::text).name()) == 0) ++nt;
      if (id.empty()) {
        try { t.text(k, x, encoding::UTF_8); return what.str() + "a text unknown to the version is set"; } catch (const unknown_text_frame &) { }
        break;
      }
      if (a < 128 && c & 1)
        switch (a % 8) {
        case 0: t.album(x); break;
        case 1: t.artist(x); break;
        case 2: t.content_type(x); break;
        case 3: t.encoded_by(x); break;
        case 4: t.languages(x); break;
        case 5: t.title(x); break;
        case 6: t.track(x); break;
        default: t.year(x);
        }
      else
        try { t.text(k, x, encoding::UTF_8); } catch (const unknown_text_frame &) { return what.str() + "setting " + id + " is refused"; }
      list now = frames_of<V>(t);
      if (now.size() != n + (nt == 0)) return what.str() + "setting a text left " + show(now) + " of " + show(m);
      std::size_t diff = 0;
      for (std::size_t i = 0; i < n; ++i) if (now[i] != m[i]) { ++diff; if (name_of<V>(m[i]) != id) return what.str() + "setting a text changed " + m[i]; }
      if (diff > (nt ? 1 : 0)) return what.str() + "setting a text changed other frames";
      if (nt == 0 && (name_of<V>(now.back()) != id || now.back().compare(0, now.back().find(':'), typeid(typename V::text).name()))) return what.str() + "setting a text added " + now.back();
      if (t.text(k) != x) return what.str() + "a text was set to '" + x + "' and reads '" + t.text(k) + "'";
      m = now;
      break;
    }
    case 14: q.t.reset(new tag(t)); q.m = m; q.set = s.set; both = true; break;
    case 15: *q.t = t; q.m = m; q.set = s.set; both = true; break;
    case 16: { tag &u = t; t = u; break; }
    case 17: q.t.reset((tag*)t.clone()); q.m = m; q.set = s.set; both = true; break;
    case 18: {
      // read back: the frames are those written
      std::string x = written<V>(t);
      std::istringstream is(x);
      std::unique_ptr<tag> u;
      try { u.reset(new tag(is)); } catch (const std::exception &) { break; }
      s.t = std::move(u);
      s.m = frames_of<V>(*s.t);
      s.set = V::settings(*s.t);
      break;
    }
    case 19: t.padding(a); s.set = V::settings(t); break;
    case 20: {
      std::size_t i = 0;
      for (auto p = t.begin(); p != t.end(); ++p, ++i) {
        frame &f = *p;
        if (auto x = dynamic_cast<typename V::cnt*>(&f)) { std::size_t y = 5; try { y = x->count(); } catch (const std::domain_error &) { } x->count(y + 1); m[i] = say<V>(f); if (x->count() != y + 1) return what.str() + "a play count does not count"; break; }
      }
      break;
    }
    case 21: {
      std::string id = V::name(a);
      auto p = std::remove_if(t.begin(), t.end(), [&](const frame &f) { return f.id().as_string() == id; });
      t.erase(p, t.end());
      m.erase(std::remove_if(m.begin(), m.end(), [&](const std::string &x) { return name_of<V>(x) == id; }), m.end());
      break;
    }
    case 22: on_frame<V>(3, c, a, [&](auto f) { t.push_back(f); m.push_back(say<V>(f)); }); break;
    default: on_frame<V>(1, c, a, [&](auto f) { t.push_back(f); m.push_back(say<V>(f)); }); break;
    }
    if (op == 11 || op == 12) {
      list now = frames_of<V>(*s.t);
      std::string k = op == 11 ? typeid(typename V::com).name() : typeid(typename V::txx).name();
      if (now.size() != n + 1 || now.back().compare(0, now.back().find(':'), k)) return what.str() + "not added at the end: " + show(now);
      list w = now; w.pop_back();
      if (w != m) return what.str() + "adding a frame changed others";
      m = now;
    }
    if (ret != want) return what.str() + "the position returned is not that of the frame";
    if (!(e = look(s, "the tag")).empty()) return what.str() + e;
    if (!(e = walk<V>(*s.t, m.size())).empty()) return what.str() + e;
    if ((both || o + 8 > in.size()) && !(e = look(q, "the other tag")).empty()) return what.str() + e;
    std::string x = written<V>(*s.t);
    if (!both && sum_of(*q.t) != q.sum) return what.str() + "the checksum in the other tag changed";
    std::string y = written<V>(*q.t);
    s.sum = sum_of(*s.t); q.sum = sum_of(*q.t);
    if (!both && y != q.bytes) return what.str() + "writing the other tag gives something else than before";
    if ((op == 14 || op == 15 || op == 17) && x != y) return what.str() + "the copy is written differently: " + h::hex((P)y.data(), std::min<std::size_t>(y.size(), 100)) + " for " + h::hex((P)x.data(), std::min<std::size_t>(x.size(), 100));
    s.bytes = x; q.bytes = y;
  }
  return "";
}
std::string check(const bytes &in)
{
  if (in.size() < 3) return "";
  return in[0] % 3 == 0 ? run<V2>(in) : in[0] % 3 == 1 ? run<V3>(in) : run<V4>(in);
}
void directed(const std::function<bool(const bytes&)> &f)
{
  for (int v = 0; v < 3; ++v)
    for (int k = 0; k < 12; k += 1 + k % 2)
      for (int op = 0; op < 24; ++op)
        for (int a = 0; a < 8; a += 2) {
          // frames of every class, then the operation, then one more
          bytes b = { (std::uint8_t)v, (std::uint8_t)k, (std::uint8_t)(k * 5 + 3) };
          for (int i = 0; i < 9; ++i) { std::uint8_t x[4] = { 1, (std::uint8_t)(i * 3), (std::uint8_t)i, (std::uint8_t)(i * 9 + a) }; b.insert(b.end(), x, x + 4); }
          for (int i = 0; i < 3; ++i) { std::uint8_t x[4] = { (std::uint8_t)(i == 1 && op != 9 ? 14 : 24), 7, (std::uint8_t)(k + i), 3 }; b.insert(b.end(), x, x + 4); }
          for (int who = 0; who < 2; ++who) { std::uint8_t x[4] = { (std::uint8_t)(op + 24 * who), (std::uint8_t)a, (std::uint8_t)(a + k), (std::uint8_t)(k * 7) }; b.insert(b.end(), x, x + 4); }
          { std::uint8_t x[4] = { 0, 1, (std::uint8_t)(a + op), 5 }; b.insert(b.end(), x, x + 4); }
          if (!f(b)) return;
        }
}
bytes random_input(rng_t &r)
{
  bytes b = { (std::uint8_t)r(), (std::uint8_t)(r() % 2 ? 0 : r()), (std::uint8_t)(r() % 2 ? 0 : r()) };
  for (int n = 1 + r() % 24; n > 0; --n) {
    b.push_back(r() % 3 == 0 ? 24 * (r() % 2) + r() % 4 : r() % 240);
    for (int i = 0; i < 3; ++i) b.push_back(r() % 2 ? r() % 16 : r());
  }
  return b;
}
bool nontrivial(const bytes &in) { return in.size() > 10; }

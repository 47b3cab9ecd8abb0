// P10: play counters
#include "harness.hh"
#include <scribbu/framesv2.hh>
#include <scribbu/framesv22.hh>
#include <scribbu/framesv23.hh>
#include <scribbu/framesv24.hh>
#include <iterator>
using scribbu::play_count;
using scribbu::popularimeter;

__attribute__((noinline)) static void dirty_stack(unsigned char x)
{
  volatile unsigned char a[4096];
  for (std::size_t i = 0; i < sizeof a; ++i) a[i] = x;
}
template <class F> __attribute__((noinline)) static std::string expect_count(const F &f, const bytes &c)
{
  for (int x : { 0xa5, 0x5a, 0 }) {
    dirty_stack(x);
    std::size_t v;
    try { v = f.count(); }
    catch (const std::domain_error&) {
      if (c.size() <= 4) return "counter refused";
      continue;
    }
    if (c.size() > 4) return "a counter longer than four bytes is accepted";
    std::size_t w = 0;
    for (auto b : c) w = w * 256 + b;
    if (v != w) { std::ostringstream m; m << "counter reads " << v << ", expected " << w; return m.str(); }
  }
  return "";
}
template <class F> static std::string out(const F &f, std::string &err)
{
  std::ostringstream os;
  std::size_t n = f.write(os);
  if (n != os.str().size()) err = "reported number of bytes differs from the number written";
  else if (f.size() != n) err = "size() differs from the number of bytes written";
  return os.str();
}
static std::string counter_of(const popularimeter &f) { std::string s; f.counterb(std::back_inserter(s)); return s; }
static std::string counter_of(const play_count &f) { std::string s; f.counterb(std::back_inserter(s)); return s; }
template <class F> static std::string after_set(const F &f, std::size_t n)
{
  if (f.count() != n) { std::ostringstream m; m << "counter set to " << n << " reads " << f.count(); return m.str(); }
  std::string err, s = out(f, err);
  if (!err.empty()) return err;
  std::vector<unsigned char> v(s.begin(), s.end());
  v.shrink_to_fit();
  F g(v.begin(), v.end());
  if (g.count() != n) { std::ostringstream m; m << "counter set to " << n << " reads " << g.count() << " after write and parse"; return m.str(); }
  std::string s2 = out(g, err);
  return s2 == s ? err : "parsed frame is written differently";
}
// input: 1 counter bytes / 2 address, rating, counter bytes / 3, 4 play_count: increment, set / 5, 6 popularimeter: increment, set
std::string check(const bytes &in)
{
  if (in.size() < 2) return "";
  std::string err;
  if (in[0] == 1) {
    bytes c(in.begin() + 2, in.end());
    play_count f(c.begin(), c.end());
    if (!(err = expect_count(f, c)).empty()) return err;
    if (out(f, err) != std::string(c.begin(), c.end())) return "bytes written differ from the counter";
    return err;
  }
  if (in[0] == 2) {
    std::size_t k = in[1];
    if (in.size() < k + 3) return "";
    std::string e;
    for (std::size_t i = 0; i < k; ++i) e += in[2 + i] ? in[2 + i] : 1;
    bytes c(in.begin() + 3 + k, in.end());
    std::string p = e + '\0' + (char)in[2 + k] + std::string(c.begin(), c.end());
    std::vector<unsigned char> v(p.begin(), p.end());
    v.shrink_to_fit();
    popularimeter f(v.begin(), v.end());
    if (!(err = expect_count(f, c)).empty()) return err;
    std::string e2; f.emailb(std::back_inserter(e2));
    if (e2 != e) return "address";
    if (f.rating() != in[2 + k]) return "rating";
    if (counter_of(f) != std::string(c.begin(), c.end())) return "counter bytes";
    if (out(f, err) != p) return "bytes written differ from address, zero, rating, counter";
    return err;
  }
  if (in[0] < 3 || in[0] > 6 || in.size() < 6) return "";
  std::size_t n = (std::size_t)in[2] << 24 | in[3] << 16 | in[4] << 8 | in[5];
  bool inc = in[0] % 2;
  if (inc && n == 0xffffffff) return "";
  std::size_t old = in[1] * 0x01010101u >> (in[1] % 4 * 8);
  if (in[0] < 5) {
    play_count f(old);
    if (f.count() != old) return "counter given on construction";
    f.count(n);
    if (inc) f.inc();
    if (!(err = after_set(f, n + inc)).empty()) return err;
    play_count g(n);
    if (inc) g.inc();
    if (!(err = after_set(g, n + inc)).empty()) return err;
    if (inc && n == 0) {
      bytes none;
      play_count h(none.begin(), none.end());
      dirty_stack(0xa5);
      h.inc();
      return after_set(h, 1);
    }
    return "";
  }
  popularimeter f("a@b.c", in[1], old);
  if (f.count() != old || f.rating() != in[1]) return "values given on construction";
  f.count(n);
  if (inc) f.inc();
  if (!(err = after_set(f, n + inc)).empty()) return err;
  std::string e; f.emailb(std::back_inserter(e));
  if (e != "a@b.c" || f.rating() != in[1]) return "address or rating changed";
  f.rating(in[5]);
  if (f.rating() != in[5] || f.count() != n + inc) return "rating";
  if (inc && n == 0) {
    unsigned char raw[] = { 'x', 0, 7 };
    popularimeter h(raw, raw + 3);
    dirty_stack(0xa5);
    h.inc();
    return after_set(h, 1);
  }
  return "";
}
static bytes num(int fn, int old, std::uint32_t n)
{
  return { (std::uint8_t)fn, (std::uint8_t)old, (std::uint8_t)(n >> 24), (std::uint8_t)(n >> 16), (std::uint8_t)(n >> 8), (std::uint8_t)n };
}
void directed(const std::function<bool(const bytes&)> &f)
{
  for (int fn = 3; fn < 7; ++fn)
    for (int b = 0; b < 33; ++b)
      for (int d = -2; d < 3; ++d)
        f(num(fn, b * 7, (std::uint32_t)((1ull << b) + d)));
  for (int k = 0; k < 7; ++k)
    for (int x : { 0, 1, 0x7f, 0x80, 0xff }) {
      bytes c = { 1, 0 };
      c.insert(c.end(), k, x);
      f(c);
      for (int e = 0; e < 3; ++e) {
        bytes p = { 2, (std::uint8_t)e };
        p.insert(p.end(), e, 'a');
        p.push_back(x);
        p.insert(p.end(), k, 255 - x);
        f(p);
      }
    }
}
bytes random_input(rng_t &r)
{
  int fn = 1 + r() % 6;
  if (fn > 2) return num(fn, r(), (std::uint32_t)(r() >> (r() % 33)));
  bytes b = { (std::uint8_t)fn, 0 };
  if (fn == 2) {
    b[1] = r() % 20;
    for (int i = 0; i <= b[1]; ++i) b.push_back(r());
  }
  for (int k = r() % 7; k > 0; --k) b.push_back(r() % 3 ? r() : 0xff * (r() % 2));
  return b;
}
bool nontrivial(const bytes &in) { return in.size() > 3; }

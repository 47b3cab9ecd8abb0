// P02: unsynchronisation
#include "harness.hh"
#include <scribbu/framesv2.hh>
#include <scribbu/id3v2.hh>
#include <algorithm>
#include <iterator>
using namespace scribbu::detail;

static bool sync2(int x, int y) { return x == 255 && y >= 0xe0; }
static bool special2(int x, int y) { return x == 255 && (y >= 0xe0 || y == 0); }
static std::size_t pairs(const bytes &b, bool false_only)
{
  std::size_t n = 0;
  for (std::size_t i = 0; i + 1 < b.size(); ++i) n += false_only ? sync2(b[i], b[i + 1]) : special2(b[i], b[i + 1]);
  return n;
}
static bytes undo(const bytes &b)
{
  bytes r;
  for (std::size_t i = 0; i < b.size(); ++i) if (!(i && b[i - 1] == 255 && b[i] == 0)) r.push_back(b[i]);
  return r;
}
static std::string check_undo(const bytes &b, const bytes &want, const char *what)
{
  unsigned char *p = new unsigned char[b.size()];
  std::copy(b.begin(), b.end(), p);
  std::size_t n = scribbu::resynchronise(p, b.size());
  std::string err;
  if (n != want.size()) err = std::string(what) + ": length";
  else if (!std::equal(want.begin(), want.end(), p)) err = std::string(what) + ": bytes";
  delete[] p;
  return err;
}
// input: 1 x y / 2 false_only word / 3 false_only bytes / 4 last bytes (apply, and undo) / 5 0 bytes (undo)
std::string check(const bytes &in)
{
  if (in.size() < 2) return "";
  bytes b(in.begin() + 2, in.end());
  b.shrink_to_fit();
  bool flag = in[1];
  if (in[0] == 1) {
    if (b.empty()) return "";
    if (is_false_sync(in[1], b[0]) != sync2(in[1], b[0])) return "false sync test of a pair";
    if (needs_unsync(in[1], b[0]) != special2(in[1], b[0])) return "test whether a pair needs unsynchronising";
    return "";
  }
  if (in[0] == 2) {
    if (b.size() < 4) return "";
    b.resize(4);
    std::uint32_t n = (std::uint32_t)b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3];
    return count_syncs(n, flag) == pairs(b, flag) ? "" : "count of a 32-bit word";
  }
  if (in[0] == 3) {
    if (count_syncs(b.begin(), b.end(), flag) != pairs(b, flag)) return "count";
    std::string s(b.begin(), b.end());
    if (count_syncs(s.data(), s.data() + s.size(), flag) != pairs(b, flag)) return "count of plain characters";
    return "";
  }
  if (in[0] == 4) {
    const bytes old = { 0xff, 7 };
    bytes o = old;
    std::size_t n = unsynchronise(std::back_inserter(o), b.begin(), b.end(), flag);
    if (n + old.size() != o.size()) return "reported number of bytes differs from the number written";
    if (!std::equal(old.begin(), old.end(), o.begin())) return "earlier output changed";
    bytes r(o.begin() + old.size(), o.end());
    for (std::size_t i = 0; i + 1 < r.size(); ++i) if (sync2(r[i], r[i + 1])) return "false sync left";
    std::size_t add = count_syncs(b.begin(), b.end(), false);
    if (flag && !b.empty() && b.back() == 255) ++add;
    if (r.size() != b.size() + add) return "number of bytes added differs from the number reported as needed";
    bytes d;
    for (std::size_t i = 0; i < b.size(); ++i) {
      d.push_back(b[i]);
      if (b[i] == 255 && (i + 1 < b.size() ? special2(255, b[i + 1]) : flag)) d.push_back(0);
    }
    if (d != r) return "bytes written";
    std::ostringstream os;
    n = unsynchronise(std::ostreambuf_iterator<char>(os), b.begin(), b.end(), flag);
    if (n != r.size() || os.str() != std::string(r.begin(), r.end())) return "bytes written to a stream";
    return check_undo(r, b, "undone");
  }
  if (in[0] == 5) return check_undo(b, undo(b), "undo");
  return "";
}
void directed(const std::function<bool(const bytes&)> &f)
{
  for (int x = 0; x < 256; ++x) for (int y = 0; y < 256; ++y) f({ 1, (std::uint8_t)x, (std::uint8_t)y });
  const int A[] = { 0xff, 0, 0xe0, 0xdf, 1 };
  for (int fn = 2; fn < 6; ++fn)
    for (int flag = 0; flag < (fn == 5 ? 1 : 2); ++flag)
      for (int n = fn == 2 ? 4 : 0; n <= (fn == 2 ? 4 : 7); ++n) {
        long m = 1; for (int i = 0; i < n; ++i) m *= 5;
        for (long c = 0; c < m; ++c) {
          bytes b = { (std::uint8_t)fn, (std::uint8_t)flag };
          long v = c;
          for (int i = 0; i < n; ++i, v /= 5) b.push_back(A[v % 5]);
          f(b);
        }
      }
  // one pair, at every place near the sizes in which code is apt to work through a buffer
  for (int fn = 3; fn < 6; ++fn)
    for (std::size_t n : { 255, 256, 257, 512, 1024, 4096, 8192, 65536 })
      for (std::size_t base : { 16u, 64u, 128u, 255u, 256u, 512u, 1024u, 2048u, 4096u, 8192u, 32768u, 65536u })
        for (int d = -3; d < 3; ++d)
          for (int y : { 0, 0xe0 }) {
            if (base + d + 1 >= n) continue;
            bytes b(n + 2, 'a');
            b[0] = fn; b[1] = d & 1 && fn != 5;
            b[2 + base + d] = 255; b[3 + base + d] = y;
            f(b);
          }
}
bytes random_input(rng_t &r)
{
  int fn = 3 + r() % 3;
  bytes b = { (std::uint8_t)fn, (std::uint8_t)(fn == 5 ? 0 : r() % 2) };
  std::size_t n = r() % 8 ? r() % 40 : r() % 4 ? r() % 1000 : r() % 20000;
  int density = 1 + r() % 12;
  const int A[] = { 0xff, 0, 0xe0, 0xff, 0, 0xdf, 0xff, 1 };
  for (std::size_t i = 0; i < n; ++i) b.push_back(r() % density ? (r() % 8 ? 'a' + r() % 26 : r()) : A[r() % 8]);
  return b;
}
bool nontrivial(const bytes &in) { return in.size() > 3 && std::find(in.begin() + 2, in.end(), 255) != in.end(); }

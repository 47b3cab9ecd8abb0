// P01: size fields
#include "harness.hh"
#include <scribbu/id3v2.hh>
using namespace scribbu::detail;

// input: kind (1 sync-safe decode, 2 plain decode, 3 encode), then bytes
std::string check(const bytes &in)
{
  if (in.empty()) return "";
  std::ostringstream m;
  if (in[0] == 3) {
    if (in.size() < 9) return "";
    std::uint64_t x = 0;
    for (int i = 0; i < 8; ++i) x |= (std::uint64_t)in[1 + i] << (8 * i);
    unsigned char b[8] = { 0xaa, 0xaa, 0xaa, 0xaa, 0x55, 0x55, 0x55, 0x55 };
    bool thrown = false;
    try { sync_safe_from_unsigned(x, b); } catch (const std::exception&) { thrown = true; }
    if (thrown != (x > 0xfffffffULL)) { m << "encoding " << x << (thrown ? " refused" : " accepted"); return m.str(); }
    if (thrown) return "";
    if (b[4] != 0x55) return "encoding writes a fifth byte";
    for (int i = 0; i < 4; ++i) if (b[i] & 0x80) { m << "encoding of " << x << " is not sync-safe"; return m.str(); }
    std::uint64_t y = ((std::uint64_t)b[0] << 21) + ((std::uint64_t)b[1] << 14) + ((std::uint64_t)b[2] << 7) + b[3];
    if (y != x) { m << "encoding of " << x << " denotes " << y; return m.str(); }
    if (unsigned_from_sync_safe(b[0], b[1], b[2], b[3]) != x) { m << "encoding of " << x << " decodes differently"; return m.str(); }
    return "";
  }
  if (in.size() < 2 || in.size() < 2u + in[1]) return "";
  int n = in[1];
  const std::uint8_t *b = in.data() + 2;
  if (in[0] == 1) {
    if (n < 3 || n > 5) return "";
    std::uint64_t want = 0;
    for (int i = 0; i < n; ++i) want = want * 128 + (b[i] & ((n == 5 && i == 0) ? 0x0f : 0x7f));
    std::uint64_t got = n == 3 ? unsigned_from_sync_safe(b[0], b[1], b[2]) :
      n == 4 ? unsigned_from_sync_safe(b[0], b[1], b[2], b[3]) : unsigned_from_sync_safe(b[0], b[1], b[2], b[3], b[4]);
    if (got != want) { m << "sync-safe " << n << " bytes: got " << got << ", want " << want; return m.str(); }
    if (n > 3) {
      got = n == 4 ? uint32_from_sync_safe(b[0], b[1], b[2], b[3]) : uint32_from_sync_safe(b[0], b[1], b[2], b[3], b[4]);
      if (got != want) { m << "sync-safe (32 bit) " << n << " bytes: got " << got << ", want " << want; return m.str(); }
    }
  } else if (in[0] == 2) {
    if (n < 3 || n > 4) return "";
    std::uint64_t want = 0;
    for (int i = 0; i < n; ++i) want = want * 256 + b[i];
    std::uint64_t g1 = n == 3 ? unsigned_from_non_sync_safe(b[0], b[1], b[2]) : unsigned_from_non_sync_safe(b[0], b[1], b[2], b[3]);
    std::uint64_t g2 = n == 3 ? uint32_from_non_sync_safe(b[0], b[1], b[2]) : uint32_from_non_sync_safe(b[0], b[1], b[2], b[3]);
    if (g1 != want || g2 != want) { m << "plain " << n << " bytes: got " << g1 << "/" << g2 << ", want " << want; return m.str(); }
  }
  return "";
}
void directed(const std::function<bool(const bytes&)> &f)
{
  // every value of every single byte position, for each width; powers of two and neighbours for encoding
  for (int kind = 1; kind <= 2; ++kind)
    for (int n = 3; n <= (kind == 1 ? 5 : 4); ++n)
      for (int pos = 0; pos < n; ++pos)
        for (int v = 0; v < 256; ++v)
          for (int other = 0; other < 256; other += 255) {
            bytes b(2 + n, (std::uint8_t)other); b[0] = kind; b[1] = n; b[2 + pos] = v;
            f(b);
          }
  for (int k = 0; k < 64; ++k)
    for (int d = -2; d <= 2; ++d) {
      std::uint64_t x = (1ULL << k) + d;
      bytes b(9); b[0] = 3;
      for (int i = 0; i < 8; ++i) b[1 + i] = x >> (8 * i);
      f(b);
    }
}
bytes random_input(rng_t &r)
{
  int kind = 1 + r() % 3;
  if (kind == 3) {
    std::uint64_t x = r() >> (r() % 64);
    bytes b(9); b[0] = 3;
    for (int i = 0; i < 8; ++i) b[1 + i] = x >> (8 * i);
    return b;
  }
  int n = 3 + r() % (kind == 1 ? 3 : 2);
  bytes b(2 + n); b[0] = kind; b[1] = n;
  for (int i = 0; i < n; ++i) b[2 + i] = r();
  return b;
}
bool nontrivial(const bytes &in) { return in.size() > 4; }

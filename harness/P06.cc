// P06: URL encoding
#include "harness.hh"
#include <scribbu/scribbu.hh>

static bool unreserved(unsigned char c)
{
  return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.' || c == '~';
}
static int digit(unsigned char c)
{
  return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
// input: 1 text to encode / 2 text to decode
std::string check(const bytes &in)
{
  if (in.empty()) return "";
  std::string s(in.begin() + 1, in.end());
  if (in[0] == 1) {
    std::string e = scribbu::urlencode(s);
    for (std::size_t i = 0; i < e.size(); ++i) {
      if (unreserved(e[i])) continue;
      if (e[i] != '%' || i + 2 >= e.size() || digit(e[i + 1]) < 0 || digit(e[i + 2]) < 0) return "unsafe character in the encoding: " + e;
      if (unreserved(digit(e[i + 1]) * 16 + digit(e[i + 2]))) return "an unreserved character is encoded: " + e;
      i += 2;
    }
    if (scribbu::urldecode(e) != s) return "decoding does not give the text back: " + e;
    return "";
  }
  if (in[0] != 2) return "";
  std::string want;
  bool ok = true;
  for (std::size_t i = 0; i < s.size() && ok; ++i) {
    if (s[i] != '%') want += s[i];
    else if (i + 1 < s.size() && s[i + 1] == '%') { want += '%'; ++i; }
    else if (i + 2 < s.size() && digit(s[i + 1]) >= 0 && digit(s[i + 2]) >= 0) { want += (char)(digit(s[i + 1]) * 16 + digit(s[i + 2])); i += 2; }
    else ok = false;
  }
  try {
    std::string d = scribbu::urldecode(s);
    if (!ok) return "wrong text accepted";
    if (d != want) return "decoded text";
  } catch (const std::exception&) {
    if (ok) return "right text refused";
  }
  return "";
}
void directed(const std::function<bool(const bytes&)> &f)
{
  f({ 1 }); f({ 2 });
  for (int a = 0; a < 256; ++a) {
    f({ 1, (std::uint8_t)a });
    f({ 2, (std::uint8_t)a });
    for (int b = 0; b < 256; ++b) {
      f({ 1, (std::uint8_t)a, (std::uint8_t)b });
      f({ 2, '%', (std::uint8_t)a, (std::uint8_t)b });
      f({ 2, 'x', '%', (std::uint8_t)a, (std::uint8_t)b, 'y' });
    }
  }
  const char A[] = "%4aFgG";
  for (int n = 0; n <= 6; ++n) {
    long m = 1; for (int i = 0; i < n; ++i) m *= 6;
    for (long c = 0; c < m; ++c) {
      bytes b = { 2 };
      long v = c;
      for (int i = 0; i < n; ++i, v /= 6) b.push_back(A[v % 6]);
      f(b);
    }
  }
  for (std::size_t n : { 255, 256, 1023, 1024, 4096, 65536 })
    for (int c : { 0x61, 0x25, 0, 0xff }) { bytes b(n + 1, c); b[0] = 1; f(b); }
}
bytes random_input(rng_t &r)
{
  bytes b = { (std::uint8_t)(1 + r() % 2) };
  std::size_t n = r() % 10 ? r() % 30 : r() % 2000;
  const char A[] = "%%%0123456789abcdefABCDEF";
  for (std::size_t i = 0; i < n; ++i) b.push_back(r() % 3 ? A[r() % (sizeof A - 1)] : r());
  return b;
}
bool nontrivial(const bytes &in) { return in.size() > 2; }

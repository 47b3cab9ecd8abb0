// P08: JSON strings
#include "harness.hh"
#include <scribbu/json-pprinter.hh>

static int digit(unsigned char c)
{
  return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
static std::string decode(const std::string &e, std::string &out)
{
  for (std::size_t i = 0; i < e.size(); ++i) {
    unsigned char c = e[i];
    if (c < 0x20) return "control character left as it is";
    if (c == '"') return "quote left as it is";
    if (c != '\\') { out += c; continue; }
    if (++i >= e.size()) return "backslash at the end";
    switch (e[i]) {
    case '"': case '\\': case '/': out += e[i]; break;
    case 'b': out += '\b'; break;
    case 'f': out += '\f'; break;
    case 'n': out += '\n'; break;
    case 'r': out += '\r'; break;
    case 't': out += '\t'; break;
    case 'u': {
      unsigned v = 0;
      for (int k = 1; k <= 4; ++k) {
        if (i + k >= e.size() || digit(e[i + k]) < 0) return "\\u without four digits";
        v = v * 16 + digit(e[i + k]);
      }
      i += 4;
      if (v < 0x80) out += (char)v;
      else if (v < 0x800) { out += (char)(0xc0 | v >> 6); out += (char)(0x80 | (v & 63)); }
      else { out += (char)(0xe0 | v >> 12); out += (char)(0x80 | (v >> 6 & 63)); out += (char)(0x80 | (v & 63)); }
      break;
    }
    default: return "unknown escape";
    }
  }
  return "";
}
// input: the text
std::string check(const bytes &in)
{
  std::string s(in.begin(), in.end()), out;
  std::string e = scribbu::json_pprinter::escape(s);
  std::string err = decode(e, out);
  if (!err.empty()) return err;
  return out == s ? "" : "decodes to other text";
}
void directed(const std::function<bool(const bytes&)> &f)
{
  f({});
  for (int a = 0; a < 256; ++a) {
    f({ (std::uint8_t)a });
    for (int b = 0; b < 256; ++b) f({ (std::uint8_t)a, (std::uint8_t)b });
  }
  const int A[] = { '"', '\\', 'n', '\n', 0, 'u', 0xc3 };
  for (int n = 3; n <= 6; ++n) {
    long m = 1; for (int i = 0; i < n; ++i) m *= 7;
    for (long c = 0; c < m; ++c) {
      bytes b;
      long v = c;
      for (int i = 0; i < n; ++i, v /= 7) b.push_back(A[v % 7]);
      f(b);
    }
  }
  for (std::size_t n : { 255, 256, 1024, 4096, 65536 })
    for (int c : { 0x61, 0x22, 1 }) f(bytes(n, c));
}
bytes random_input(rng_t &r)
{
  bytes b;
  std::size_t n = r() % 10 ? r() % 30 : r() % 2000;
  const char A[] = "\"\\\b\f\n\r\tbfnrtu/";
  for (std::size_t i = 0; i < n; ++i) b.push_back(r() % 2 ? A[r() % (sizeof A - 1)] : r());
  return b;
}
bool nontrivial(const bytes &in) { return in.size() > 1; }

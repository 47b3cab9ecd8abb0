// P07: CSV fields
#include "harness.hh"
#include <scribbu/csv-pprinter.hh>

/// A reader: one field from the start of `s' (which a separator or the end must follow).
static bool read_field(const std::string &s, char sep, char q, std::string &out)
{
  out.clear();
  if (s.empty() || s[0] != q) return false;
  for (std::size_t i = 1; i < s.size(); ++i) {
    if (s[i] != q) { out += s[i]; continue; }
    if (i + 1 < s.size() && s[i + 1] == q) { out += q; ++i; continue; }
    return i + 1 == s.size();
  }
  return false;
}
// input: separator, quote, text
std::string check(const bytes &in)
{
  if (in.size() < 2 || in[0] == 0 || in[0] == in[1]) return "";
  char sep = in[0], q = in[1];
  std::string s(in.begin() + 2, in.end());
  bool special = s.find_first_of(std::string("\n\r") + sep) != std::string::npos;
  std::string e = scribbu::csv_pprinter::escape(s, sep, q), back;
  if (!special) return e == s ? "" : "text that needs no quotes is changed";
  if (e.size() < 2 || e[0] != q || e.back() != q) return "not in quotes: " + e;
  if (!read_field(e, sep, q, back)) return "not one field: " + e;
  return back == s ? "" : "a reader gets other text: " + e;
}
void directed(const std::function<bool(const bytes&)> &f)
{
  const int A[] = { ',', '"', 'a', '\n', '\r', 0 };
  for (int n = 0; n <= 6; ++n) {
    long m = 1; for (int i = 0; i < n; ++i) m *= 6;
    for (long c = 0; c < m; ++c) {
      bytes b = { ',', '"' };
      long v = c;
      for (int i = 0; i < n; ++i, v /= 6) b.push_back(A[v % 6]);
      f(b);
    }
  }
  for (int sep = 1; sep < 256; ++sep)
    for (int c = 0; c < 256; ++c) { f({ (std::uint8_t)sep, '"', 'x', (std::uint8_t)c, 'y' }); f({ (std::uint8_t)sep, '\'', (std::uint8_t)c, (std::uint8_t)sep, (std::uint8_t)c }); }
}
bytes random_input(rng_t &r)
{
  const char S[] = ",;\t|!#/", Q[] = "\"\"\"'`";
  bytes b = { (std::uint8_t)S[r() % 7], (std::uint8_t)Q[r() % 5] };
  std::size_t n = r() % 10 ? r() % 30 : r() % 2000;
  const std::uint8_t A[] = { b[0], b[1], b[1], '\n', '\r', '"', 0 };
  int d = 1 + r() % 9;
  for (std::size_t i = 0; i < n; ++i) b.push_back(r() % d ? (r() % 8 ? 'a' + r() % 26 : r()) : A[r() % 7]);
  return b;
}
bool nontrivial(const bytes &in) { return in.size() > 3; }

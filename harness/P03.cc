// P03: ID3v2 detection
#include "harness.hh"
#include "streams.hh"
#include <scribbu/id3v2.hh>

// input: restore flag, exception mask, position, content
std::string check(const bytes &in)
{
  if (in.size() < 3) return "";
  bool restore = in[0] & 1;
  std::ios_base::iostate mask = mask_of(in[1]);
  std::string data(in.begin() + 3, in.end());
  std::size_t pos = std::min<std::size_t>(in[2], data.size());
  for (int kind = 0; kind < 2; ++kind) {
    any_stream S(kind, data);
    std::istream &is = S.get();
    is.seekg(pos);
    is.exceptions(mask);
    scribbu::id3v2_info H;
    try { H = scribbu::looking_at_id3v2(is, restore); } catch (const std::exception &e) { return std::string("throws: ") + e.what(); }
    const unsigned char *b = (const unsigned char*)data.data() + pos;
    bool want = data.size() - pos >= 10 && b[0] == 'I' && b[1] == 'D' && b[2] == '3' && b[3] != 0xff && b[4] != 0xff &&
      b[6] < 0x80 && b[7] < 0x80 && b[8] < 0x80 && b[9] < 0x80;
    if (H.present_ != want) return want ? "valid header not reported" : "tag reported where there is none";
    if (want) {
      std::uint32_t n = ((b[6] * 128u + b[7]) * 128u + b[8]) * 128u + b[9];
      if (H.version_ != b[3] || H.revision_ != b[4] || H.flags_ != b[5] || H.size_ != n) return "wrong version, revision, flags or size";
    }
    if (is.exceptions() != mask) return "exception mask not restored";
    if (!is.good()) return "stream not usable";
    std::streamoff at = is.tellg();
    if (at != (std::streamoff)((want && !restore) ? pos + 10 : pos)) return "wrong read position";
  }
  return "";
}
static bytes make(int restore, int mask, int pos, const std::string &s)
{
  bytes b = { (std::uint8_t)restore, (std::uint8_t)mask, (std::uint8_t)pos };
  b.insert(b.end(), s.begin(), s.end());
  return b;
}
void directed(const std::function<bool(const bytes&)> &f)
{
  for (int restore = 0; restore < 2; ++restore)
    for (int mask = 0; mask < 8; ++mask)
      for (int pos = 0; pos < 3; ++pos) {
        std::string pre(pos, 'x');
        for (int len = 0; len <= 12; ++len) {
          std::string h = std::string("ID3\x03\x00\x40\x01\x02\x03\x04zz", 12).substr(0, len);
          f(make(restore, mask, pos, pre + h));
          for (int i = 0; i < len; ++i)
            for (int v : { 0, 1, 0x49, 0x44, 0x33, 0x7f, 0x80, 0x81, 0xfe, 0xff }) {
              std::string g = h; g[i] = v;
              f(make(restore, mask, pos, pre + g));
            }
        }
      }
}
bytes random_input(rng_t &r)
{
  std::string s = std::string(r() % 5, 'q') + std::string("ID3\x04\x00", 5);
  int n = r() % 12;
  for (int i = 0; i < n; ++i) s += (char)(r() % 3 ? r() % 128 : r() % 256);
  for (int k = r() % 3; k > 0; --k) s[r() % s.size()] = (char)r();
  return make(r() % 2, r() % 8, r() % 6, s);
}
bool nontrivial(const bytes &in) { return in.size() >= 13; }

// P21: tag clouds: what is stored, refused, and written as text
#include "harness.hh"
#include <scribbu/framesv2.hh>
#include <map>
#include <set>

typedef std::map<std::string, std::set<std::string>> tags;

// the layout: version, owner up to a null; for each tag its name up to a null, four bytes with the length of its values, its values up to a null each
static bool layout(const bytes &b, std::string &own, tags &m)
{
  std::size_t p = 1, n = b.size();
  auto text = [&](std::string &s) {
    s.clear();
    while (p < n && b[p]) s += (char)b[p++];
    return p < n ? (++p, true) : false;
  };
  if (0 == n || !text(own)) return false;
  while (p < n) {
    std::string k, v;
    if (!text(k) || n - p < 4) return false;
    std::size_t cb = (std::size_t)b[p] << 24 | b[p + 1] << 16 | b[p + 2] << 8 | b[p + 3];
    p += 4;
    std::set<std::string> vs;
    if (n - p < cb) return false;
    std::size_t end = p + cb;
    while (p < end) {
      if (!text(v) || p > end) return false;
      vs.insert(v);
    }
    m[k] = vs;
  }
  return true;
}
static std::string encode(const std::string &s)
{
  std::string o;
  for (unsigned char c : s) {
    if ((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '-' || c == '_' || c == '.' || c == '~') o += c;
    else { char x[4]; std::snprintf(x, sizeof x, "%%%02X", c); o += x; }
  }
  return o;
}
// the text of some tags; lower case digits as well
static std::string text_of(const tags &m)
{
  std::string o;
  for (auto i = m.begin(); i != m.end(); ++i) {
    if (i != m.begin()) o += '&';
    o += encode(i->first);
    for (auto j = i->second.begin(); j != i->second.end(); ++j) o += (j == i->second.begin() ? "=" : ",") + encode(*j);
  }
  return o;
}
static std::string differs(const scribbu::tag_cloud &c, const std::string &own, const tags &m, const char *what)
{
  if (c.owner() != own) return std::string("owner ") + what;
  if (tags(c.begin(), c.end()) != m) return std::string("tags ") + what;
  for (const auto &kv : m) {
    if (!c.has_key(kv.first)) return std::string("a tag not found ") + what;
    for (const auto &v : kv.second) if (!c.has_value(kv.first, v)) return std::string("a value not found ") + what;
  }
  if (c.has_key("nosuch") != (0 != m.count("nosuch")) || c.has_value("nosuch", "a")) return std::string("a tag found that is not there ") + what;
  return "";
}
// pairs of bytes that unsynchronisation separates, or the false syncs among them
static std::size_t pairs(const std::string &s, bool only)
{
  std::size_t k = 0;
  for (std::size_t i = 0; i + 1 < s.size(); ++i) {
    unsigned char x = s[i], y = s[i + 1];
    if (x == 0xff && (y >= 0xe0 || (!only && y == 0))) ++k;
  }
  return k;
}
static std::string whole(const scribbu::tag_cloud &c, const std::string &own, const tags &m)
{
  std::string e = differs(c, own, m, "after the edits");
  if (!e.empty()) return e;
  std::stringstream os;
  std::size_t cb = c.write(os);
  std::string s = os.str(), own1;
  bytes b(s.begin(), s.end());
  if (cb != s.size() || c.size() != s.size() || c.serialized_size(false) != s.size()) return "size";
  if (c.serialized_size(true) != s.size() + pairs(s, false)) return "size with unsynchronisation";
  if (c.needs_unsynchronisation() != pairs(s, true)) return "number of false syncs";
  tags m1;
  if (!layout(b, own1, m1) || b[0] != 1 || own1 != own || m1 != m) return "bytes written";
  e = differs(scribbu::tag_cloud(b.data(), b.data() + b.size()), own, m, "after being written and read");
  if (!e.empty() || m.empty()) return e;
  std::string u = c.urlencoded();
  e = differs(scribbu::tag_cloud(own, u), own, m, "after being written as text and read");
  return e;
}
static const char *const WORDS[] = { "", "a", "b", "c", "rock", "90s", "a&b", "x=y", "1,2", "100%", "%41", "sub genres", "+", "\xff\xe0", "\xc3\xa9t\xc3\xa9", "A", "~-_.", "/?#" };
static const unsigned NW = sizeof WORDS / sizeof *WORDS;

// input: 1 bytes of a tag cloud / 2 edits: operation and operands / 3 a length and a character: one long value / 4 a cloud, as its layout
std::string check(const bytes &in)
{
  if (in.empty()) return "";
  if (in[0] == 1) {
    bytes b(in.begin() + 1, in.end());
    b.shrink_to_fit();
    std::string own;
    tags m;
    bool ok = layout(b, own, m);
    try {
      scribbu::tag_cloud c(b.data(), b.data() + b.size());
      if (!ok) return "a damaged tag cloud is accepted";
      return differs(c, own, m, "read");
    } catch (const std::invalid_argument&) {
      return ok ? "a proper tag cloud is refused" : "";
    }
  }
  if (in[0] == 3 && in.size() >= 4) {
    tags m = { { "k", { std::string((std::size_t)in[1] << 8 | in[2], (char)(in[3] ? in[3] : 1)) } }, { "z", { } } };
    scribbu::tag_cloud c("me", m.begin(), m.end());
    return whole(c, "me", m);
  }
  if (in[0] == 4) {
    std::string own;
    tags m;
    if (!layout(bytes(in.begin() + 1, in.end()), own, m)) return "";
    return whole(scribbu::tag_cloud(own, m.begin(), m.end()), own, m);
  }
  if (in[0] != 2 || in.size() < 2) return "";
  std::size_t p = 1;
  auto word = [&]() { unsigned k = p < in.size() ? in[p++] : 0; std::string w = WORDS[k % NW]; if (k >= 128) w += (char)(k % 7 + 'f'); return w; };
  auto some = [&]() {
    tags m;
    unsigned n = p < in.size() ? in[p++] % 4 : 1;
    for (unsigned i = 0; i < n + (0 == i); ++i) {
      std::set<std::string> &v = m[word()];
      unsigned k = p < in.size() ? in[p++] % 4 : 0;
      for (unsigned j = 0; j < k; ++j) v.insert(word());
    }
    return m;
  };
  std::string own = word();
  tags m;
  scribbu::tag_cloud c(own, m.begin(), m.end());
  while (p < in.size()) {
    switch (in[p++] % 6) {
    case 0: { std::string k = word(); if (c.add_key(k) != (0 == m.count(k))) return "answer of adding a tag"; m[k]; break; }
    case 1: { std::string k = word(), v = word(); bool had = m.count(k) && m[k].count(v); if (c.add_value(k, v) == had) return "answer of adding a value"; m[k].insert(v); break; }
    case 2: { tags t = some(); c.merge(text_of(t)); for (const auto &kv : t) m[kv.first].insert(kv.second.begin(), kv.second.end()); break; }
    case 3: { m = some(); c.update(text_of(m)); break; }
    case 4: { m = some(); c = scribbu::tag_cloud(own, text_of(m)); break; }
    case 5: { m = some(); c = scribbu::tag_cloud(own, m.begin(), m.end()); break; }
    }
  }
  return whole(c, own, m);
}
void directed(const std::function<bool(const bytes&)> &f)
{
  f({ 1 });
  f({ 2, 1 });
  const std::uint8_t A[] = { 0, 1, 2, 'a' };
  for (int n = 1; n <= 7; ++n)
    for (int c = 0; c < (1 << (2 * n)); ++c) {
      bytes b = { 1, 1 };
      for (int i = 0; i < n; ++i) b.push_back(A[c >> (2 * i) & 3]);
      f(b);
    }
  // one and two tags, with right and wrong lengths, cut anywhere
  const bytes B[] = { { 1, 1, 'o', 0, 'k', 0, 0, 0, 0, 4, 'v', 0, 'w', 0 }, { 1, 1, 0, 'k', 0, 0, 0, 0, 0, 'l', 0, 0, 0, 0, 2, 'x', 0 },
                      { 1, 1, 0, 'k', 0, 0, 0, 0, 1, 0, 'k', 0, 0, 0, 0, 2, 'x', 0 }, { 1, 1, 0, 0, 0, 0, 0, 0 }, { 1, 1, 0, 'k', 0, 0, 0, 1, 0 } };
  for (bytes b : B) {
    for (std::size_t n = 1; n <= b.size(); ++n) f(bytes(b.begin(), b.begin() + n));
    for (std::size_t i = 1; i < b.size(); ++i)
      for (int x : { 0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0xfe, 0xff }) { bytes d(b); d[i] = x; f(d); }
  }
  for (bytes b : B) { b[0] = 4; f(b); }
  // long names, many tags and values
  for (std::size_t n : { 127, 128, 255, 256, 257, 65535, 65536 }) {
    bytes b = { 4, 1, 'o', 0 };
    b.insert(b.end(), n, 'k');
    for (std::uint8_t x : { 0, 0, 0, 0, 2, 'v' + 0, 0 }) b.push_back(x);
    f(b);
    b[0] = 1;
    f(b);
  }
  for (int n : { 127, 128, 255, 256, 257, 300 }) {
    bytes b = { 4, 1, 0 }, d = { 4, 1, 0, 'k', 0, 0, 0, (std::uint8_t)(3 * n >> 8), (std::uint8_t)(3 * n) };
    for (int i = 0; i < n; ++i) {
      for (int x : { 1 + i / 100, 1 + i % 100, 0, 0, 0, 0, 0 }) b.push_back(x);
      for (int x : { 1 + i / 100, 1 + i % 100, 0 }) d.push_back(x);
    }
    f(b); f(d);
    b[0] = d[0] = 1;
    f(b); f(d);
  }
  bytes big = { 1, 1, 'o', 0, 'k', 0, 0, 1, 2, 3 };
  big.resize(big.size() + 0x10203, 'q');
  big.back() = 0;
  f(big);
  for (int n : { 0, 1, 2, 253, 254, 255, 256, 257, 511, 512, 1023, 65534, 65535 })
    for (int c : { 0x61, 0xff, 0xe0, 0x25 }) f({ 3, (std::uint8_t)(n >> 8), (std::uint8_t)n, (std::uint8_t)c });
  for (unsigned a = 0; a < NW; ++a)
    for (unsigned k = 0; k < NW; ++k) {
      const std::uint8_t x = a, y = k;
      f({ 2, 4, 0, x, 1, x, y });
      f({ 2, 4, 1, x, y, 1, x, x, 2, 2, x, 2, y, 3, y, 1, 4 });
      f({ 2, 4, 1, 1, x, 1, 1, y, 1, 2, x });
      f({ 2, 4, 3, 2, x, 1, y, y, 2, x, 5 });
      f({ 2, 4, 1, 1, 1, 2, 2, x, 0, y, 1, 3 });
    }
}
bytes random_input(rng_t &r)
{
  if (r() % 2) {
    bytes b = { 1, (std::uint8_t)(r() % 4 ? 1 : r()) };
    auto text = [&]() { for (int n = r() % 5; n > 0; --n) b.push_back('a' + r() % 5); b.push_back(0); };
    text();
    for (int t = r() % 4; t > 0; --t) {
      text();
      std::size_t at = b.size();
      b.insert(b.end(), 4, 0);
      for (int v = r() % 4; v > 0; --v) text();
      std::size_t n = b.size() - at - 4;
      if (0 == r() % 12) n += r() % 7 - 3;
      for (int i = 0; i < 4; ++i) b[at + i] = n >> (24 - 8 * i);
    }
    if (0 == r() % 6) b.resize(1 + r() % b.size());
    if (0 == r() % 6) b[1 + r() % b.size() % (b.size() > 1 ? b.size() - 1 : 1)] = r();
    return b;
  }
  if (0 == r() % 20) return { 3, (std::uint8_t)(r() % 8), (std::uint8_t)r(), (std::uint8_t)r() };
  bytes b = { 2 };
  for (int n = r() % 30; n > 0; --n) b.push_back(r());
  return b;
}
bool nontrivial(const bytes &in) { return in.size() > 3; }

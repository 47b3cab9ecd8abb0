// P11: redistribution of padding, sizes of tag sets
#include "harness.hh"
#include <memory>
#include <tuple>
#include <scribbu/scribbu.hh>
#include <scribbu/tagset.hh>
#include <scribbu/id3v2-utils.hh>
#include <scribbu/id3v22.hh>
#include <scribbu/id3v23.hh>
#include <scribbu/id3v24.hh>
using namespace scribbu;

typedef unsigned long long u64;
static u64 be(const bytes &in, std::size_t at, int n)
{
  u64 v = 0;
  for (int i = 0; i < n; ++i) v = v << 8 | in[at + i];
  return v;
}
static id3v2_tag* make(u64 pad, bool syncs)
{
  static const unsigned char text[] = { 0, 'a', 0xff, 0xff, 0xe1, 0xff };
  std::size_t n = syncs ? sizeof text : 2;
  if (pad % 3 == 0) {
    auto *p = new id3v2_2_tag();
    p->push_back(id3v2_2_text_frame(frame_id3("TT2"), text, text + n));
    return p;
  }
  if (pad % 3 == 1) {
    auto *p = new id3v2_3_tag();
    p->push_back(id3v2_3_text_frame(frame_id4("TIT2"), text, text + n, id3v2_3_frame::tag_alter_preservation::preserve, id3v2_3_frame::file_alter_preservation::preserve, id3v2_3_frame::read_only::clear, id3v2_3_frame::id_type(), id3v2_3_frame::id_type(), id3v2_3_frame::opt_sz_type()));
    return p;
  }
  return new id3v2_4_tag();
}
static std::string num(const char *what, u64 a, u64 b)
{
  std::ostringstream m;
  m << what << ' ' << a << ", expected " << b;
  return m.str();
}
// input: 1, requested size (8), current size (8) / 2, unsynchronisation / 3, flag; then number of tags, padding of each (5)
std::string check(const bytes &in)
{
  if (in.empty()) return "";
  std::size_t at = in[0] == 1 ? 17 : 2;
  if (in.size() < at + 1 || in.size() < at + 1 + 5 * in[at]) return "";
  std::size_t n = in[at];
  std::vector<std::unique_ptr<id3v2_tag>> own;
  std::vector<id3v2_tag*> tags;
  std::vector<u64> old;
  u64 all = 0;
  for (std::size_t i = 0; i < n; ++i) {
    u64 p = be(in, at + 1 + 5 * i, 5);
    own.emplace_back(make(p, (i + p) % 2));
    tags.push_back(own.back().get());
    tags.back()->padding(p);
    if (tags.back()->padding() != p) return num("padding set reads", tags.back()->padding(), p);
    old.push_back(p);
    all += p;
  }
  if (in[0] == 1) {
    if (n == 0) return "";
    u64 a = be(in, 1, 8), b = be(in, 9, 8);
    if (a >> 62 || b >> 62) return "";
    long long total = (long long)a - (long long)b, adj = total / (long long)n, mu = total % (long long)n;
    bool enough = true;
    for (std::size_t i = 0; i < n; ++i) enough = enough && (long long)old[i] + adj + (i ? 0 : mu) >= 0;
    try { adjust_padding_to(tags.begin(), tags.end(), a, b, padding_strategy::adjust_padding_evenly); }
    catch (const std::exception&) { return enough ? "refused although every tag has enough padding" : ""; }
    u64 now = 0;
    for (auto p : tags) now += p->padding();
    if (now != all + total) return num("total padding", now, all + total);
    for (std::size_t i = 0; i < n; ++i) {
      u64 g = tags[i]->padding();
      if (g > old[i] + (total > 0 ? (u64)total : 0)) return num("padding wrapped around or grew:", g, old[i]);
    }
    return enough ? "" : "not refused although some tag has too little padding";
  }
  if (in[0] == 2) {
    if (in[1] > 2) return "";
    apply_unsync u = in[1] == 0 ? apply_unsync::always : in[1] == 1 ? apply_unsync::never : apply_unsync::as_needed;
    std::size_t sz, pad;
    std::tie(sz, pad) = tagset_sizes(tags.begin(), tags.end(), u);
    u64 want = 0;
    for (auto p : tags) want += 10 + p->size(u == apply_unsync::always || (u == apply_unsync::as_needed && p->needs_unsynchronisation()));
    if (sz != want) return num("size", sz, want);
    if (pad != all) return num("padding", pad, all);
    return "";
  }
  if (in[0] == 3) {
    std::size_t sz, pad;
    std::tie(sz, pad) = total_id3v2_size(tags.begin(), tags.end(), in[1] != 0);
    u64 want = 0;
    for (auto p : tags) want += p->size(in[1] != 0);
    if (sz != want) return num("size", sz, want);
    if (pad != all) return num("padding", pad, all);
  }
  return "";
}
bool nontrivial(const bytes &in) { return in.size() >= 3 && in[0] >= 1 && in[0] <= 3; }
static void put(bytes &b, u64 v, int n) { while (n--) b.push_back((std::uint8_t)(v >> (8 * n))); }
static bytes adjust(u64 a, u64 c, const std::vector<u64> &p)
{
  bytes b { 1 };
  put(b, a, 8); put(b, c, 8);
  b.push_back((std::uint8_t)p.size());
  for (auto x : p) put(b, x, 5);
  return b;
}
static bytes sizes(int k, int u, const std::vector<u64> &p)
{
  bytes b { (std::uint8_t)k, (std::uint8_t)u, (std::uint8_t)p.size() };
  for (auto x : p) put(b, x, 5);
  return b;
}
void directed(const std::function<bool(const bytes&)> &f)
{
  std::vector<std::vector<u64>> sets { { 0 }, { 1 }, { 7 }, { 1000 }, { 0, 0 }, { 0, 9 }, { 9, 0 }, { 3, 4 }, { 1000, 1000 }, { 0, 1, 2 }, { 2, 1, 0 },
    { 100, 3, 100 }, { 5, 5, 5, 5 }, { 1, 0, 0, 0, 0 }, { 50, 60, 70, 80, 90, 100, 110 }, { (u64)1 << 39, 1 } };
  for (auto &s : sets) {
    for (long long d = -40; d <= 40; ++d) if (!f(adjust(4096 + d, 4096, s))) return;
    for (u64 d : { 255, 256, 1000, 4096, 65535, 1 << 20 }) {
      if (!f(adjust(4096 + d, 4096, s))) return;
      if (!f(adjust(100, 100 + d, s))) return;
    }
    for (u64 d : { (u64)1 << 31, (u64)1 << 32, ((u64)1 << 33) + 1, (u64)1 << 40, (u64)1 << 61 })
      if (!f(adjust(d, 10, s)) || !f(adjust(10, d, s))) return;
    for (int u = 0; u < 3; ++u) if (!f(sizes(2, u, s)) || !f(sizes(3, u, s))) return;
  }
  for (int u = 0; u < 3; ++u) if (!f(sizes(2, u, {})) || !f(sizes(3, u, {}))) return;
}
bytes random_input(rng_t &r)
{
  std::size_t n = r() % 9;
  std::vector<u64> p;
  int w = 1 + r() % 38;
  for (std::size_t i = 0; i < n; ++i) p.push_back(r() & (((u64)1 << (r() % 4 ? w : 1 + r() % 38)) - 1));
  int k = 1 + r() % 3;
  if (k > 1) return sizes(k, r() % 3, p);
  u64 b = r() & (((u64)1 << (w + 2)) - 1), a = r() % 2 ? b + r() % 64 : r() & (((u64)1 << (w + 1)) - 1);
  if (r() % 3 == 0) a = b - std::min<u64>(b, r() % 64);
  return adjust(a, b, p);
}

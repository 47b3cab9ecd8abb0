// P12: splitting a file; every file is written in a scratch directory that is removed again
#include "harness.hh"
#include <dirent.h>
#include <fstream>
#include <map>
#include "split.cc"

// the command line part of the real source is not exercised here: its helpers do nothing
void print_usage(std::ostream&, const boost::program_options::options_description&, const std::string&) { }
void maybe_handle_help(const boost::program_options::parsed_options&, const boost::program_options::options_description&,
                       const std::string&, const std::string&, const std::string&) { }
register_command::register_command(const std::string&, handler_type) { }

// the sanitizer's allocator aborts on sizes beyond reason; the usual one throws
void* operator new[](std::size_t n) { if (n >> 40) throw std::bad_alloc(); if (void *p = std::malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }

class workdir {
public:
  workdir() {
    std::string t = scratch_dir() + "/split-XXXXXX";
    if (!mkdtemp(&t[0])) std::abort();
    dir_ = t;
    if (chdir(t.c_str())) std::abort();
  }
  ~workdir() {
    for (auto &n : names()) ::unlink((dir_ + "/" + n).c_str());
    if (chdir("/")) std::abort();
    ::rmdir(dir_.c_str());
  }
  std::vector<std::string> names() const {
    std::vector<std::string> v;
    if (DIR *d = opendir(dir_.c_str())) {
      while (dirent *e = readdir(d)) if (e->d_name[0] != '.') v.push_back(e->d_name);
      closedir(d);
    }
    return v;
  }
  const std::string &dir() const { return dir_; }
private:
  std::string dir_;
};
static std::string slurp(const std::string &p)
{
  std::ifstream f(p, std::ios_base::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
// input: suffix (0-3), then the content of the file
std::string check(const bytes &in)
{
  if (in.empty()) return "";
  static const char *S[] = { "", "1", ".mp3", "0x" };
  std::string suffix = S[in[0] & 3], data(in.begin() + 1, in.end());
  std::size_t n = data.size(), p = 0;
  std::map<std::string, std::string> want;
  bool bad = false;
  auto at = [&](std::size_t i) { return (unsigned)(unsigned char)data[i]; };
  for (unsigned k = 0; p + 10 <= n; ++k) {
    if (data.compare(p, 3, "ID3") || at(p + 3) == 0xff || at(p + 4) == 0xff) break;
    std::size_t sz = 0;
    bool ok = true;
    for (int i = 6; i < 10; ++i) { ok = ok && at(p + i) < 0x80; sz = sz * 128 + at(p + i); }
    if (!ok) break;
    if (p + 10 + sz > n) { bad = true; break; }
    want["id3v2" + std::to_string(k) + suffix] = data.substr(p, 10 + sz);
    p += 10 + sz;
  }
  std::size_t start = n;
  if (n >= 355 && 0 == data.compare(n - 355, 4, "TAG+")) start = n - 355;
  else if (n >= 128 && 0 == data.compare(n - 128, 3, "TAG")) start = n - 128;
  if (!bad && start < p) bad = true;
  if (!bad) {
    want["track" + suffix] = data.substr(p, start - p);
    if (start < n) want["id3v1" + suffix] = data.substr(start);
  }
  workdir W;
  { std::ofstream f(W.dir() + "/.in", std::ios_base::binary); f << data; }
  struct rm { std::string p; ~rm() { ::unlink(p.c_str()); } } R { W.dir() + "/.in" };
  try { split_file(W.dir() + "/.in", suffix); }
  catch (const std::exception &ex) { return bad ? "" : std::string("refused: ") + ex.what(); }
  if (bad) return "a tag that runs past the end of the file or into the ID3v1 tag is not refused";
  std::map<std::string, std::string> got;
  for (auto &s : W.names()) got[s] = slurp(W.dir() + "/" + s);
  if (got == want) return "";
  for (auto &w : want) {
    if (!got.count(w.first)) return "piece " + w.first + " missing";
    if (got[w.first] != w.second) {
      std::ostringstream m;
      m << "piece " << w.first << " has " << got[w.first].size() << " bytes, expected " << w.second.size() << (got[w.first].size() == w.second.size() ? " (content differs)" : "");
      return m.str();
    }
  }
  return "unexpected piece";
}
bool nontrivial(const bytes &in) { return in.size() >= 1; }
static std::string tag(std::size_t sz, std::size_t have, int ver = 3)
{
  std::string s = "ID3";
  s += (char)ver; s += '\0'; s += '\0';
  for (int i = 3; i >= 0; --i) s += (char)(sz >> (7 * i) & 0x7f);
  for (std::size_t i = 0; i < have; ++i) s += (char)(i * 7 + sz);
  return s;
}
static std::string id3v1(int what)
{
  std::string t(what == 2 ? 355 : what == 1 ? 128 : 0, ' ');
  if (what == 2) t.replace(0, 4, "TAG+"), t.replace(227, 3, "TAG");
  if (what == 1) t.replace(0, 3, "TAG");
  return t;
}
static bytes make(int sfx, const std::string &s)
{
  bytes b { (std::uint8_t)sfx };
  b.insert(b.end(), s.begin(), s.end());
  return b;
}
void directed(const std::function<bool(const bytes&)> &f)
{
  std::vector<std::string> heads { "", tag(0, 0), tag(1, 1), tag(127, 127), tag(128, 128), tag(300, 300), tag(20000, 20000), tag(5, 5) + tag(0, 0) + tag(9, 9),
    tag(1000, 999), tag(1, 0), tag(1 << 20, 4), tag(5, 5) + tag(200, 100), tag(10, 10, 0xff), tag(10, 10) + "ID3", tag(10, 10) + tag(0, 0).substr(0, 9) };
  std::string many;
  for (int i = 0; i < 12; ++i) many += tag(i, i);
  heads.push_back(many);
  std::vector<std::string> audio { "", "x", "ID", "ID3\3", std::string(9, 'q'), std::string(10, 'q'), std::string(400, '\xff'), std::string(5000, 'm'), std::string(3, 0) };
  for (auto &h : heads) for (auto &a : audio) for (int w = 0; w < 3; ++w) if (!f(make((h.size() + a.size() + w) % 4, h + a + id3v1(w)))) return;
  // sizes around the widths of counters and buffers
  for (std::size_t z : { 255u, 256u, 4095u, 4096u, 4097u, 8192u, 65535u, 65536u, 65537u, 70000u, 200000u, 1100000u })
    for (int w = 0; w < 3; ++w) {
      std::string a(z, 0);
      for (std::size_t i = 0; i < z; ++i) a[i] = (char)(i * 31 + (i >> 8) * 17 + (i >> 16));
      if (!f(make(w, tag(4, 4) + a + id3v1(w)))) return;
      std::string b = tag(z, z) + tag(z - 10, z - 10) + "audio" + id3v1(w);
      if (!f(make(w, b))) return;
    }
  // headers that are not quite headers
  for (std::size_t i : { 0, 1, 2, 3, 4, 6, 7, 8, 9 })
    for (int v : { 0x7f, 0x80, 0x81, 0xfe, 0xff }) {
      std::string h = tag(20, 20);
      h[i] = v;
      for (int pre = 0; pre < 2; ++pre)
        for (std::size_t z : { 0u, 30u, 40000u })
          if (!f(make(i % 4, (pre ? tag(3, 3) : "") + h + std::string(z, 'a') + id3v1(v % 3)))) return;
    }
  std::string t = tag(300, 300);
  t.replace(310 - 128, 3, "TAG");
  if (!f(make(0, t))) return;
}
bytes random_input(rng_t &r)
{
  std::string s;
  for (int k = r() % 4; k > 0; --k) {
    std::size_t z = r() % 3 ? r() % 40 : r() % 400;
    s += tag(z, z, 2 + r() % 3);
  }
  if (r() % 8 == 0) s += tag(r() % 100000, r() % 300);
  for (int k = r() % 3 ? r() % 500 : r() % 12; k > 0; --k) s += (char)(r() % 6 ? r() : "ID3TAG"[r() % 6]);
  s += id3v1(r() % 3);
  return make(r() % 4, s);
}

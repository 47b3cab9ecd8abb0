// P09: MPEG audio frame headers
#include "harness.hh"
#include "streams.hh"
#include <scribbu/mp3.hh>

static const unsigned V1[16] = { 0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 0 };
static const unsigned V2[16] = { 0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160, 0 };
// input: constructor (1 stream, 2 header and stream), four header bytes, optionally: bytes before, bytes after, mask
std::string check(const bytes &in)
{
  using scribbu::mp3_audio_frame;
  if (in.size() < 5) return "";
  std::uint8_t h[4] = { in[1], in[2], in[3], in[4] };
  std::size_t before = in.size() > 5 ? in[5] : 0, after = in.size() > 6 ? in[6] : 0;
  std::ios_base::iostate mask = mask_of(in.size() > 7 ? in[7] : 0);
  unsigned v = (h[1] >> 3) & 3, l = (h[1] >> 1) & 3, b = h[2] >> 4, f = (h[2] >> 2) & 3, pad = (h[2] >> 1) & 1;
  bool ok = h[0] == 0xff && h[1] >= 0xe0 && v != 1 && l == 1 && b != 0 && b != 15 && f != 3;
  unsigned kbps = v == 3 ? V1[b] : V2[b];
  static const unsigned R[4] = { 44100, 48000, 32000, 1 };
  unsigned hz = R[f] / (v == 3 ? 1 : v == 2 ? 2 : 4), n = v == 3 ? 1152 : 576;
  std::size_t len = ok ? n * kbps * 1000 / 8 / hz + pad : 6;
  std::string data(before, 'x');
  data.append((char*)h, 4);
  data.append(len - 4 + after, '\x55');
  any_stream S(0, data); std::istream &is = S.get();
  is.seekg(before); is.exceptions(mask);
  std::unique_ptr<mp3_audio_frame> p;
  try {
    if (in[0] == 2) { is.seekg(4, std::ios_base::cur); std::uint8_t g[4] = { h[0], h[1], h[2], h[3] }; p.reset(new mp3_audio_frame(g, is)); }
    else p.reset(new mp3_audio_frame(is));
  } catch (const mp3_audio_frame::error&) {
    return ok ? "a valid header is refused" : "";
  }
  if (!ok) return "an invalid header is accepted";
  if (p->bps() != kbps * 1000) return "bit rate";
  if (p->sample_rate_hz() != hz) return "sampling rate";
  if (p->duration() != std::make_pair<std::size_t, std::size_t>(n, hz)) return "samples per frame";
  if (p->size() != len) return "frame length";
  if (p->version() != (v == 3 ? mp3_audio_frame::mpeg_version::mpeg_audio_version_1 : v == 2 ? mp3_audio_frame::mpeg_version::mpeg_audio_version_2
                       : mp3_audio_frame::mpeg_version::mpeg_audio_version_2_5)) return "version";
  if (!is.good()) return "stream not usable";
  if (is.tellg() != (std::streamoff)(before + len)) return "stream not at the end of the frame";
  return "";
}
void directed(const std::function<bool(const bytes&)> &f)
{
  static const std::uint8_t LAST[] = { 0x00, 0xc0 };
  for (int fn = 1; fn < 3; ++fn)
    for (int b1 = 0; b1 < 256; ++b1)
      for (int b2 = 0; b2 < 256; b2 += b1 < 0xe0 ? 37 : 1)
        for (auto b3 : LAST)
          f(bytes{ (std::uint8_t)fn, 0xff, (std::uint8_t)b1, (std::uint8_t)b2, b3 });
  for (int b0 = 0; b0 < 255; ++b0) f(bytes{ (std::uint8_t)(1 + b0 % 2), (std::uint8_t)b0, 0xfb, 0x90, 0x40 });
}
bytes random_input(rng_t &r)
{
  bytes b = { (std::uint8_t)(1 + r() % 2), (std::uint8_t)(r() % 20 ? 0xff : r()), (std::uint8_t)(r() % 10 ? 0xe2 | (r() & 0x19) : r()) };
  for (int i = 0; i < 4; ++i) b.push_back(r());
  b.push_back(r() % 8);
  return b;
}
bool nontrivial(const bytes &in) { return in.size() >= 5 && in[1] == 0xff; }

// Streams over a given content: in memory, or over a file in a private scratch directory.
#pragma once
#include <fstream>
#include <memory>
#include <sstream>
#include <string>
#include <unistd.h>

inline std::ios_base::iostate mask_of(unsigned x)
{
  std::ios_base::iostate m = std::ios_base::goodbit;
  if (x & 1) m |= std::ios_base::badbit;
  if (x & 2) m |= std::ios_base::eofbit;
  if (x & 4) m |= std::ios_base::failbit;
  return m;
}
class any_stream {
public:
  any_stream(int kind, const std::string &data) {
    if (0 == kind) p_.reset(new std::istringstream(data));
    else {
      // an anonymous file: unlinked as soon as it is open
      std::string t = scratch_dir() + "/scribbu-harness-XXXXXX";
      int fd = mkstemp(&t[0]);
      if (fd < 0) std::abort();
      std::size_t done = 0;
      while (done < data.size()) {
        ssize_t k = ::write(fd, data.data() + done, data.size() - done);
        if (k <= 0) std::abort();
        done += k;
      }
      ::close(fd);
      p_.reset(new std::ifstream(t, std::ios_base::binary));
      ::unlink(t.c_str());
    }
  }
  std::istream &get() { return *p_; }
private:
  std::unique_ptr<std::istream> p_;
};

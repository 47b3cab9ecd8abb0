// Common driver of the executable contracts: replays one input, or searches for a failing one.
// Each property's file defines check(), directed() and random_input().
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <random>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <csignal>
#include <chrono>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

typedef std::vector<std::uint8_t> bytes;
typedef std::mt19937_64 rng_t;

/// Run the real code on one input; empty: the property holds for it, else what failed.
std::string check(const bytes &in);
/// Feed the systematic inputs to `f' until it returns false.
void directed(const std::function<bool(const bytes&)> &f);
bytes random_input(rng_t &r);
/// Does this input exercise the property (as opposed to being rejected at once)?
bool nontrivial(const bytes &in);

/// where files may be made
inline std::string scratch_dir() { const char *p = std::getenv("HARNESS_SCRATCH"); return p ? p : "/var/tmp"; }

namespace h {
  struct shared {
    volatile std::uint64_t evals, distinct, started;
    volatile std::uint32_t len, state;          // state: 0 running, 1 failed, 2 done
    std::uint8_t buf[1 << 22];
    char msg[4096];
    std::uint8_t sample[8][64];
    std::uint32_t sample_len[8];
    volatile std::uint32_t nsamples;
  };
  inline std::string hex(const std::uint8_t *p, std::size_t n) {
    static const char D[] = "0123456789abcdef";
    std::string s;
    for (std::size_t i = 0; i < n; ++i) { s += D[p[i] >> 4]; s += D[p[i] & 15]; }
    return s;
  }
  inline bytes unhex(const std::string &s) {
    bytes b;
    for (std::size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((std::uint8_t)std::stoi(s.substr(i, 2), nullptr, 16));
    return b;
  }
  inline std::string guarded(const bytes &in) {
    try { return check(in); }
    catch (const std::exception &e) { return std::string("unexpected exception: ") + e.what(); }
    catch (...) { return "unexpected exception"; }
  }
  inline double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
  }
  inline void worker(shared *S, std::uint64_t seed, double secs, bool with_directed) {
    std::unordered_set<std::string> seen;
    double end = now() + secs;
    auto one = [&](const bytes &in) {
      S->len = (std::uint32_t)std::min(in.size(), sizeof(S->buf));
      std::memcpy(S->buf, in.data(), S->len);
      S->started = (std::uint64_t)(now() * 1000);
      std::string m = guarded(in);
      S->evals = S->evals + 1;
      if (nontrivial(in) && seen.size() < 400000 && seen.insert(std::string(in.begin(), in.end())).second) {
        S->distinct = seen.size();
        if (S->nsamples < 8 && in.size() <= 64 && (S->distinct % 97 == 1)) {
          std::memcpy(S->sample[S->nsamples], in.data(), in.size());
          S->sample_len[S->nsamples] = in.size();
          S->nsamples = S->nsamples + 1;
        }
      }
      if (!m.empty()) {
        std::strncpy(S->msg, m.c_str(), sizeof(S->msg) - 1);
        S->state = 1;
        _exit(1);
      }
      return true;
    };
    if (with_directed) directed(one);
    rng_t r(seed);
    while (now() < end) one(random_input(r));
    S->state = 2;
    _exit(0);
  }
}

int main(int argc, char *argv[]) {
  using namespace h;
  if (argc == 3 && std::string(argv[1]) == "replay") {
    shared *S = (shared*)mmap(0, sizeof(shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    bytes in = unhex(argv[2]);
    pid_t c = fork();
    if (0 == c) {
      std::string m = guarded(in);
      if (!m.empty()) { std::strncpy(S->msg, m.c_str(), sizeof(S->msg) - 1); S->state = 1; _exit(1); }
      _exit(0);
    }
    int st = 0;
    for (int i = 0; ; ++i) {
      pid_t w = waitpid(c, &st, WNOHANG);
      if (w == c) break;
      if (i > 2000) { kill(c, SIGKILL); waitpid(c, &st, 0); std::printf("FAIL %s\ndoes not terminate\n", argv[2]); return 1; }
      usleep(10000);
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { std::printf("OK\n"); return 0; }
    std::printf("FAIL %s\n%s\n", argv[2], S->state == 1 ? S->msg : "crashed");
    return 1;
  }
  if (argc == 4 && std::string(argv[1]) == "search") {
    std::uint64_t seed = std::strtoull(argv[2], 0, 10);
    double secs = std::atof(argv[3]);
    const int N = 4;                       // workers; the first also runs the systematic inputs
    shared *S[N]; pid_t pid[N];
    for (int i = 0; i < N; ++i) {
      S[i] = (shared*)mmap(0, sizeof(shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
      pid[i] = fork();
      if (0 == pid[i]) worker(S[i], seed * 1000 + i, secs, 0 == i);
    }
    int failed = -1; std::string why;
    bool alive[N]; for (int i = 0; i < N; ++i) alive[i] = true;
    for (int left = N; left > 0 && failed < 0; ) {
      usleep(20000);
      for (int i = 0; i < N && failed < 0; ++i) {
        if (!alive[i]) continue;
        int st = 0;
        pid_t w = waitpid(pid[i], &st, WNOHANG);
        if (w == pid[i]) {
          alive[i] = false; --left;
          if (S[i]->state == 1) { failed = i; why = S[i]->msg; }
          else if (S[i]->state != 2) { failed = i; why = "crashed"; }
        } else if (S[i]->started && now() * 1000 - S[i]->started > 15000) {
          failed = i; why = "does not terminate";
        }
      }
    }
    for (int i = 0; i < N; ++i) if (alive[i]) { kill(pid[i], SIGKILL); waitpid(pid[i], 0, 0); }
    if (failed >= 0) {
      std::printf("FAIL %s\n%s\n", hex(S[failed]->buf, S[failed]->len).c_str(), why.c_str());
      return 1;
    }
    std::uint64_t ev = 0, di = 0;
    for (int i = 0; i < N; ++i) { ev += S[i]->evals; di += S[i]->distinct; }
    std::printf("OK evaluations=%llu distinct=%llu\n", (unsigned long long)ev, (unsigned long long)di);
    for (unsigned i = 0; i < S[0]->nsamples; ++i) std::printf("SAMPLE %s\n", hex(S[0]->sample[i], S[0]->sample_len[i]).c_str());
    return 0;
  }
  std::fprintf(stderr, "usage: %s replay HEX | search SEED SECONDS\n", argv[0]);
  return 2;
}

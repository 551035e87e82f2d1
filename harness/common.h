// Shared plumbing of the monitors: deterministic case loop, trace of the
// operations of the current case, violation reports, coverage statistics.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <fcntl.h>
#include <map>
#include <functional>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

extern "C" __attribute__((weak)) void __sanitizer_set_death_callback(void (*)(void));

namespace vt {

struct rng {
  uint64_t s[4];
  static uint64_t mix(uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  explicit rng(uint64_t seed = 1) {
    for (auto &x : s)
      x = seed = mix(seed);
  }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next() {
    const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    return r;
  }
  uint64_t operator()(uint64_t n) { return n ? next() % n : 0; } // [0,n)
  uint64_t range(uint64_t a, uint64_t b) { return a + next() % (b - a + 1); }
  bool chance(unsigned percent) { return next() % 100 < percent; }
  template <typename V> auto &pick(V &v) { return v[(*this)(std::size(v))]; }
};

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
  auto b = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; ++i)
    h = (h ^ b[i]) * 0x100000001b3ull;
  return h;
}
inline uint64_t hash_str(const std::string &s) { return hash_bytes(s.data(), s.size()); }

struct context {
  std::string suite = "main";
  uint64_t seed = 1, from = 0, count = 100;
  bool verbose = false;
  uint64_t current = 0;
  std::vector<std::string> trace;
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> states;
  std::vector<std::string> samples;
  std::string states_file, progress_file;
  volatile uint64_t *progress = nullptr;
};
inline context &ctx() {
  static context c;
  return c;
}

inline std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(const char *fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  return buf;
}
inline std::string hex(const void *p, size_t n, size_t limit = 48) {
  static const char d[] = "0123456789abcdef";
  std::string r;
  auto b = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n && i < limit; ++i) {
    r += d[b[i] >> 4];
    r += d[b[i] & 15];
  }
  if (n > limit)
    r += strf("..(%zu)", n);
  return r;
}
inline std::string hex(const std::string &s, size_t limit = 48) {
  return hex(s.data(), s.size(), limit);
}

inline void log(const std::string &s) {
  auto &c = ctx();
  if (c.trace.size() >= 4000)
    c.trace.erase(c.trace.begin(), c.trace.begin() + 2000);
  c.trace.push_back(s);
  if (c.verbose) {
    printf("  . %s\n", s.c_str());
    fflush(stdout);
  }
}
inline void count(const char *name, uint64_t n = 1) { ctx().counters[name] += n; }
inline void state(uint64_t h) {
  if (ctx().states.size() < 4000000)
    ctx().states.insert(h);
}

inline void dump_trace() {
  auto &t = ctx().trace;
  size_t n = t.size(), b = n > 400 ? n - 400 : 0;
  for (size_t i = b; i < n; ++i)
    printf("@@TRACE %s\n", t[i].c_str());
}
// The monitor has seen the property broken: report and stop.
[[noreturn]] inline void violation(const std::string &sig, const std::string &detail) {
  printf("@@VIOLATION case=%llu sig=%s detail=%s\n",
         (unsigned long long)ctx().current, sig.c_str(), detail.c_str());
  dump_trace();
  fflush(stdout);
  _exit(77);
}
// A probe reproduced a (possibly known) defect; the run carries on.
inline void finding(const std::string &sig, const std::string &detail) {
  printf("@@FINDING case=%llu sig=%s detail=%s\n",
         (unsigned long long)ctx().current, sig.c_str(), detail.c_str());
  fflush(stdout);
}
#define REQUIRE(cond, sig, ...)                                                \
  do {                                                                         \
    ::vt::count("oracle_checks");                                              \
    if (!(cond))                                                               \
      ::vt::violation(sig, ::vt::strf(__VA_ARGS__));                           \
  } while (0)

inline void on_alarm(int) {
  char msg[128];
  int n = snprintf(msg, sizeof(msg), "\n@@VIOLATION case=%llu sig=hang detail=no progress\n",
                   (unsigned long long)ctx().current);
  (void)!write(1, msg, size_t(n));
  _exit(77);
}

// The process is dying (sanitizer report, assertion, signal): leave the trace.
inline void on_death() {
  static volatile int once = 0;
  if (once++)
    return;
  printf("\n@@CRASH case=%llu\n", (unsigned long long)ctx().current);
  dump_trace();
  fflush(stdout);
}
inline void on_fatal_signal(int sig) {
  on_death();
  signal(sig, SIG_DFL);
  raise(sig);
}

using case_fn = std::function<void(rng &, uint64_t idx)>;

inline int run_main(int argc, char **argv, const std::map<std::string, case_fn> &suites) {
  auto &c = ctx();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--suite") c.suite = val();
    else if (a == "--seed") c.seed = strtoull(val().c_str(), nullptr, 0);
    else if (a == "--from") c.from = strtoull(val().c_str(), nullptr, 0);
    else if (a == "--count") c.count = strtoull(val().c_str(), nullptr, 0);
    else if (a == "--progress") c.progress_file = val();
    else if (a == "--states") c.states_file = val();
    else if (a == "-v") c.verbose = true;
  }
  auto it = suites.find(c.suite);
  if (it == suites.end()) {
    fprintf(stderr, "unknown suite %s\n", c.suite.c_str());
    return 2;
  }
  if (!c.progress_file.empty()) {
    int fd = open(c.progress_file.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && ftruncate(fd, 8) == 0)
      c.progress = static_cast<volatile uint64_t *>(
          mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  }
  signal(SIGALRM, on_alarm);
  signal(SIGABRT, on_fatal_signal);
  if (__sanitizer_set_death_callback)
    __sanitizer_set_death_callback(on_death);
  else {
    signal(SIGSEGV, on_fatal_signal);
    signal(SIGBUS, on_fatal_signal);
    signal(SIGFPE, on_fatal_signal);
    signal(SIGILL, on_fatal_signal);
  }
  const uint64_t sh = hash_str(c.suite);
  for (uint64_t i = c.from; i < c.from + c.count; ++i) {
    c.current = i;
    if (c.progress)
      *c.progress = i;
    c.trace.clear();
    alarm(150);
    rng r(rng::mix(c.seed * 0x9E3779B97F4A7C15ull ^ sh) ^ rng::mix(i));
    try {
      it->second(r, i);
    } catch (const std::exception &e) {
      violation("unexpected-exception", std::string(typeid(e).name()) + ": " + e.what());
    }
    alarm(0);
    count("cases");
    if (c.samples.size() < 3 && !c.trace.empty()) {
      std::string s = strf("case %llu:", (unsigned long long)i);
      for (size_t k = 0; k < c.trace.size() && k < 14; ++k)
        s += " | " + c.trace[k].substr(0, 160);
      if (c.trace.size() > 14)
        s += strf(" | ... (%zu ops)", c.trace.size());
      c.samples.push_back(s);
    }
  }
  for (auto &s : c.samples)
    printf("@@SAMPLE %s\n", s.c_str());
  for (auto &k : c.counters)
    printf("@@COUNT %s %llu\n", k.first.c_str(), (unsigned long long)k.second);
  printf("@@STATES %zu\n", c.states.size());
  if (!c.states_file.empty()) {
    FILE *f = fopen(c.states_file.c_str(), "wb");
    if (f) {
      for (uint64_t h : c.states)
        fwrite(&h, 8, 1, f);
      fclose(f);
    }
  }
  printf("@@DONE\n");
  fflush(stdout);
  return 0;
}

} // namespace vt

// The search in the index: every implementation against a plain loop, with
// guard pages at both sides and decoys around.
#include "fast_positive/tuples/details/cpu_features.h"
#include "fast_positive/tuples/details/scan.h"
#include "common.h"
using namespace vt;
using fptu::details::field_loose;
typedef const field_loose *(*fn)(const field_loose *, const field_loose *, const uint16_t);

static const field_loose *dispatch(const field_loose *b, const field_loose *e, const uint16_t x) { return fptu::details::fptu_scan(b, e, x); }
struct Impl {
  const char *name;
  fn f;
};
static std::vector<Impl> impls() {
  using namespace fptu::details;
  std::vector<Impl> v = {{"referential", fptu_scan_referential}, {"unroll", fptu_scan_unroll}, {"fptu_scan", dispatch}};
  if (__builtin_cpu_supports("sse2"))
    v.push_back({"SSE2", fptu_scan_SSE2});
  if (__builtin_cpu_supports("avx"))
    v.push_back({"AVX", fptu_scan_AVX});
  if (__builtin_cpu_supports("avx2"))
    v.push_back({"AVX2", fptu_scan_AVX2});
  return v;
}

struct Area {
  uint8_t *base, *lo, *hi; // [lo,hi) is accessible, pages around are not
  static constexpr size_t pages = 12, page = 4096;
  Area() {
    base = static_cast<uint8_t *>(mmap(nullptr, (pages + 2) * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    lo = base + page;
    hi = lo + pages * page;
    if (base == MAP_FAILED || mprotect(lo, pages * page, PROT_READ | PROT_WRITE))
      abort();
  }
};
static Area &area() {
  static Area a;
  return a;
}

static const field_loose *naive(const uint32_t *b, const uint32_t *e, uint16_t x) {
  for (; b < e; ++b)
    if ((*b >> 16) == x)
      return reinterpret_cast<const field_loose *>(b);
  return nullptr;
}
static void compare(const uint32_t *b, size_t n, uint16_t x, const char *how) {
  static const auto list = impls();
  const field_loose *const expected = naive(b, b + n, x);
  for (auto &i : list) {
    const field_loose *const got = i.f(reinterpret_cast<const field_loose *>(b), reinterpret_cast<const field_loose *>(b + n), x);
    REQUIRE(got == expected, "scan", "%s: %s(%zu items, %04x) found #%td instead of #%td; page offset %zu", how, i.name, n, x, got ? reinterpret_cast<const uint32_t *>(got) - b : ptrdiff_t(-1),
            expected ? reinterpret_cast<const uint32_t *>(expected) - b : ptrdiff_t(-1), size_t(uintptr_t(b) & 4095));
  }
  count(expected ? "found" : "not_found");
}
static uint32_t decoy(rng &r, uint16_t x) {
  for (;;) {
    uint32_t v;
    switch (r(6)) {
    case 0: v = uint32_t(x) | uint32_t(r(65536)) << 16; break;            // the pattern in the other half
    case 1: v = uint32_t(uint16_t(x ^ (1u << r(16)))) << 16 | x; break;    // one bit differs
    case 2: v = uint32_t(uint16_t(x << 8 | x >> 8)) << 16 | x; break;
    case 3: v = uint32_t(uint16_t(x + 1)) << 16 | uint32_t(r(65536)); break;
    case 4: v = uint32_t(x) << 8 | uint32_t(x) << 24; break;               // shifted by a byte
    default: v = uint32_t(r.next());
    }
    if ((v >> 16) != x)
      return v;
  }
}

static uint16_t pattern(rng &r) {
  static const uint16_t k[] = {0, 0xffff, 0xf800, 0x0101, 0x8000, 0x7fff, 0x00ff, 0xff00};
  return r.chance(30) ? k[r(std::size(k))] : uint16_t(r.next());
}

// all sizes up to the case number: each position, several placements
static void sweep_case(rng &r, uint64_t idx) {
  const size_t n = size_t(idx % 300);
  Area &a = area();
  const uint16_t x = pattern(r);
  for (size_t p = a.lo - a.lo; p < 1; ++p)
    for (uint32_t *q = reinterpret_cast<uint32_t *>(a.lo); q < reinterpret_cast<uint32_t *>(a.hi); ++q)
      *q = uint32_t(x) << 16 | uint32_t(r(65536)); // everything around matches
  std::vector<size_t> offs;
  offs.push_back(0);
  offs.push_back(Area::pages * 4096 - n * 4);
  for (unsigned k = 1; k < 10; ++k)
    offs.push_back(4 * k);
  for (unsigned k = 1; k < 10 && n * 4 + 4 * k < Area::pages * 4096; ++k)
    offs.push_back(Area::pages * 4096 - n * 4 - 4 * k);
  for (unsigned k = 0; k < 4; ++k)
    offs.push_back(4096 + 4 * r(2048));
  for (size_t off : offs) {
    uint32_t *const b = reinterpret_cast<uint32_t *>(a.lo + off);
    std::vector<uint32_t> saved(b, b + n);
    for (size_t i = 0; i < n; ++i)
      b[i] = decoy(r, x);
    compare(b, n, x, "sweep");
    for (size_t pos = 0; pos < n; ++pos) {
      const uint32_t was = b[pos];
      b[pos] = uint32_t(x) << 16 | uint32_t(r(65536));
      compare(b, n, x, "sweep");
      if (r.chance(40) && pos + 1 < n) { // the first one counts
        const size_t q = pos + 1 + r(n - pos - 1);
        const uint32_t w2 = b[q];
        b[q] = uint32_t(x) << 16;
        compare(b, n, x, "sweep2");
        b[q] = w2;
      }
      b[pos] = was;
    }
    std::copy(saved.begin(), saved.end(), b);
    state(hash_bytes(&off, 8, n * 65536 + x));
  }
}

static void random_case(rng &r, uint64_t) {
  Area &a = area();
  const uint16_t x = pattern(r);
  const size_t total = Area::pages * 1024;
  uint32_t *const all = reinterpret_cast<uint32_t *>(a.lo);
  const unsigned density = unsigned(r(4) ? r(3) : r(60));
  for (size_t i = 0; i < total; ++i)
    all[i] = r(1000) < density ? uint32_t(x) << 16 | uint32_t(r(65536)) : decoy(r, x);
  for (unsigned k = 0; k < 200; ++k) {
    const size_t n = r(8) ? r(70) : r(8191);
    const size_t off = r.chance(25) ? 0 : r.chance(33) ? total - n : r(total - n + 1);
    log(strf("n=%zu off=%zu x=%04x", n, off, x));
    compare(all + off, n, x, "random");
    state(hash_bytes(&off, 8, n * 65536 + x));
  }
}

int main(int argc, char **argv) {
  std::map<std::string, case_fn> s;
  s["sweep"] = sweep_case;
  s["random"] = random_case;
  return run_main(argc, argv, s);
}

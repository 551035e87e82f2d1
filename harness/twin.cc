// The same history twice, over memory that held different garbage: the images
// have to be the same.  malloc is interposed and fills what it gives out.
#include "world.h"
#include "fast_positive/tuples/legacy.h"
#include <malloc.h>

using namespace vt;

extern "C" void *__libc_malloc(size_t);
static thread_local uint64_t garbage = 0; // the current filler, 0 = leave as is
extern "C" void *malloc(size_t n) {
  void *p = __libc_malloc(n);
  if (p && garbage) {
    uint64_t x = garbage ^ n;
    unsigned char *c = static_cast<unsigned char *>(p);
    const size_t m = malloc_usable_size(p);
    for (size_t i = 0; i < m; ++i) {
      x = x * 6364136223846793005ull + 1442695040888963407ull;
      c[i] = static_cast<unsigned char>(x >> 56);
    }
  }
  return p;
}

static void twin(rng &r, const Profile &p) {
  std::vector<Val> a, b;
  const rng start = r;
  const uint64_t salt = rng::mix(r.next()) | 1;
  {
    rng x = start;
    garbage = salt;
    World w(x, p);
    w.tape = &a;
    w.run();
  }
  const std::vector<std::string> trace = ctx().trace;
  ctx().trace.clear();
  {
    rng x = start;
    garbage = ~salt * 3 | 1;
    World w(x, p);
    w.tape = &b;
    w.run();
  }
  garbage = 0;
  REQUIRE(trace.size() == ctx().trace.size() && a.size() == b.size(), "twin-diverged", "the same history went another way: %zu and %zu steps", a.size(), b.size());
  for (size_t i = 0; i < a.size(); ++i) {
    size_t at = 0;
    while (at < a[i].size() && at < b[i].size() && a[i][at] == b[i][at])
      ++at;
    REQUIRE(a[i] == b[i], "twin-image", "after step %zu the images of %zu and %zu bytes differ at byte %zu: %s and %s", i, a[i].size(), b[i].size(), at,
            hex(a[i].substr(at / 4 * 4, 16)).c_str(), hex(b[i].substr(at / 4 * 4, 16)).c_str());
    count("images_compared");
    count("bytes_compared", a[i].size());
  }
}

// the C API: two spaces with different garbage, the same calls
static void twin_legacy(rng &r) {
  const size_t bytes = 64 + r(r.chance(50) ? 400 : 8000), limit = r(r.chance(50) ? 8 : 200);
  std::vector<unsigned char> space[2] = {std::vector<unsigned char>(bytes + 64), std::vector<unsigned char>(bytes + 64)};
  fptu_rw *t[2];
  for (unsigned k = 0; k < 2; ++k) {
    for (auto &c : space[k])
      c = static_cast<unsigned char>(r.next());
    t[k] = fptu_init(space[k].data() + (-uintptr_t(space[k].data()) & 15), bytes, limit);
  }
  log(strf("legacy init %zu bytes %zu items", bytes, limit));
  REQUIRE(!t[0] == !t[1], "twin-diverged", "fptu_init");
  if (!t[0])
    return;
  auto compare = [&](const char *where) {
    fptu_ro a = fptu_take_noshrink(t[0]), b = fptu_take_noshrink(t[1]);
    const Val x = raw(a.sys.iov_base, a.sys.iov_len), y = raw(b.sys.iov_base, b.sys.iov_len);
    size_t at = 0;
    while (at < x.size() && at < y.size() && x[at] == y[at])
      ++at;
    REQUIRE(x == y, "twin-image", "%s: images of %zu and %zu bytes differ at byte %zu: %s and %s", where, x.size(), y.size(), at, hex(x.substr(at / 4 * 4, 16)).c_str(), hex(y.substr(at / 4 * 4, 16)).c_str());
    count("images_compared");
    count("legacy_images");
    count("bytes_compared", x.size());
    state(hash_bytes(x.data(), x.size()));
  };
  compare("initial");
  for (size_t n = 5 + r(60); n > 0; --n) {
    const unsigned col = unsigned(r(12)), kind = unsigned(r(16)), mode = unsigned(r(3));
    Val v = gen_bytes(r, r(r.chance(80) ? 40 : 300));
    const size_t len = r(v.size() + 1);
    if (v.size() < 32)
      v.resize(32);
    const uint64_t num = r.next() & 0x7fffffff;
    int e[2];
    const unsigned op = unsigned(r(100));
    for (unsigned k = 0; k < 2; ++k) {
      fptu_rw *p = t[k];
#define ALL(NAME, ...) int(mode == 0 ? fptu_upsert_##NAME(p, col, __VA_ARGS__) : mode == 1 ? fptu_insert_##NAME(p, col, __VA_ARGS__) : fptu_update_##NAME(p, col, __VA_ARGS__))
      if (op < 75)
        switch (kind) {
        case 0: e[k] = ALL(uint16, uint16_t(num)); break;
        case 1: e[k] = ALL(bool, num & 1); break;
        case 2: e[k] = ALL(int32, int_fast32_t(num)); break;
        case 3: e[k] = ALL(uint32, uint_fast32_t(num)); break;
        case 4: e[k] = ALL(int64, int_fast64_t(num)); break;
        case 5: e[k] = ALL(uint64, uint_fast64_t(num)); break;
        case 6: e[k] = ALL(fp64, double_t(num)); break;
        case 7: e[k] = ALL(fp32, float_t(num & 0xffff)); break;
        case 8: e[k] = ALL(96, static_cast<const void *>(v.data())); break;
        case 9: e[k] = ALL(128, static_cast<const void *>(v.data())); break;
        case 10: e[k] = ALL(160, static_cast<const void *>(v.data())); break;
        case 11: e[k] = ALL(256, static_cast<const void *>(v.data())); break;
        case 12:
        case 13: e[k] = ALL(string, static_cast<const char *>(v.data()), len); break;
        case 14: e[k] = ALL(opaque, static_cast<const void *>(v.data()), len); break;
        default: {
          // one and the same tuple for both
          alignas(4) static unsigned char other[256];
          fptu_rw *q = fptu_init(other, sizeof(other), 4);
          REQUIRE(q, "nested", "no tuple");
          fptu_insert_uint16(q, 1, uint16_t(num));
          if (num & 4)
            fptu_insert_string(q, 2, v.data(), len % 9);
          e[k] = ALL(nested, fptu_take_noshrink(q));
        }
        }
      else if (op < 90)
        e[k] = fptu_erase(p, col, fptu_type_or_filter(op & 1 ? unsigned(fptu_any) : op & 2 ? unsigned(fptu_cstr) : unsigned(fptu_any_int)));
      else if (op < 98)
        e[k] = fptu_shrink(p);
      else
        e[k] = int(fptu_clear(p));
    }
    log(strf("legacy op=%u kind=%u mode=%u column=%u -> %d", op, kind, mode, col, e[0]));
    REQUIRE(e[0] == e[1], "twin-diverged", "the same call gave %d and %d", e[0], e[1]);
    if (e[0] > 0)
      count("legacy_refused");
    compare("after a call");
  }
}

int main(int argc, char **argv) {
  Profile base;
  base.oracles = 0;
  base.w_optimize = base.w_roundtrip = base.w_clone = base.w_move = 6;
  std::map<std::string, case_fn> s;
  for (const char *v : {"", "mid", "large", "plenty", "long"}) {
    Profile p = base;
    variant(p, v);
    s[std::string("twin") + (*v ? "." : "") + v] = [p](rng &r, uint64_t) { twin(r, p); };
  }
  s["legacy"] = [](rng &r, uint64_t) { twin_legacy(r); };
  return run_main(argc, argv, s);
}

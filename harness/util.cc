// Monitors of the service types and functions: date-times, string views,
// formatting, guards of memory, bit and byte helpers.
#include "common.h"
#include <cmath>
#include <ctime>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <sys/time.h>
#include <unordered_map>
#include <vector>

#include "fast_positive/tuples.h"
#include "fast_positive/tuples/internal.h"
#include "fast_positive/tuples/legacy.h"
#include "fast_positive/tuples/1Hippeus/buffer.h"
#include "fast_positive/tuples/1Hippeus/hipagut.h"
#include "fast_positive/tuples/1Hippeus/hipagut_allocator.h"
#include "fast_positive/tuples/1Hippeus/utils.h"
#include "fast_positive/tuples/details/tagged_pointer.h"
#include "fast_positive/tuples/details/utils.h"

using namespace vt;
using u128 = unsigned __int128;

// ------------------------------------------------------------------ datetime

// civil date from days since the epoch, by counting, not by formulas
static void civil(uint32_t days, unsigned &y, unsigned &m, unsigned &d) {
  y = 1970;
  for (;;) {
    const bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    const unsigned n = leap ? 366 : 365;
    if (days < n) {
      static const unsigned len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
      for (m = 1;; ++m) {
        const unsigned l = len[m - 1] + (m == 2 && leap);
        if (days < l)
          break;
        days -= l;
      }
      d = days + 1;
      return;
    }
    days -= n;
    ++y;
  }
}
static std::string text_of(uint64_t fixedpoint) {
  uint64_t sec = fixedpoint >> 32;
  // the nearest nanosecond, ties to even
  const u128 x = u128(uint32_t(fixedpoint)) * 1000000000u;
  uint64_t ns = uint64_t(x >> 32);
  const uint32_t rem = uint32_t(x);
  if (rem > 0x80000000u || (rem == 0x80000000u && (ns & 1)))
    ++ns;
  if (ns == 1000000000u)
    ns = 0, ++sec;
  unsigned y, m, d;
  civil(uint32_t(sec / 86400), y, m, d);
  const unsigned s = unsigned(sec % 86400);
  return strf("%04u-%02u-%02uZ%02u:%02u:%02u.%09llu", y, m, d, s / 3600, s / 60 % 60, s % 60, (unsigned long long)ns);
}

static uint32_t a_second(rng &r) {
  switch (r(6)) {
  default:
    return uint32_t(r.next());
  case 0: // around midnights
    return uint32_t(r(49710) * 86400 + r(5) - 2);
  case 1: { // around new years and the end of february
    const unsigned y = unsigned(r(136));
    const uint32_t days = y * 365 + (y + 1) / 4;
    return uint32_t((uint64_t(days) + (r.chance(50) ? 59 : 0)) * 86400 + r(3) * 86400 + r(5) - 2);
  }
  case 2: {
    static const uint32_t e[] = {0, 1, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu};
    return r.pick(e);
  }
  }
}
static uint32_t a_fraction(rng &r) {
  switch (r(6)) {
  default:
    return uint32_t(r.next());
  case 0:
    return uint32_t(r(16));
  case 1:
    return ~uint32_t(r(16));
  case 2: // around of whole milliseconds, microseconds and so on
    return uint32_t((r(1000) << 32) / 1000 + r(5) - 2);
  case 3:
    return uint32_t((r(1000000) << 32) / 1000000 + r(5) - 2);
  case 4: // ties: halves of a nanosecond need 2^-10 granularity
    return uint32_t(r(1 << 23) << 9);
  }
}

template <typename F, typename B> static void check_units(rng &r, uint32_t factor, const char *name, F &&to_frac, B &&from_frac) {
  const uint32_t v = uint32_t(r.chance(20) ? factor - 1 - r(4) : r(factor));
  const uint64_t f = to_frac(v);
  const uint64_t want = (uint64_t(v) << 32) / factor;
  REQUIRE(f == want, "datetime-units", "%u %s are %llu of 2^-32, should be %llu", v, name, (unsigned long long)f, (unsigned long long)want);
  const uint64_t back = from_frac(uint32_t(f));
  REQUIRE(back == v || back + 1 == v, "datetime-units-back", "%u %s came back as %llu", v, name, (unsigned long long)back);
  const uint32_t q = a_fraction(r);
  const uint64_t u = from_frac(q);
  REQUIRE(u == uint64_t((u128(q) * factor) >> 32) && u < factor, "datetime-fraction", "%u of 2^-32 are %llu %s", q, (unsigned long long)u, name);
}

static void datetime_case(rng &r, uint64_t idx) {
  using fptu::datetime_t;
  std::vector<datetime_t> some;
  for (unsigned i = 0; i < 300; ++i) {
    const uint32_t sec = a_second(r), frac = a_fraction(r);
    const uint64_t fx = uint64_t(sec) << 32 | frac;
    ctx().trace.clear();
    log(strf("%u sec %u frac", sec, frac));
    const datetime_t t = datetime_t::from_fixedpoint_32dot32(fx);
    REQUIRE(t.fixedpoint_32dot32() == fx && t.utc_seconds() == sec && t.fractional() == frac, "datetime-parts", "%llx", (unsigned long long)fx);
    REQUIRE(t.fractional_seconds() == std::ldexp(double(frac), -32), "datetime-fractional", "%u", frac);
    REQUIRE(std::fabs(t.seconds() - (double(sec) + std::ldexp(double(frac), -32))) <= 1e-6, "datetime-seconds", "%llx", (unsigned long long)fx);
    const std::string s = std::to_string(t), w = text_of(fx);
    REQUIRE(s == w, "datetime-text", "%llx: '%s' instead of '%s'", (unsigned long long)fx, s.c_str(), w.c_str());
    check_units(r, 1000000000u, "ns", datetime_t::ns2fractional, datetime_t::fractional2ns);
    check_units(r, 1000000u, "us", datetime_t::us2fractional, datetime_t::fractional2us);
    check_units(r, 1000u, "ms", datetime_t::ms2fractional, datetime_t::fractional2ms);
    // whole values of several units
    const uint64_t lim = uint64_t(0xffffffffu);
    auto whole = [&](const char *name, uint64_t per, const datetime_t &v, uint64_t units) {
      const uint64_t want = (units / per) << 32 | ((units % per) << 32) / per;
      REQUIRE(v.fixedpoint_32dot32() == want, "datetime-from", "%llu %s: %llx instead of %llx", (unsigned long long)units, name, (unsigned long long)v.fixedpoint_32dot32(),
              (unsigned long long)want);
    };
    const uint64_t ms = r.next() % (lim * 1000), us = r.next() % (lim * 1000000), ns = r.next() % (lim * 1000000000), h = r.next() % (lim * 10000000);
    whole("ms", 1000, datetime_t::from_milliseconds(ms), ms);
    whole("us", 1000000, datetime_t::from_usec(us), us);
    whole("ns", 1000000000, datetime_t::from_nsec(ns), ns);
    whole("100ns", 10000000, datetime_t::from_100ns(h), h);
    whole("s", 1, datetime_t::from_seconds(sec), sec);
    {
      const time_t tt = time_t(sec);
      REQUIRE(datetime_t(&tt).fixedpoint_32dot32() == uint64_t(sec) << 32, "datetime-time_t", "%u", sec);
      struct timespec ts;
      ts.tv_sec = time_t(sec);
      ts.tv_nsec = long(r(1000000000));
      whole("timespec", 1000000000, datetime_t::from_timespec(ts), uint64_t(sec) * 1000000000 + uint64_t(ts.tv_nsec));
      struct timeval tv;
      tv.tv_sec = time_t(sec);
      tv.tv_usec = suseconds_t(r(1000000));
      whole("timeval", 1000000, datetime_t::from_timeval(tv), uint64_t(sec) * 1000000 + uint64_t(tv.tv_usec));
    }
    const fptu_datetime_C c = t;
    datetime_t assigned = datetime_t::from_fixedpoint_32dot32(r.next());
    assigned = c;
    REQUIRE(assigned.fixedpoint_32dot32() == t.fixedpoint_32dot32(), "datetime-assign", "%llx was assigned as %llx", (unsigned long long)t.fixedpoint_32dot32(), (unsigned long long)assigned.fixedpoint_32dot32());
    if (r.chance(1))
      REQUIRE((datetime_t::now().fixedpoint_32dot32() & 0xffff) == 0, "datetime-grain", "now() by default gave low bits");
    REQUIRE(c.utc == sec && c.fractional == frac && c.fixedpoint == fx && datetime_t(c) == t, "datetime-C", "%llx", (unsigned long long)fx);
    const uint64_t gx = r.chance(30) ? fx + r(3) - 1 : r.next();
    const datetime_t g = datetime_t::from_fixedpoint_32dot32(gx);
    REQUIRE((t == g) == (fx == gx) && (t != g) == (fx != gx) && (t < g) == (fx < gx) && (t > g) == (fx > gx) && (t <= g) == (fx <= gx) && (t >= g) == (fx >= gx), "datetime-order",
            "%llx vs %llx", (unsigned long long)fx, (unsigned long long)gx);
    state(fx);
    count("datetimes");
  }
  // the clock
  if (idx % 8 == 0) {
    auto fixed = [](clockid_t id) {
      struct timespec ts;
      clock_gettime(id, &ts);
      return (uint64_t(ts.tv_sec) << 32) + (uint64_t(ts.tv_nsec) << 32) / 1000000000u;
    };
    struct timespec res;
    const uint64_t coarse_res = clock_getres(CLOCK_REALTIME_COARSE, &res) == 0 && res.tv_sec == 0 ? uint64_t(res.tv_nsec) : 0;
    for (unsigned k = 0; k < 16; ++k) {
      const uint64_t a = fixed(CLOCK_REALTIME), ca = fixed(CLOCK_REALTIME_COARSE);
      const uint64_t f = datetime_t::now_fine().fixedpoint_32dot32();
      const uint64_t c = datetime_t::now_coarse().fixedpoint_32dot32();
      const int grain = r.chance(60) ? int(r(80)) - 40 : int(r.next() >> 33 >> r(31));
      const uint64_t n = datetime_t::now(grain).fixedpoint_32dot32();
      const uint64_t b = fixed(CLOCK_REALTIME), cb = fixed(CLOCK_REALTIME_COARSE);
      if (b < a || cb < ca || b - a > (uint64_t(1) << 32))
        continue; // the clock was set meanwhile
      REQUIRE(f >= a && f <= b, "datetime-now", "now_fine() gave %llx between %llx and %llx", (unsigned long long)f, (unsigned long long)a, (unsigned long long)b);
      REQUIRE(c >= ca && c <= b, "datetime-now", "now_coarse() gave %llx between %llx and %llx", (unsigned long long)c, (unsigned long long)ca, (unsigned long long)b);
      uint64_t mask = ~uint64_t(0);
      if (grain < 0)
        mask = grain > -32 ? mask << -grain : ~uint64_t(0xffffffffu);
      REQUIRE((n & ~mask) == 0, "datetime-grain", "now(%d) gave %llx", grain, (unsigned long long)n);
      REQUIRE(n >= (ca & mask) && n <= b, "datetime-now", "now(%d) gave %llx between %llx and %llx", grain, (unsigned long long)n, (unsigned long long)ca, (unsigned long long)b);
      // the coarse clock is good enough only for a grain not finer than its resolution
      if (grain >= 0 ? uint64_t(grain) < coarse_res : grain > -32 && (uint64_t(1) << -grain) < coarse_res)
        REQUIRE(n >= (a & mask), "datetime-now", "now(%d) gave %llx, but the clock was %llx before", grain, (unsigned long long)n, (unsigned long long)a);
      count("clock_reads");
    }
  }
}

// ------------------------------------------------------------------ strings

static int sgn(intptr_t v) { return v < 0 ? -1 : v > 0; }
static std::string a_string(rng &r, const std::string *near) {
  if (near && r.chance(60)) {
    std::string s = *near;
    switch (r(5)) {
    case 0:
      if (!s.empty())
        s[r(s.size())] ^= char(1 << r(8));
      break;
    case 1:
      s += char(r(256));
      break;
    case 2:
      if (!s.empty())
        s.pop_back();
      break;
    case 3:
      if (!s.empty())
        s.back() = char(r(256));
      break;
    default:
      break;
    }
    return s;
  }
  std::string s(r.chance(20) ? 0 : r(r.chance(5) ? 3000 : 24), '\0');
  for (auto &c : s)
    c = char(r.chance(50) ? 'a' + r(3) : r(256));
  return s;
}

static void strings_case(rng &r, uint64_t) {
  using fptu::string_view;
  struct item {
    bool nil;
    std::string s;
    std::unique_ptr<char[]> mem; // exact size, not terminated
    string_view v;
  };
  std::vector<item> all;
  for (unsigned i = 0; i < 14; ++i) {
    item it;
    it.nil = r.chance(12);
    if (!it.nil) {
      const std::string *near = nullptr;
      if (!all.empty() && !all[0].nil)
        near = &all[r(all.size())].s;
      it.s = a_string(r, near);
      it.mem.reset(new char[it.s.size() ? it.s.size() : 1]);
      memcpy(it.mem.get(), it.s.data(), it.s.size());
      it.v = r.chance(50) ? string_view(it.mem.get(), it.s.size()) : string_view(static_cast<const char *>(it.mem.get()), static_cast<const char *>(it.mem.get() + it.s.size()));
    } else if (r.chance(50))
      it.v = string_view(static_cast<const char *>(nullptr));
    all.push_back(std::move(it));
  }
  std::hash<string_view> hasher;
  for (auto &a : all) {
    ctx().trace.clear();
    log("string " + (a.nil ? std::string("nil") : hex(a.s)));
    REQUIRE(a.v.nil() == a.nil && a.v.size() == a.s.size() && a.v.length() == a.s.size() && a.v.empty() == a.s.empty(), "sv-size", "size %zu", a.v.size());
    REQUIRE(std::string(a.v.begin(), a.v.end()) == a.s && std::string(a.v.cbegin(), a.v.cend()) == a.s, "sv-iterate", "forward");
    REQUIRE(std::string(a.v.rbegin(), a.v.rend()) == std::string(a.s.rbegin(), a.s.rend()), "sv-iterate", "backward");
    REQUIRE(static_cast<std::string>(a.v) == a.s, "sv-string", "conversion to std::string");
    const std::string_view sv = a.v;
    REQUIRE(sv == std::string_view(a.s), "sv-std", "conversion to std::string_view");
    if (!a.nil) {
      const string_view back(sv), fs(a.s);
      REQUIRE(back == a.v && fs == a.v && hasher(back) == hasher(a.v), "sv-from", "from std::string_view and std::string");
      if (a.s.find('\0') == std::string::npos)
        REQUIRE(string_view(a.s.c_str()) == a.v, "sv-cstr", "from a C string");
    }
    for (size_t k = 0; k < a.s.size() && k < 40; ++k)
      REQUIRE(a.v[k] == a.s[k] && a.v.at(k) == a.s[k], "sv-at", "char %zu", k);
    if (!a.s.empty())
      REQUIRE(a.v.front() == a.s.front() && a.v.back() == a.s.back(), "sv-ends", "front/back");
    bool thrown = false;
    try {
      (void)a.v.at(a.s.size() + (r.chance(50) ? 0 : r.next() >> 1));
    } catch (const std::out_of_range &) {
      thrown = true;
    }
    REQUIRE(thrown, "sv-at", "no out_of_range");
    REQUIRE(fptu::hexadecimal(a.v.data(), a.v.size()) == hex(a.s, ~size_t(0)), "hexadecimal", "%zu bytes", a.s.size());
    state(hash_str(a.s) + a.nil);
  }
  auto want = [](const item &a, const item &b) { // shorter first, absent before empty
    const intptr_t la = a.nil ? -1 : intptr_t(a.s.size()), lb = b.nil ? -1 : intptr_t(b.s.size());
    if (la != lb)
      return la < lb ? -1 : 1;
    for (size_t i = 0; i < a.s.size(); ++i)
      if (a.s[i] != b.s[i])
        return (unsigned char)a.s[i] < (unsigned char)b.s[i] ? -1 : 1;
    return 0;
  };
  for (auto &a : all)
    for (auto &b : all) {
      const int w = want(a, b);
      const string_view &x = a.v, &y = b.v;
      REQUIRE(sgn(string_view::compare(x, y)) == w, "sv-compare", "'%s' and '%s': %d", hex(a.s).c_str(), hex(b.s).c_str(), w);
      REQUIRE((x == y) == (w == 0) && (x != y) == (w != 0) && (x < y) == (w < 0) && (x > y) == (w > 0) && (x <= y) == (w <= 0) && (x >= y) == (w >= 0), "sv-operators", "'%s' and '%s'",
              hex(a.s).c_str(), hex(b.s).c_str());
      if (w == 0)
        REQUIRE(hasher(x) == hasher(y) && x.hash_value() == y.hash_value(), "sv-hash", "equal strings with different hashes: '%s'", hex(a.s).c_str());
      else if (a.s != b.s)
        count(hasher(x) == hasher(y) ? "hash_collisions" : "hash_differs");
      if (!b.nil) {
        const std::string &z = b.s;
        REQUIRE((x == z) == (w == 0) && (x != z) == (w != 0) && (x < z) == (w < 0) && (x > z) == (w > 0) && (x <= z) == (w <= 0) && (x >= z) == (w >= 0), "sv-vs-string", "'%s' and '%s'",
                hex(a.s).c_str(), hex(b.s).c_str());
        REQUIRE((z == x) == (w == 0) && (z != x) == (w != 0) && (z < x) == (w > 0) && (z > x) == (w < 0) && (z <= x) == (w >= 0) && (z >= x) == (w <= 0), "string-vs-sv", "'%s' and '%s'",
                hex(a.s).c_str(), hex(b.s).c_str());
      }
      count("pairs");
    }
  {
    string_view p = all[0].v, q = all[1].v;
    p.swap(q);
    REQUIRE(p == all[1].v && q == all[0].v && p.data() == all[1].v.data() && q.data() == all[0].v.data(), "sv-swap", "swap");
    // exchange with and assignment from std::string_view
    for (unsigned k = 0; k < 4; ++k) {
      const item &a = all[r(all.size())], &b = all[r(all.size())];
      if (a.nil || b.nil)
        continue;
      std::string_view std_b(b.mem.get(), b.s.size());
      string_view x = a.v;
      x = std_b;
      REQUIRE(x.data() == b.mem.get() && x.size() == b.s.size() && x == b.v, "sv-assign", "assignment from std::string_view");
      x = a.v;
      x.swap(std_b);
      REQUIRE(x.data() == b.mem.get() && x.size() == b.s.size() && std_b.data() == a.mem.get() && std_b.size() == a.s.size(), "sv-swap-std", "swap with std::string_view");
      x = string_view(a.s);
      REQUIRE(x.data() == a.s.data() && x.size() == a.s.size() && x == a.v, "sv-assign", "assignment");
      count("assignments");
    }
    // containers rely on the order and on the hash
    std::map<string_view, size_t> m;
    std::unordered_map<string_view, size_t> u;
    for (size_t i = 0; i < all.size(); ++i)
      m[all[i].v] = i, u[all[i].v] = i;
    for (size_t i = 0; i < all.size(); ++i) {
      size_t last = i;
      for (size_t j = i; j < all.size(); ++j)
        if (want(all[i], all[j]) == 0)
          last = j;
      REQUIRE(m.count(all[i].v) && m[all[i].v] == last && u.count(all[i].v) && u[all[i].v] == last, "sv-container", "lookup in a map");
    }
  }
  // formatting of any length
  for (unsigned k = 0; k < 6; ++k) {
    const int n = int(r.chance(70) ? r(70) : r(9000));
    const long long v = (long long)r.next();
    std::vector<char> ref(size_t(n) + 200);
    const int len = snprintf(ref.data(), ref.size(), "%*d|%lld|%s|%c%%", n, int(v), v, "text", 'x');
    const std::string got = fptu::format("%*d|%lld|%s|%c%%", n, int(v), v, "text", 'x');
    REQUIRE(got.size() == size_t(len) && got == std::string(ref.data()), "format", "%d chars: '%s'", len, got.substr(0, 200).c_str());
    const std::string empty = fptu::format("%s", "");
    REQUIRE(empty.empty(), "format", "not empty");
    count("formatted");
  }
}

// ------------------------------------------------------------------ guards

struct slab { // a place for anything, with known bytes around
  alignas(16) unsigned char b[4096];
};

template <typename T> static void guarded_alloc(rng &r) {
  using alloc_t = hippeus::hipagut_allocator<std::allocator<T>>;
  alloc_t al;
  const size_t n = 1 + r(r.chance(20) ? 400 : 20);
  T *p = al.allocate(n);
  REQUIRE(p != nullptr && reinterpret_cast<uintptr_t>(p) % alignof(T) == 0, "guard-alloc", "%zu items of %zu bytes", n, sizeof(T));
  unsigned char *b = reinterpret_cast<unsigned char *>(p);
  const size_t bytes = n * sizeof(T);
  for (size_t i = 0; i < bytes; ++i)
    b[i] = (unsigned char)r.next();
  log(strf("allocate %zu x %zu", n, sizeof(T)));
  const unsigned kind = unsigned(r(4));
  if (kind == 0) {
    al.deallocate(p, n); // everything within is allowed
    count("guard_clean");
    return;
  }
  // one damaged byte next to the block
  const ptrdiff_t at = kind == 1 ? -1 - ptrdiff_t(r(8)) : kind == 2 ? ptrdiff_t(bytes + r(8)) : (r.chance(50) ? -1 : ptrdiff_t(bytes));
  const unsigned char was = b[at], mask = (unsigned char)(1 + r(255));
  b[at] = (unsigned char)(was ^ mask);
  log(strf("damage byte %td by %02x", at, mask));
  bool caught = false;
  try {
    al.deallocate(p, n);
  } catch (const fptu::bug &) {
    caught = true;
  }
  if (!caught) {
    // undetected with the probability of 2^-32, so twice is not by chance
    static unsigned missed = 0;
    REQUIRE(++missed < 2, "guard-missed", "a damaged byte at %td of %zu was not noticed", at, bytes);
    return;
  }
  b[at] = was;
  al.deallocate(p, n);
  count("guard_caught");
}

// A buffer as the allocator gets it back must not be taken for a live one.
static std::string repay_trouble;
static unsigned repaid_watched;
static hippeus_buffer_t *watch_borrow(hippeus_allot_t *allot, std::size_t wanna, bool, hippeus_actor_t) {
  const size_t gross = wanna + hippeus::buffer_solid::space_overhead();
  return new (malloc(gross)) hippeus::buffer_solid(hippeus::buffer_tag(allot, false), gross);
}
static void watch_repay(hippeus_allot_t *, hippeus_buffer_t *c, hippeus_actor_t) {
  auto b = static_cast<hippeus::buffer *>(c);
  ++repaid_watched;
  if (b->check_expect_invalid())
    repay_trouble = "a released buffer still passes check()";
  else if (b->references() > 0)
    repay_trouble = "a released buffer has references";
  else if (HIPAGUT_PROBE(b->guard_head, head))
    repay_trouble = "the guard of the head of a released buffer is alive";
  else if (HIPAGUT_PROBE(b->guard_under, under))
    repay_trouble = "the guard below the payload of a released buffer is alive";
  else if (HIPAGUT_PROBE_ASIDE(b->_inplace, over, b->space))
    repay_trouble = "the guard above the payload of a released buffer is alive";
  free(static_cast<void *>(c));
}
static bool watch_validate(const hippeus_allot_t *, bool, bool) { return true; }
static hippeus_allot_t watch_allot = {4096, 0, watch_borrow, watch_repay, watch_validate};
static int gone;
// no members of its own: g++ passes the size of the base to the global sized delete of "::delete base"
struct weak_buf : hippeus::buffer_weak {
  weak_buf(bool ro, void *p, size_t n) : hippeus::buffer_weak(hippeus::buffer_tag(nullptr, ro), p, n) {}
  ~weak_buf() override { ++gone; }
};
static void headers(rng &r) {
  const size_t n = 1 + r(200);
  auto buf = hippeus::buffer::borrow(hippeus::buffer_tag(&watch_allot, false), n, true);
  auto dead = [&](const char *what) {
    bool caught = false;
    try {
      buf->ensure();
    } catch (const fptu::bug &) {
      caught = true;
    }
    REQUIRE(!buf->check() && !buf->check_expect_invalid(), "buffer-header", "check() accepts a buffer with %s", what);
    REQUIRE(caught, "buffer-header", "ensure() accepts a buffer with %s", what);
    count("headers_caught");
  };
  auto fine = [&](const char *what) { REQUIRE(buf->check() && buf->check_expect_invalid() && buf->ensure(), "buffer-header", "a buffer with %s restored is refused", what); };
  for (int refs : {0, -1, INT32_MIN}) {
    buf->ref_counter = refs;
    dead("no references");
  }
  buf->ref_counter = 1 + int(r(1000));
  fine("references");
  buf->ref_counter = 1;
  const auto host = buf->host.opacity_.uint;
  buf->host.opacity_.uint = 0;
  dead("no host");
  buf->host.opacity_.uint = host;
  fine("the host");
  for (auto g : {&buf->guard_head, &buf->guard_under}) {
    unsigned char *b = reinterpret_cast<unsigned char *>(g);
    const size_t k = r(8);
    const unsigned char m = (unsigned char)(1 + r(255));
    b[k] = (unsigned char)(b[k] ^ m);
    dead(g == &buf->guard_head ? "a damaged guard of the head" : "a damaged guard below the payload");
    b[k] = (unsigned char)(b[k] ^ m);
    fine("a guard");
  }
  // references
  const unsigned refs = 1 + unsigned(r(5));
  for (unsigned k = 1; k < refs; ++k)
    intrusive_ptr_add_ref(buf);
  REQUIRE(buf->references() == int(refs) && buf->is_alterable() == (refs == 1), "buffer-refs", "%u references, but %d", refs, int(buf->references()));
  repay_trouble.clear();
  repaid_watched = 0;
  for (unsigned k = refs; k > 0; --k) {
    REQUIRE(repaid_watched == 0, "buffer-early", "released with %u references", k);
    buf->detach();
  }
  REQUIRE(repaid_watched == 1, "buffer-repaid", "repaid %u times", repaid_watched);
  REQUIRE(repay_trouble.empty(), "buffer-drown", "%s", repay_trouble.c_str());
  // a head over foreign memory
  gone = 0;
  std::vector<unsigned char> payload(1 + r(300));
  for (auto &x : payload)
    x = (unsigned char)r.next();
  const bool ro = r.chance(50);
  auto w = ::new weak_buf(ro, payload.data(), payload.size());
  hippeus::buffer_ptr first(w);
  std::vector<hippeus::buffer_ptr> more;
  for (size_t k = r(4); k > 0; --k)
    more.push_back(clone(first));
  const hippeus::buffer &c = *first;
  REQUIRE(c.check() && c.ensure() && c.is_localweak() && !c.is_solid() && c.is_readonly() == ro, "weak-fresh", "a fresh weak buffer is not valid");
  REQUIRE(c.is_alterable() == (!ro && more.empty()) && c.references() == int(more.size()) + 1, "weak-alterable", "is_alterable()=%d with %zu references, readonly %d", int(c.is_alterable()), more.size() + 1, int(ro));
  REQUIRE(c.size() == payload.size() && c.begin() == payload.data() && c.end() == payload.data() + payload.size(), "weak-payload", "shows other memory");
  const auto keep = payload;
  more.push_back(std::move(first));
  while (!more.empty()) {
    REQUIRE(gone == 0 && more.front()->references() == int(more.size()) && more.front()->check(), "weak-early", "destroyed with %zu references", more.size());
    more.erase(more.begin() + ptrdiff_t(r(more.size())));
  }
  REQUIRE(gone == 1, "weak-gone", "destroyed %d times", gone);
  REQUIRE(payload == keep, "weak-payload", "the payload was changed");
  count("weak_buffers");
}

static void guards_case(rng &r, uint64_t) {
  static unsigned missed = 0;
  for (unsigned i = 0; i < 200; ++i) {
    ctx().trace.clear();
    hippeus_hipagut_t box[3];
    box[0].body = box[2].body = 0x0123456789abcdefull;
    hippeus_hipagut_t &g = box[1];
    const uint32_t sig = uint32_t(r.chance(20) ? r(3) - 1 : r.next());
    hipagut_setup(&g, sig);
    log(strf("signature %08x guard %016llx", sig, (unsigned long long)g.body));
    REQUIRE(box[0].body == 0x0123456789abcdefull && box[2].body == 0x0123456789abcdefull, "guard-setup", "wrote outside");
    REQUIRE(hipagut_probe(&g, sig), "guard-probe", "a fresh guard is not accepted, signature %08x", sig);
    const uint64_t good = g.body;
    hippeus_hipagut_t slave;
    hipagut_setup_link(&slave, &g);
    REQUIRE(hipagut_probe_link(&slave, &g), "guard-link", "a fresh link is not accepted");
    unsigned bad = 0, total = 0;
    auto probe = [&](uint64_t body, uint32_t s) {
      g.body = body;
      ++total;
      if (hipagut_probe(&g, s))
        ++bad;
    };
    for (unsigned bit = 0; bit < 64; ++bit)
      probe(good ^ uint64_t(1) << bit, sig);
    for (unsigned k = 0; k < 8; ++k) {
      const unsigned char m = (unsigned char)(1 + r(255));
      probe(good ^ uint64_t(m) << 8 * k, sig);
      probe(good & ~(uint64_t(0xff) << 8 * k) ? (good & ~(uint64_t(0xff) << 8 * k)) == good ? good ^ 1 : good & ~(uint64_t(0xff) << 8 * k) : 0, sig);
    }
    probe(0, sig);
    probe(~uint64_t(0), sig);
    probe(r.next(), sig);
    probe(good, sig ^ uint32_t(1) << r(32));
    probe(good, sig + 1 + uint32_t(r(1000)));
    count("guard_damages", total);
    missed += bad;
    count("oracle_checks", total);
    if (missed > 2) // each is missed with the probability of 2^-32
      violation("guard-missed", strf("%u of %u damages were not noticed, guard %016llx signature %08x", bad, total, (unsigned long long)good, sig));
    g.body = good;
    REQUIRE(hipagut_probe(&g, sig), "guard-restore", "a restored guard is not accepted");
    hipagut_drown(&g);
    REQUIRE(!hipagut_probe(&g, sig), "guard-drown", "a drowned guard is accepted");
    REQUIRE(!hipagut_probe_link(&slave, &g), "guard-link", "a link to a drowned guard is accepted");
    state(good);
  }
  for (unsigned i = 0; i < 40; ++i) {
    ctx().trace.clear();
    switch (r(4)) {
    case 0:
      guarded_alloc<char>(r);
      break;
    case 1:
      guarded_alloc<uint32_t>(r);
      break;
    case 2:
      guarded_alloc<uint64_t>(r);
      break;
    case 3:
      guarded_alloc<slab>(r);
      break;
    }
  }
  {
    // an ordinary container
    std::vector<int, hippeus::hipagut_allocator<std::allocator<int>>> v;
    std::vector<int> m;
    for (unsigned i = 0; i < 100; ++i) {
      const int k = int(r.next());
      if (r.chance(80))
        v.push_back(k), m.push_back(k);
      else if (!m.empty())
        v.pop_back(), m.pop_back();
      if (r.chance(4))
        v.clear(), m.clear(), v.shrink_to_fit();
    }
    REQUIRE(std::equal(v.begin(), v.end(), m.begin(), m.end()), "guard-container", "a container differs");
  }
  for (unsigned i = 0; i < 10; ++i) {
    ctx().trace.clear();
    headers(r);
  }
  // headers of buffers and bytes next to their payload
  for (unsigned i = 0; i < 20; ++i) {
    ctx().trace.clear();
    const size_t n = 1 + r(300);
    auto buf = hippeus::buffer::borrow(hippeus::buffer_tag(&hippeus_allot_stdcxx, false), n, r.chance(50));
    REQUIRE(buf && buf->size() >= n && buf->check() && buf->check(true) && buf->ensure(), "buffer-fresh", "a fresh buffer of %zu bytes is not valid", n);
    unsigned char *b = static_cast<unsigned char *>(static_cast<void *>(buf->begin()));
    for (size_t k = 0; k < buf->size(); ++k)
      b[k] = (unsigned char)r.next();
    REQUIRE(buf->check() && buf->ensure(), "buffer-filled", "a filled buffer of %zu bytes is not valid", n);
    const ptrdiff_t at = r.chance(50) ? -1 - ptrdiff_t(r(8)) : ptrdiff_t(buf->size() + r(8));
    unsigned char mask = (unsigned char)(1 + r(255));
    log(strf("buffer of %zu bytes, damage byte %td by %02x", size_t(buf->size()), at, mask));
    b[at] = (unsigned char)(b[at] ^ mask);
    const bool ok = buf->check();
    bool caught = false;
    try {
      buf->ensure();
    } catch (const fptu::bug &) {
      caught = true;
    }
    REQUIRE(ok == !caught, "buffer-ensure", "check() and ensure() disagree");
    if (ok) {
      static unsigned missed_b = 0;
      REQUIRE(++missed_b < 2, "buffer-missed", "a damage at %td was not noticed", at);
    } else
      count("buffer_caught");
    b[at] = (unsigned char)(b[at] ^ mask);
    REQUIRE(buf->check(), "buffer-restored", "a restored buffer is not valid");
    intrusive_ptr_release(buf);
  }
}

// ------------------------------------------------------------------ bytes

template <size_t N> static void check_bytes(rng &r) {
  unsigned char b[N + 32];
  for (auto &c : b)
    c = (unsigned char)r.next();
  alignas(8) unsigned char v[N + 16];
  unsigned char *p = v + 0;
  const unsigned kind = unsigned(r(6));
  for (size_t i = 0; i < N; ++i)
    p[i] = kind < 2 ? 0 : kind < 4 ? 0xff : (unsigned char)r.next();
  if (kind % 2)
    p[r(N)] ^= (unsigned char)(1u << r(8));
  bool z = true, o = true;
  for (size_t i = 0; i < N; ++i)
    z = z && p[i] == 0, o = o && p[i] == 0xff;
  REQUIRE(fptu::utils::is_zero<N>(p) == z, "is_zero", "%zu bytes %s", N, hex(p, N).c_str());
  REQUIRE(fptu::utils::is_allones<N>(p) == o, "is_allones", "%zu bytes %s", N, hex(p, N).c_str());
}

template <typename TP> static void check_tagged(rng &r, unsigned bits) {
  alignas(64) static char place[4096];
  auto ptr = [&]() -> int * { return r.chance(10) ? nullptr : reinterpret_cast<int *>(place + 16 * r(250)); };
  auto tag = [&]() { return unsigned(r(uint64_t(1) << bits)); };
  int *p = ptr();
  unsigned t = tag();
  TP x(p, t), y;
  REQUIRE(x.get() == p && x.tag() == t && y.get() == nullptr && y.tag() == 0, "tagged-make", "%p %u: %p %u", (void *)p, t, (void *)x.get(), x.tag());
  for (unsigned i = 0; i < 8; ++i) {
    switch (r(3)) {
    case 0:
      x.set_ptr(p = ptr());
      break;
    case 1:
      x.set_tag(t = tag());
      break;
    case 2:
      x.set(p = ptr(), t = tag());
      break;
    }
    REQUIRE(x.get() == p && x.tag() == t, "tagged", "%p %u: %p %u", (void *)p, t, (void *)x.get(), x.tag());
  }
  x.swap(y);
  REQUIRE(y.get() == p && y.tag() == t && x.get() == nullptr && x.tag() == 0, "tagged-swap", "swap");
}

static void bytes_case(rng &r, uint64_t) {
  for (unsigned i = 0; i < 100; ++i) {
    check_bytes<1>(r), check_bytes<2>(r), check_bytes<3>(r), check_bytes<4>(r), check_bytes<5>(r), check_bytes<6>(r), check_bytes<7>(r), check_bytes<8>(r);
    check_bytes<12>(r), check_bytes<16>(r), check_bytes<17>(r), check_bytes<20>(r), check_bytes<24>(r), check_bytes<28>(r), check_bytes<32>(r), check_bytes<40>(r), check_bytes<48>(r),
        check_bytes<64>(r);
    const uint64_t v = r.chance(50) ? uint64_t(1) << r(63) : r.next() >> (1 + r(63));
    unsigned ones = 0;
    for (unsigned b = 0; b < 64; ++b)
      ones += (v >> b) & 1;
    REQUIRE(fptu::utils::is_power2(v) == (ones == 1), "is_power2", "%llu", (unsigned long long)v);
    const intptr_t al = intptr_t(1) << r(12);
    const uint64_t s = r.next() >> 8;
    REQUIRE(fptu::utils::ceil(s, al) == (s + uint64_t(al) - 1) / uint64_t(al) * uint64_t(al), "ceil", "%llu by %td", (unsigned long long)s, ptrdiff_t(al));
    {
      const uint64_t z = r.next() >> 1;
      REQUIRE((fptu::utils::floor<uint64_t, 8>(z)) == z / 8 * 8 && (fptu::utils::floor<uint64_t, 4096>(z)) == z / 4096 * 4096, "floor", "%llu", (unsigned long long)z);
    }
    check_tagged<fptu::tagged_pointer<int, fptu::narrow_tagged_pointer_base>>(r, 4);
    check_tagged<fptu::tagged_pointer<int, fptu::wide_tagged_pointer_base>>(r, 16);
    // sizes by powers
    const unsigned step = unsigned(1 + r(3)), lo = unsigned(r(8)), hi = lo + step * unsigned(1 + r(6));
    const size_t val = r.chance(30) ? (size_t(1) << r(32)) + r(3) - 1 : r(size_t(1) << r(34));
    size_t want = size_t(1) << lo;
    while (want < val && want < size_t(1) << hi)
      want <<= step;
    REQUIRE(hippeus::log2size(val, lo, hi, step) == want, "log2size", "%zu in 2^%u..2^%u step %u: %zu instead of %zu", val, lo, hi, step, hippeus::log2size(val, lo, hi, step), want);
    state(v ^ s);
  }
  count("byte_groups", 1800);
}

// these access aligned words which may straddle the bounds (masked), so they are not for ASan
static void memory_case(rng &r, uint64_t) {
  alignas(64) static unsigned char area[4096 + 64];
  for (unsigned i = 0; i < 100; ++i) {
    for (size_t k = 0; k < 400; ++k)
      area[k] = (unsigned char)r.next();
    const size_t off = 8 + r(40), n = r(10) ? r(70) : r(300);
    std::vector<unsigned char> before(area, area + 400);
    const uintptr_t mask = r.chance(30) ? 0 : r.chance(50) ? ~uintptr_t(0) : (r.next() | 0x0101010101010101ull);
    log(strf("pollute offset %zu bytes %zu mask %llx", off, n, (unsigned long long)mask));
    hippeus::pollute(area + off, ptrdiff_t(n), mask);
    size_t changed = 0;
    for (size_t k = 0; k < 400; ++k) {
      const bool inside = k >= off && k < off + n;
      REQUIRE(inside || area[k] == before[k], "pollute-outside", "byte %td of %zu was changed", ptrdiff_t(k) - ptrdiff_t(off), n);
      if (inside && mask)
        REQUIRE(area[k] != before[k], "pollute-inside", "byte %zu of %zu wasn't changed", k - off, n);
      changed += inside && area[k] != before[k];
    }
    if (!mask)
      REQUIRE(n < 24 || changed * 2 > n, "pollute-inside", "only %zu of %zu bytes were changed", changed, n);
    hippeus::pollute(area + off, ptrdiff_t(n), mask);
    REQUIRE(memcmp(area, before.data(), 400) == 0, "pollute-twice", "doing it twice doesn't restore %zu bytes", n);
    // zeroed
    memset(area + off, 0, n);
    REQUIRE(hippeus::is_zeroed(area + off, ptrdiff_t(n)) == (n > 0), "is_zeroed", "%zu zero bytes at offset %zu", n, off);
    if (n) {
      const size_t k = r(n);
      area[off + k] = (unsigned char)(1u << r(8));
      REQUIRE(!hippeus::is_zeroed(area + off, ptrdiff_t(n)), "is_zeroed", "byte %zu of %zu isn't zero", k, n);
    }
    count("polluted");
    state(off * 1000 + n);
  }
  // pages
  const size_t ps = hippeus::pagesize;
  REQUIRE(ps == size_t(sysconf(_SC_PAGESIZE)), "pagesize", "%zu", ps);
  unsigned char *m = static_cast<unsigned char *>(mmap(nullptr, ps * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  for (size_t k = 0; k < ps * 3; ++k)
    m[k] = (unsigned char)(k * 7);
  mprotect(m + ps * 3, ps, PROT_NONE);
  hippeus::probe_pages(m, ptrdiff_t(1 + r(ps * 3)), true);
  hippeus::probe_pages(m, ptrdiff_t(ps * 3), false);
  hippeus::probe_pages(m + ps * 3, 0, true);
  REQUIRE(hippeus::prefault_oomsafe(m, ptrdiff_t(1 + r(ps * 3))) == 0, "prefault", "accessible pages were refused");
  for (size_t k = 0; k < ps * 3; ++k)
    if (m[k] != (unsigned char)(k * 7))
      violation("probe-pages", strf("byte %zu was changed", k));
  munmap(m, ps * 4);
}

int main(int argc, char **argv) {
  std::map<std::string, case_fn> s;
  s["datetime"] = datetime_case;
  s["strings"] = strings_case;
  s["guards"] = guards_case;
  s["bytes"] = bytes_case;
  s["memory"] = memory_case;
  return run_main(argc, argv, s);
}

// Monitors of the bundled erthink helpers: text form of numbers, bit and byte
// order arithmetic, the arena behind short_alloc.
#include "common.h"
#include <charconv>
#include <cmath>
#include <limits>
#include <list>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#ifdef VERIF_PORTABLE // the variants for compilers without 128-bit arithmetic
#undef __SIZEOF_INT128__
#endif
#include "fast_positive/erthink/erthink.h"
#include "fast_positive/erthink/erthink_bswap.h"
#include "fast_positive/erthink/erthink_carryadd.h"
#include "fast_positive/erthink/erthink_casting.h"
#include "fast_positive/erthink/erthink_clz.h"
#include "fast_positive/erthink/erthink_d2a.h"
#include "fast_positive/erthink/erthink_endian.h"
#include "fast_positive/erthink/erthink_misc.h"
#include "fast_positive/erthink/erthink_mul.h"
#include "fast_positive/erthink/erthink_short_alloc.h"
#include "fast_positive/erthink/erthink_u2a.h"

using namespace vt;

template <typename T> static T from_bits(uint64_t u) {
  T r;
  memcpy(&r, &u, sizeof(r));
  return r;
}
static uint64_t bits(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}
static bool is_nan(double d) { return (bits(d) << 1) > (uint64_t(0x7ff) << 53); }
static bool is_inf(double d) { return (bits(d) << 1) == (uint64_t(0x7ff) << 53); }

// ------------------------------------------------------------------ d2a

static double a_double(rng &r) {
  const uint64_t sign = r.chance(30) ? uint64_t(1) << 63 : 0;
  switch (r(14)) {
  default:
    return from_bits<double>(r.next());
  case 0: // subnormal
    return from_bits<double>(sign | (r.next() >> (12 + r(52))));
  case 1: // powers of two and neighbours
    return from_bits<double>((sign | (r(2047) << 52)) + r(5) - (r(2047) ? 2 : 0));
  case 2: { // powers of ten and neighbours
    double d = strtod(strf("%s1e%d", sign ? "-" : "", int(r(632)) - 323).c_str(), nullptr);
    return from_bits<double>(bits(d) + r(5) - (bits(d) << 1 > 8 ? 2 : 0));
  }
  case 3: // integers
    return (sign ? -1.0 : 1.0) * double(r.next() >> r(64));
  case 4: // short decimal
    return strtod(strf("%s%llue%d", sign ? "-" : "", (unsigned long long)(r(1000000)), int(r(40)) - 20).c_str(), nullptr);
  case 5: // money
    return (sign ? -1.0 : 1.0) * double(r(100000000)) / (r.chance(50) ? 100 : 1000);
  case 6: // float
    return double(from_bits<float>(r.next() & 0xff7fffffu));
  case 7: { // the edges
    static const uint64_t e[] = {0, 1, 2, 0x000fffffffffffffull, 0x0010000000000000ull, 0x0010000000000001ull, 0x7fefffffffffffffull,
                                 0x7feffffffffffffeull, 0x7ff0000000000000ull, 0x7ff8000000000000ull, 0x7ff0000000000001ull, 0x7fffffffffffffffull,
                                 0x4340000000000000ull, 0x433fffffffffffffull, 0x43e0000000000000ull, 0x43dfffffffffffffull, 0x43f0000000000000ull};
    return from_bits<double>(sign | r.pick(e));
  }
  case 8: // few bits of mantissa
    return from_bits<double>(sign | (r(2047) << 52) | (r.next() & r.next() & r.next() & r.next() & 0xfffffffffffffull));
  case 9: // long runs of ones
    return from_bits<double>(sign | (r(2047) << 52) | (0xfffffffffffffull >> r(52)) | (r.chance(30) ? r(4) : 0));
  case 10: // many nines
    return strtod(strf("%s%se%d", sign ? "-" : "", std::string(1 + r(19), '9').c_str(), int(r(330)) - 170).c_str(), nullptr);
  }
}

struct parsed {
  bool neg = false;
  std::string digits; // of the mantissa, no dot
  int exp10 = 0;      // value = 0.digits? no: digits * 10^exp10
};

static bool parse_plain(const std::string &s, parsed &p) { // -?digits(e[+-]digits)?
  size_t i = 0;
  if (i < s.size() && s[i] == '-')
    p.neg = true, ++i;
  while (i < s.size() && isdigit((unsigned char)s[i]))
    p.digits += s[i++];
  if (p.digits.empty())
    return false;
  if (i == s.size())
    return true;
  if (s[i++] != 'e' || i >= s.size() || (s[i] != '+' && s[i] != '-'))
    return false;
  const bool en = s[i++] == '-';
  if (i >= s.size() || s.size() - i > 3)
    return false;
  for (; i < s.size(); ++i) {
    if (!isdigit((unsigned char)s[i]))
      return false;
    p.exp10 = p.exp10 * 10 + (s[i] - '0');
  }
  if (en)
    p.exp10 = -p.exp10;
  return true;
}

struct guarded { // exact-size buffer with canaries around
  std::vector<char> mem;
  size_t n;
  explicit guarded(size_t n) : mem(n + 64, '\x5a'), n(n) {}
  char *begin() { return mem.data() + 32; }
  char *end() { return begin() + n; }
  bool intact() const {
    for (size_t i = 0; i < 32; ++i)
      if (mem[i] != '\x5a' || mem[n + 32 + i] != '\x5a')
        return false;
    return true;
  }
};

// the shortest significant digits (an independent implementation)
static void shortest(double v, std::string &digits, int &exp10) {
  char b[64];
  auto e = std::to_chars(b, b + 64, std::fabs(v), std::chars_format::scientific).ptr;
  std::string s(b, e);
  const size_t pe = s.find('e');
  exp10 = atoi(s.c_str() + pe + 1);
  digits.clear();
  for (char c : s.substr(0, pe))
    if (c != '.')
      digits += c;
  while (digits.size() > 1 && digits.back() == '0')
    digits.pop_back();
  exp10 -= int(digits.size()) - 1;
}

static std::string significant(std::string d) {
  const size_t nz = d.find_first_not_of('0');
  d = nz == std::string::npos ? "0" : d.substr(nz);
  while (d.size() > 1 && d.back() == '0')
    d.pop_back();
  return d;
}

struct rates {
  uint64_t n = 0, longer = 0, off = 0;
};

template <bool accurate> static void check_plain(double v, rates *rt) {
  const char *mode = accurate ? "accurate" : "fast";
  guarded g(erthink::d2a_max_chars);
  char *e = accurate ? erthink::d2a_accurate(v, g.begin()) : erthink::d2a_fast(v, g.begin());
  REQUIRE(e > g.begin() && e <= g.end(), "d2a-length", "%s %016llx: %td chars", mode, (unsigned long long)bits(v), e - g.begin());
  REQUIRE(g.intact(), "d2a-overrun", "%s %016llx: wrote outside of the buffer", mode, (unsigned long long)bits(v));
  const std::string s(g.begin(), e);
  const bool neg = bits(v) >> 63;
  if (is_nan(v) || is_inf(v)) {
    const std::string want = std::string(neg ? "-" : "") + (is_nan(v) ? "nan" : "inf");
    REQUIRE(s == want, "d2a-special", "%s %016llx: '%s' instead of '%s'", mode, (unsigned long long)bits(v), s.c_str(), want.c_str());
    count("specials");
    return;
  }
  parsed p;
  REQUIRE(parse_plain(s, p), "d2a-grammar", "%s %016llx: '%s' is not a number", mode, (unsigned long long)bits(v), s.c_str());
  REQUIRE(p.digits == "0" || p.digits[0] != '0', "d2a-leading-zero", "%s %016llx: '%s'", mode, (unsigned long long)bits(v), s.c_str());
  char *pe = nullptr;
  const double back = strtod(s.c_str(), &pe);
  REQUIRE(*pe == 0 && bits(back) == bits(v), "d2a-roundtrip", "%s %016llx (%.17g): '%s' reads back as %016llx", mode, (unsigned long long)bits(v), v, s.c_str(),
          (unsigned long long)bits(back));
  std::ostringstream os;
  if (accurate)
    os << erthink::output_double<true>(v);
  else
    os << erthink::output_double<false>(v);
  REQUIRE(os.str() == s, "d2a-stream", "%s %016llx: streamed as '%s', converted as '%s'", mode, (unsigned long long)bits(v), os.str().c_str(), s.c_str());
  if (v == 0)
    return;
  const std::string sig = significant(p.digits);
  REQUIRE(sig.size() <= 17 || (!accurate && p.exp10 == 0 && std::fabs(v) == std::floor(std::fabs(v))), "d2a-digits", "%s %016llx: %zu significant digits '%s'", mode,
          (unsigned long long)bits(v), sig.size(), s.c_str());
  std::string best;
  int bexp;
  shortest(v, best, bexp);
  if (rt) {
    ++rt->n;
    if (sig.size() > best.size())
      ++rt->longer;
    else if (sig != best)
      ++rt->off;
  }
  count("converted");
}

template <typename PRINTER> static void check_shodan(double v, int min_exp, int max_exp, bool force_sign) {
  guarded g(PRINTER::buffer_size);
  PRINTER pr(g.begin(), g.end());
  erthink::grisu::convert(pr, v);
  const auto pair = pr.finalize_and_get();
  REQUIRE(pair.first >= g.begin() && pair.second <= g.end() && pair.first < pair.second && g.intact(), "shodan-overrun", "%016llx", (unsigned long long)bits(v));
  const std::string s(pair.first, pair.second);
  const bool neg = bits(v) >> 63;
  const std::string sg = neg ? "-" : force_sign ? "+" : "";
  if (is_nan(v) || is_inf(v)) {
    REQUIRE(s == sg + (is_nan(v) ? "nan" : "inf"), "shodan-special", "%016llx: '%s'", (unsigned long long)bits(v), s.c_str());
    return;
  }
  char *pe = nullptr;
  const double back = strtod(s.c_str(), &pe);
  REQUIRE(*pe == 0 && bits(back) == bits(v), "shodan-roundtrip", "%016llx (%.17g): '%s' reads back as %016llx", (unsigned long long)bits(v), v, s.c_str(), (unsigned long long)bits(back));
  REQUIRE(s.compare(0, sg.size(), sg) == 0 && s.size() > sg.size() && isdigit((unsigned char)s[sg.size()]), "shodan-sign", "%016llx: '%s'", (unsigned long long)bits(v), s.c_str());
  const std::string b = s.substr(sg.size());
  const size_t dot = b.find('.'), ex = b.find('e');
  REQUIRE(dot != std::string::npos && b.rfind('.') == dot, "shodan-dot", "'%s' has no dot", s.c_str());
  const std::string whole = b.substr(0, dot), frac = b.substr(dot + 1, ex == std::string::npos ? std::string::npos : ex - dot - 1);
  REQUIRE(!whole.empty() && (whole == "0" || whole[0] != '0'), "shodan-whole", "'%s'", s.c_str());
  REQUIRE(whole.find_first_not_of("0123456789") == std::string::npos && frac.find_first_not_of("0123456789") == std::string::npos, "shodan-chars", "'%s'", s.c_str());
  if (v == 0) {
    REQUIRE(b == "0.0", "shodan-zero", "'%s'", s.c_str());
    return;
  }
  // the decimal exponent of the printed number decides the form
  const std::string all = whole + frac;
  const size_t lead = all.find_first_not_of('0');
  if (ex == std::string::npos) {
    const int canon = int(dot) - 1 - int(lead);
    REQUIRE(canon >= min_exp && canon <= max_exp, "shodan-form", "'%s' should be exponential, canonical exponent %d", s.c_str(), canon);
    REQUIRE(!frac.empty(), "shodan-frac", "'%s'", s.c_str());
    count("decimal_form");
  } else {
    const int canon = atoi(b.c_str() + ex + 1);
    REQUIRE(whole.size() == 1 && whole != "0", "shodan-canonical", "'%s'", s.c_str());
    REQUIRE(canon < min_exp || canon > max_exp, "shodan-form", "'%s' should be decimal", s.c_str());
    REQUIRE(!frac.empty(), "shodan-frac", "'%s' (%016llx) has no digits after the dot", s.c_str(), (unsigned long long)bits(v));
    count("exponential_form");
  }
}

static void d2a_case(rng &r, uint64_t idx) {
  rates acc, fast;
  const bool uniform = idx % 2;
  double v = 0;
  for (unsigned i = 0; i < 4000; ++i) {
    v = uniform ? from_bits<double>(r.next()) : a_double(r);
    ctx().trace.clear();
    log(strf("value %016llx %.17g", (unsigned long long)bits(v), v));
    check_plain<true>(v, &acc);
    check_plain<false>(v, &fast);
    check_shodan<erthink::grisu::shodan_printer<>>(v, -4, 10, false);
    check_shodan<erthink::grisu::shodan_printer<true>>(v, -4, 10, false);
    if (i % 4 == 0) {
      check_shodan<erthink::grisu::shodan_printer<true, -7, 14, true>>(v, -7, 14, true);
      check_shodan<erthink::grisu::shodan_printer<true, -14, 0, false>>(v, -14, 0, false);
      check_shodan<erthink::grisu::shodan_printer<false, 0, 3, true>>(v, 0, 3, true);
    }
    if (i % 16 == 0)
      state(bits(v));
  }
  if (uniform) {
    REQUIRE(acc.longer * 100 <= acc.n && acc.off * 100 <= acc.n, "d2a-accuracy", "accurate: %llu of %llu longer than necessary, %llu not the nearest", (unsigned long long)acc.longer,
            (unsigned long long)acc.n, (unsigned long long)acc.off);
    REQUIRE(fast.longer * 100 <= fast.n, "d2a-accuracy", "fast: %llu of %llu longer than necessary", (unsigned long long)fast.longer, (unsigned long long)fast.n);
    count("uniform_values", acc.n);
    count("longer_than_shortest", acc.longer);
    count("not_nearest", acc.off);
  }
}

// fractions of fixed-point values
static void fraction_case(rng &r, uint64_t) {
  using namespace erthink::grisu;
  for (unsigned i = 0; i < 3000; ++i) {
    uint64_t v = r.chance(10) ? r.next() >> (32 + r(32)) : i < 64 ? i + 1 : r.chance(40) ? r.next() >> 32 : r.chance(50) ? uint64_t(1) << r(32) : r.chance(50) ? ~uint32_t(r(9)) : ((r(1000000) << 32) / 1000000 + r(3)) & 0xffffffffu;
    if (!v)
      v = 1;
    ctx().trace.clear();
    log(strf("fraction %llu/2^32", (unsigned long long)v));
    guarded g(fractional_printer::max_chars);
    fractional_printer pr(g.begin(), g.end());
    convert(pr, diy_fp::fixedpoint(v, -32));
    const auto pair = pr.finalize_and_get();
    REQUIRE(pair.first == g.begin() && pair.second > pair.first + 1 && pair.second <= g.end() && g.intact(), "fraction-overrun", "%llu", (unsigned long long)v);
    const std::string t(pair.first, pair.second);
    REQUIRE(t[0] == '.' && t.find_first_not_of("0123456789", 1) == std::string::npos, "fraction-grammar", "%llu: '%s'", (unsigned long long)v, t.c_str());
    const long double back = strtold(("0" + t).c_str(), nullptr) * 4294967296.0L;
    REQUIRE(back > (long double)v - 0.25L && back < (long double)v + 0.25L, "fraction-value", "%llu: '%s'", (unsigned long long)v, t.c_str());
    count("fractions");
    if (i % 16 == 0)
      state(v);
  }
  // rounding of wide mantissas
  for (unsigned i = 0; i < 500; ++i) {
    const uint64_t w = r.chance(70) ? r.next() | uint64_t(1) << 63 >> r(3) : r.next() >> r(64);
    const int e = int(r(100)) - 80;
    const diy_fp d = diy_fp::fixedpoint(w, e);
    if (!w) {
      REQUIRE(d.f == 0, "fixedpoint-zero", "%llu", (unsigned long long)d.f);
      continue;
    }
    const long double a = ldexpl((long double)w, e), b = ldexpl((long double)d.f, d.e);
    REQUIRE(d.f >> 61 == 0 && d.f >> 60 == 1 ? true : d.f == (~uint64_t(0) >> 3), "fixedpoint-normal", "%llx: %llx", (unsigned long long)w, (unsigned long long)d.f);
    // up to a half of the last kept bit; the very top may be clamped
    const long double tol = ldexpl(d.f == (~uint64_t(0) >> 3) ? 1.0L : 0.5L, d.e);
    REQUIRE(fabsl(a - b) <= tol, "fixedpoint-value", "%llx*2^%d became %llx*2^%d", (unsigned long long)w, e, (unsigned long long)d.f, d.e);
  }
}

// ------------------------------------------------------------------ u2a

template <typename T, typename FN> static void check_int(T v, size_t room, const char *name, FN &&fn) {
  guarded g(room);
  char *e = fn(v, g.begin());
  char want[32];
  const size_t n = size_t(std::to_chars(want, want + 32, v).ptr - want);
  REQUIRE(e > g.begin() && size_t(e - g.begin()) == n && memcmp(want, g.begin(), n) == 0, "int2a", "%s: '%s' instead of '%s'", name,
          std::string(g.begin(), e > g.begin() && e <= g.end() ? e : g.end()).c_str(), std::string(want, n).c_str());
  REQUIRE(g.intact(), "int2a-overrun", "%s %s: wrote outside of the buffer", name, std::string(want, n).c_str());
}

static uint64_t an_integer(rng &r) {
  switch (r(6)) {
  default:
    return r.next() >> r(64);
  case 0: { // around powers of ten
    uint64_t p = 1;
    for (unsigned k = unsigned(r(20)); k--;)
      p *= 10;
    return p * (1 + r(10)) + r(5) - 2;
  }
  case 1:
    return (uint64_t(1) << r(64)) + r(5) - 2;
  case 2: // zeros within
    return r(10000) * 10000 * 10000 * (r.chance(50) ? 10000 : 1) + r(2) * r(10000) + (r.chance(50) ? r(1844) * 10000000000000000ull : 0);
  case 3:
    return ~(r.next() >> r(64));
  }
}

static void all_widths(uint64_t u) {
  check_int(uint32_t(u), 10, "u2a32", [](uint32_t v, char *p) { return erthink::u2a(v, p); });
  check_int(int32_t(u), 11, "i2a32", [](int32_t v, char *p) { return erthink::i2a(v, p); });
  check_int(uint64_t(u), 20, "u2a64", [](uint64_t v, char *p) { return erthink::u2a(v, p); });
  check_int(int64_t(u), 20, "i2a64", [](int64_t v, char *p) { return erthink::i2a(v, p); });
}

static void u2a_case(rng &r, uint64_t idx) {
  if (idx == 0)
    for (uint64_t u : {0ull, 1ull, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull})
      all_widths(u);
  for (unsigned i = 0; i < 3000; ++i) {
    const uint64_t u = an_integer(r);
    ctx().trace.clear();
    log(strf("integer %llu", (unsigned long long)u));
    all_widths(u);
    count("integers");
    if (i % 8 == 0)
      state(u);
  }
  // a block of consecutive 32-bit values; 65536 blocks are the whole range
  const uint32_t block = uint32_t(idx < 65536 ? idx * 40503u : r.next()) & 0xffff;
  static char buf[16];
  for (uint32_t k = 0; k < 65536; k += 1) {
    const uint32_t v = block << 16 | k;
    char *e = erthink::u2a(v, buf);
    uint64_t back = 0;
    for (char *p = buf; p < e; ++p)
      back = back * 10 + uint64_t(*p - '0');
    if (back != v || e <= buf || e > buf + 10 || (buf[0] == '0' && v))
      violation("u2a-block", strf("u2a(%u) gives '%s'", v, std::string(buf, e).c_str()));
    e = erthink::i2a(int32_t(v), buf);
    int64_t sb = 0;
    for (char *p = buf + (buf[0] == '-'); p < e; ++p)
      sb = sb * 10 + (*p - '0');
    if (buf[0] == '-')
      sb = -sb;
    if (sb != int32_t(v) || e > buf + 11)
      violation("i2a-block", strf("i2a(%d) gives '%s'", int32_t(v), std::string(buf, e).c_str()));
  }
  count("oracle_checks", 131072);
  count("exhaustive_blocks");
}

// ------------------------------------------------------------------ ops

static uint64_t pattern64(rng &r) {
  switch (r(6)) {
  default:
    return r.next();
  case 0:
    return r.next() >> r(64);
  case 1:
    return uint64_t(1) << r(64);
  case 2:
    return ~(uint64_t(1) << r(64));
  case 3:
    return (uint64_t(1) << r(64)) + r(3) - 1;
  case 4: {
    static const uint64_t e[] = {0, 1, ~0ull, 0x8000000000000000ull, 0x7fffffffffffffffull, 0xffffffffull, 0x100000000ull, 0x80000000ull, 0x7fffffffull, 0xff00ff00ff00ff00ull};
    return r.pick(e);
  }
  }
}
template <typename T> static T rev(T v) {
  unsigned char b[sizeof(T)];
  memcpy(b, &v, sizeof(T));
  std::reverse(b, b + sizeof(T));
  memcpy(&v, b, sizeof(T));
  return v;
}
template <typename T> static T load(const unsigned char *b, bool big) { // value of the bytes, arithmetically
  typename std::make_unsigned<T>::type u = 0;
  for (size_t i = 0; i < sizeof(T); ++i)
    u = typename std::make_unsigned<T>::type((uint64_t(u) << 8) | b[big ? i : sizeof(T) - 1 - i]);
  return T(u);
}
template <typename T> static void check_order(T v, const char *name) {
  REQUIRE(erthink::bswap<T>(v) == rev(v), "bswap", "%s %llx", name, (unsigned long long)v);
  REQUIRE(erthink::bswap<T>(erthink::bswap<T>(v)) == v, "bswap-twice", "%s %llx", name, (unsigned long long)v);
  unsigned char le[sizeof(T)], be[sizeof(T)];
  const T l = erthink::h2le<T>(v), b = erthink::h2be<T>(v);
  memcpy(le, &l, sizeof(T));
  memcpy(be, &b, sizeof(T));
  REQUIRE(load<T>(le, false) == v, "h2le", "%s %llx", name, (unsigned long long)v);
  REQUIRE(load<T>(be, true) == v, "h2be", "%s %llx", name, (unsigned long long)v);
  REQUIRE(erthink::le2h<T>(l) == v && erthink::be2h<T>(b) == v, "x2h", "%s %llx", name, (unsigned long long)v);
}
template <typename T> static void check_abs(T v, const char *name) {
  const erthink::branchless_abs<T> p(v);
  using U = typename std::make_unsigned<T>::type;
  const U want = v < 0 ? U(U(0) - U(v)) : U(v);
  REQUIRE(p.unsigned_abs == want && p.expanded_sign == (v < 0 ? -1 : 0), "branchless_abs", "%s %lld: %llu sign %lld", name, (long long)v, (unsigned long long)p.unsigned_abs,
          (long long)p.expanded_sign);
}
static int plain_clz(uint64_t v, int width) {
  int n = 0;
  for (int b = width - 1; b >= 0 && !((v >> b) & 1); --b)
    ++n;
  return n;
}
using u128 = unsigned __int128;
// multi-limb add through the carry chain
static void check_carry(rng &r) {
  const unsigned n = unsigned(2 + r(4));
  std::vector<uint64_t> a(n), b(n), s(n), w(n);
  for (unsigned i = 0; i < n; ++i)
    a[i] = pattern64(r), b[i] = r.chance(20) ? ~a[i] : pattern64(r);
  unsigned c = 0;
  for (unsigned i = 0; i < n; ++i) {
    const u128 t = u128(a[i]) + b[i] + c;
    w[i] = uint64_t(t);
    c = unsigned(t >> 64);
    unsigned k;
    if (i == 0) {
      k = erthink::add64carry_first(a[i], b[i], &s[i]);
      REQUIRE(k == c && s[i] == w[i], "add64carry_first", "%llx+%llx", (unsigned long long)a[i], (unsigned long long)b[i]);
    } else {
      const unsigned in = unsigned((u128(a[i]) + b[i] + 1) == t && (u128(a[i]) + b[i]) != t);
      k = erthink::add64carry_next(in, a[i], b[i], &s[i]);
      REQUIRE(k == c && s[i] == w[i], "add64carry_next", "%llx+%llx+%u: %llx carry %u", (unsigned long long)a[i], (unsigned long long)b[i], in, (unsigned long long)s[i], k);
      uint64_t l;
      erthink::add64carry_last(in, a[i], b[i], &l);
      REQUIRE(l == w[i], "add64carry_last", "%llx+%llx+%u", (unsigned long long)a[i], (unsigned long long)b[i], in);
    }
  }
  count("carry_chains");
}

static void ops_case(rng &r, uint64_t) {
  {
    int a[7] = {};
    const short b[1] = {};
    static_assert(erthink::array_length(a) == 7 && erthink::array_length(b) == 1, "array_length");
    REQUIRE(erthink::array_end(a) == a + 7 && erthink::array_end(b) == b + 1, "array_end", "array_end");
  }
  for (unsigned i = 0; i < 2000; ++i) {
    const uint64_t u = pattern64(r), v = pattern64(r);
    ctx().trace.clear();
    log(strf("operands %llx %llx", (unsigned long long)u, (unsigned long long)v));
    check_order<uint8_t>(uint8_t(u), "u8");
    check_order<int8_t>(int8_t(u), "i8");
    check_order<uint16_t>(uint16_t(u), "u16");
    check_order<int16_t>(int16_t(u), "i16");
    check_order<uint32_t>(uint32_t(u), "u32");
    check_order<int32_t>(int32_t(u), "i32");
    check_order<uint64_t>(u, "u64");
    check_order<int64_t>(int64_t(u), "i64");
    check_abs<int32_t>(int32_t(u), "i32");
    check_abs<int64_t>(int64_t(u), "i64");
    REQUIRE(erthink::msb(u) == bool(u >> 63) && erthink::msb(uint32_t(u)) == bool((u >> 31) & 1), "msb", "%llx", (unsigned long long)u);
    if (u) {
      REQUIRE(erthink::clz64(u) == plain_clz(u, 64), "clz64", "%llx", (unsigned long long)u);
      REQUIRE(erthink::fallback_clz64(u) == plain_clz(u, 64), "fallback_clz64", "%llx: %d", (unsigned long long)u, erthink::fallback_clz64(u));
      REQUIRE(erthink::clz(u) == plain_clz(u, 64), "clz", "%llx", (unsigned long long)u);
    }
    for (const uint32_t h : {uint32_t(u), uint32_t(u >> 32)})
      if (h) {
        REQUIRE(erthink::clz32(h) == plain_clz(h, 32), "clz32", "%x", h);
        REQUIRE(erthink::fallback_clz32(h) == plain_clz(h, 32), "fallback_clz32", "%x: %d", h, erthink::fallback_clz32(h));
      }
    REQUIRE(erthink::mul_32x32_64(uint32_t(u), uint32_t(v)) == uint64_t(uint32_t(u)) * uint32_t(v), "mul_32x32_64", "%x*%x", uint32_t(u), uint32_t(v));
    uint64_t hi = 0;
    const uint64_t lo = erthink::mul_64x64_128(u, v, &hi);
    // schoolbook with 32-bit limbs, independent of the compiler's 128-bit type
    const uint64_t a0 = uint32_t(u), a1 = u >> 32, b0 = uint32_t(v), b1 = v >> 32;
    const uint64_t mid = (a0 * b0 >> 32) + uint32_t(a1 * b0) + uint32_t(a0 * b1);
    const uint64_t wl = u * v, wh = a1 * b1 + (a1 * b0 >> 32) + (a0 * b1 >> 32) + (mid >> 32);
    REQUIRE(lo == wl && hi == wh, "mul_64x64_128", "%llx*%llx = %llx:%llx", (unsigned long long)u, (unsigned long long)v, (unsigned long long)hi, (unsigned long long)lo);
    check_carry(r);
    {
      uint64_t t;
      const double d = erthink::bit_cast<double>(u);
      memcpy(&t, &d, 8);
      REQUIRE(t == u && erthink::bit_cast<int64_t>(d) == int64_t(u), "bit_cast", "%llx", (unsigned long long)u);
    }
    if (i % 8 == 0)
      state(u ^ rng::mix(v));
  }
  count("operands", 2000);
}

// ------------------------------------------------------------------ arena

static uint64_t live_new = 0;
static size_t fail_above = ~size_t(0) / 4;
static void *counted(size_t n, size_t al) {
  if (n > fail_above)
    throw std::bad_alloc();
  void *p = nullptr;
  if (al <= alignof(std::max_align_t))
    p = malloc(n ? n : 1);
  else if (posix_memalign(&p, al, n ? n : 1))
    p = nullptr;
  if (!p)
    throw std::bad_alloc();
  ++live_new;
  return p;
}
static void uncounted(void *p) {
  if (p) {
    --live_new;
    free(p);
  }
}
void *operator new(size_t n) { return counted(n, 1); }
void *operator new[](size_t n) { return counted(n, 1); }
void *operator new(size_t n, std::align_val_t a) { return counted(n, size_t(a)); }
void *operator new[](size_t n, std::align_val_t a) { return counted(n, size_t(a)); }
void operator delete(void *p) noexcept { uncounted(p); }
void operator delete[](void *p) noexcept { uncounted(p); }
void operator delete(void *p, size_t) noexcept { uncounted(p); }
void operator delete[](void *p, size_t) noexcept { uncounted(p); }
void operator delete(void *p, std::align_val_t) noexcept { uncounted(p); }
void operator delete[](void *p, std::align_val_t) noexcept { uncounted(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { uncounted(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { uncounted(p); }

struct chunk {
  char *p;
  size_t n;
  unsigned char fill;
  bool inside;
};

template <bool OUTLIVE, size_t N, size_t AL> static void arena_history(rng &r) {
  using arena_t = erthink::allocation_arena<OUTLIVE, N, AL>;
  struct holder {
    uint64_t before = 0x1122334455667788ull;
    arena_t arena;
    uint64_t after = 0x8877665544332211ull;
  };
  auto h = std::make_unique<holder>();
  arena_t &a = h->arena;
  std::vector<chunk> live;
  live.reserve(64);
  log(strf("arena outlive=%d size=%zu align=%zu", OUTLIVE, N, AL));
  const char *const base = reinterpret_cast<const char *>(&a);
  REQUIRE(a.used() == 0, "arena-fresh", "used %zu", a.used());
  const unsigned steps = unsigned(10 + r(60));
  const char *start = nullptr;
  for (unsigned i = 0; i < steps; ++i) {
    const size_t used = a.used();
    REQUIRE(used <= N, "arena-used", "used %zu of %zu", used, N);
    if (r.chance(58) || live.empty()) {
      size_t n = r.chance(70) ? r(AL * 6 + 1) : r(N + N / 2);
      const bool absurd = r.chance(6);
      if (absurd)
        n = ~size_t(0) - (r.chance(60) ? r(AL) : r(N + AL));
      log(strf("allocate %zu (used %zu)", n, used));
      const size_t aligned = (n + AL - 1) / AL * AL;
      const bool fits = !absurd && aligned <= N - used && used < N;
      char *p = nullptr;
      try {
        p = r.chance(50) ? a.template allocate<1>(n) : a.template allocate<AL>(n);
      } catch (const erthink::allocation_arena_exhausted &) {
        REQUIRE(!OUTLIVE, "arena-exhausted", "thrown though it may fall back to the heap");
        REQUIRE(!fits, "arena-exhausted", "%zu bytes don't fit though %zu of %zu used", n, used, N);
        REQUIRE(a.used() == used, "arena-used", "changed by a failed allocation");
        count("arena_exhausted");
        continue;
      } catch (const std::bad_alloc &) {
        REQUIRE(OUTLIVE && absurd, "arena-bad-alloc", "%zu bytes", n);
        REQUIRE(a.used() == used, "arena-used", "changed by a failed allocation");
        count("heap_refused");
        continue;
      }
      REQUIRE(!absurd, "arena-absurd", "%zu bytes were 'allocated' from an arena of %zu", n, N);
      REQUIRE(reinterpret_cast<uintptr_t>(p) % AL == 0, "arena-align", "%p for alignment %zu", (void *)p, AL);
      // zero-sized chunks own nothing, so where they point is not constrained
      const bool inside = p >= base && p < base + sizeof(arena_t) && a.chunk_in_bounds(p, n);
      if (inside && fits)
        start = p - used;
      if (n) {
        REQUIRE(inside == fits, "arena-place", "%zu bytes with %zu of %zu used: %s", n, used, N, inside ? "in the arena" : "outside");
        if (inside) {
          REQUIRE(a.pointer_in_bounds(p) && a.pointer_in_bounds(p + n - 1), "arena-bounds", "chunk out of bounds");
          REQUIRE(p >= base && p + n <= base + sizeof(arena_t), "arena-bounds", "chunk out of the arena object");
        }
        for (auto &c : live)
          REQUIRE(c.n == 0 || p + n <= c.p || c.p + c.n <= p, "arena-overlap", "%zu bytes overlap a live chunk of %zu", n, c.n);
      }
      REQUIRE(a.used() == (inside && fits ? used + aligned : used), "arena-used", "%zu after %zu bytes, was %zu", a.used(), n, used);
      chunk c{p, n, static_cast<unsigned char>(r(256)), inside && fits};
      memset(c.p, c.fill, n);
      live.push_back(c);
      count(c.inside ? "arena_chunks" : "heap_chunks");
    } else if (r.chance(97)) {
      const size_t k = r.chance(60) ? live.size() - 1 : r(live.size());
      const chunk c = live[k];
      for (size_t j = 0; j < c.n; ++j)
        if ((unsigned char)c.p[j] != c.fill)
          violation("arena-content", strf("byte %zu of a live chunk of %zu bytes was changed", j, c.n));
      log(strf("deallocate #%zu of %zu bytes", k, c.n));
      live.erase(live.begin() + ptrdiff_t(k));
      a.deallocate(c.p, c.n);
      const size_t now = a.used();
      REQUIRE(now <= used, "arena-used", "grew by a deallocation");
      for (auto &l : live)
        if (l.inside && l.n)
          REQUIRE(size_t(l.p + l.n - start) <= now, "arena-free", "a live chunk lies in the free room");
      // the latest chunk gives its room back at once
      const size_t aligned = (c.n + AL - 1) / AL * AL;
      bool last = c.inside;
      for (auto &l : live)
        last = last && !(l.inside && l.p >= c.p);
      if (last && now != used)
        count("arena_reused");
      REQUIRE(now == used || (c.inside && now + aligned == used), "arena-used", "%zu after freeing %zu bytes, was %zu", now, c.n, used);
    } else {
      bool heap = false;
      for (auto &c : live)
        heap = heap || !c.inside;
      if (!heap) {
        log("reset");
        a.reset();
        live.clear();
        REQUIRE(a.used() == 0, "arena-reset", "used %zu", a.used());
        count("arena_resets");
      }
    }
    REQUIRE(h->before == 0x1122334455667788ull && h->after == 0x8877665544332211ull, "arena-neighbours", "memory around of the arena was changed");
    a.debug_check();
  }
  // strictly last in, first out returns everything
  while (!live.empty()) {
    const chunk c = live.back();
    live.pop_back();
    for (size_t j = 0; j < c.n; ++j)
      if ((unsigned char)c.p[j] != c.fill)
        violation("arena-content", strf("byte %zu of a live chunk of %zu bytes was changed", j, c.n));
    a.deallocate(c.p, c.n);
  }
}

template <bool OUTLIVE, size_t N, size_t AL> static void lifo_history(rng &r) {
  erthink::allocation_arena<OUTLIVE, N, AL> a;
  std::vector<chunk> live;
  for (unsigned i = 0; i < 60; ++i) {
    if (r.chance(55)) {
      const size_t n = r(AL * 5), used = a.used();
      char *p;
      try {
        p = a.template allocate<AL>(n);
      } catch (const std::bad_alloc &) {
        continue;
      }
      live.push_back(chunk{p, n, 0, a.used() != used});
    } else if (!live.empty()) {
      a.deallocate(live.back().p, live.back().n);
      live.pop_back();
    }
    size_t want = 0;
    for (auto &c : live)
      want += c.inside ? (c.n + AL - 1) / AL * AL : 0;
    REQUIRE(a.used() == want, "arena-lifo", "used %zu instead of %zu", a.used(), want);
  }
  while (!live.empty()) {
    a.deallocate(live.back().p, live.back().n);
    live.pop_back();
  }
  REQUIRE(a.used() == 0, "arena-lifo", "used %zu when everything is freed", a.used());
  count("lifo_histories");
}

template <size_t N> static void containers(rng &r) {
  using arena_t = erthink::allocation_arena<true, N, 16>;
  arena_t a1, a2;
  using alloc_i = erthink::short_alloc<int, arena_t>;
  using alloc_s = erthink::short_alloc<uint64_t, arena_t>;
  alloc_i x(a1), y(a2), x2(x);
  alloc_s xs(x);
  REQUIRE(x == x2 && !(x == y) && xs == x, "short_alloc-equal", "equality of allocators");
  std::vector<int, alloc_i> v(x), w(y);
  std::list<uint64_t, alloc_s> l(xs);
  std::set<int, std::less<int>, alloc_i> s{std::less<int>(), y};
  std::vector<int> mv, mw;
  std::list<uint64_t> ml;
  std::set<int> ms;
  for (unsigned i = 0; i < 40 + r(80); ++i) {
    const int k = int(r(100));
    switch (r(10)) {
    case 0:
    case 1:
      v.push_back(k), mv.push_back(k);
      break;
    case 2:
      w.push_back(k), mw.push_back(k);
      break;
    case 3:
      l.push_back(uint64_t(k)), ml.push_back(uint64_t(k));
      break;
    case 4:
      s.insert(k), ms.insert(k);
      break;
    case 5:
      s.erase(k), ms.erase(k);
      break;
    case 6:
      if (!ml.empty())
        l.pop_front(), ml.pop_front();
      break;
    case 7:
      w.assign(v.begin(), v.end()), mw = mv;
      break;
    case 8:
      v.clear(), mv.clear();
      if (r.chance(50))
        v.shrink_to_fit();
      break;
    case 9:
      v.resize(v.size() + r(9), k), mv.resize(v.size(), k);
      break;
    }
    REQUIRE(std::equal(v.begin(), v.end(), mv.begin(), mv.end()) && std::equal(w.begin(), w.end(), mw.begin(), mw.end()) && std::equal(l.begin(), l.end(), ml.begin(), ml.end()) &&
                std::equal(s.begin(), s.end(), ms.begin(), ms.end()),
            "short_alloc-container", "a container differs from the ordinary one");
  }
  count("container_histories");
#if 1
  {
    std::vector<int, alloc_i> c(v);
    REQUIRE(std::equal(c.begin(), c.end(), mv.begin(), mv.end()) && c.get_allocator() == v.get_allocator() && !(c.get_allocator() != x) && w.get_allocator() != x, "short_alloc-copy",
            "copy of a container");
    w = v;
    REQUIRE(std::equal(w.begin(), w.end(), mv.begin(), mv.end()) && w.get_allocator() == y, "short_alloc-assign", "assignment of a container");
    w = std::move(v);
    REQUIRE(std::equal(w.begin(), w.end(), mv.begin(), mv.end()) && w.get_allocator() == y, "short_alloc-move", "assignment of a container");
    std::vector<int, alloc_i> m(std::move(w));
    REQUIRE(std::equal(m.begin(), m.end(), mv.begin(), mv.end()) && m.get_allocator() == y, "short_alloc-move", "moving of a container");
    count("container_copies");
  }
#endif
  bool thrown = false;
  try {
    const size_t n = ~size_t(0) / sizeof(uint64_t) + 1 + r(4);
    log(strf("allocate %zu elements of 8 bytes", n));
    xs.allocate(n);
  } catch (const std::bad_alloc &) {
    thrown = true;
  }
  REQUIRE(thrown, "short_alloc-overflow", "an impossible number of elements was 'allocated'");
}

static void arena_case(rng &r, uint64_t) {
  fail_above = 1 << 24;
  uint64_t before = live_new;
  uint64_t after;
  {
    const uint64_t lv = live_new;
    (void)lv;
    switch (r(8)) {
    case 0:
      arena_history<true, 64, 8>(r);
      lifo_history<true, 64, 8>(r);
      break;
    case 1:
      arena_history<false, 64, 8>(r);
      lifo_history<false, 256, 8>(r);
      break;
    case 2:
      arena_history<true, 1024, 16>(r);
      lifo_history<true, 1024, 16>(r);
      break;
    case 3:
      arena_history<false, 1024, 16>(r);
      lifo_history<false, 128, 1>(r);
      break;
    case 4:
      arena_history<true, 256, 1>(r);
      break;
    case 5:
      arena_history<false, 4096, 4>(r);
      break;
    case 6:
      containers<512>(r);
      break;
    case 7:
      containers<64>(r);
      arena_history<false, 16, 16>(r);
      break;
    }
  }
  // the trace of this case holds memory of its own
  const uint64_t t = ctx().trace.size();
  ctx().trace.clear();
  ctx().trace.shrink_to_fit();
  (void)t;
  after = live_new;
  static uint64_t slack = 64; // counters, strings of the harness
  REQUIRE(after <= before + slack, "arena-leak", "%llu blocks are alive, were %llu", (unsigned long long)after, (unsigned long long)before);
  state(r.next());
}

int main(int argc, char **argv) {
  std::map<std::string, case_fn> s;
  s["d2a"] = d2a_case;
  s["fraction"] = fraction_case;
  s["u2a"] = u2a_case;
  s["ops"] = ops_case;
  s["arena"] = arena_case;
  return run_main(argc, argv, s);
}

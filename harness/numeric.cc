// Numeric access with conversion: every value either lands exactly or is refused.
#include "world.h"
#include <cmath>
using namespace vt;
typedef __int128 I;
typedef unsigned __int128 U;

enum Src { S_I32, S_U32, S_I64, S_U64, S_F32, S_F64, S_N };
enum Op { O_INTEGER, O_UNSIGNED, O_NUMBER, O_FLOAT, O_ASSIGN, O_N };
static const char *const src_names[] = {"int32", "uint32", "int64", "uint64", "float", "double"};
static const char *const op_names[] = {"integer", "unsigned", "number", "float", "operator="};

struct Num {
  Src s;
  I i = 0;
  double d = 0;
  bool flt() const { return s == S_F32 || s == S_F64; }
  std::string str() const {
    return flt() ? strf("%s(%a)", src_names[s], d) : i < 0 ? strf("%s(-%llu)", src_names[s], (unsigned long long)-i) : strf("%s(%llu)", src_names[s], (unsigned long long)i);
  }
};

static bool is_int(int g) { return g == G_I8 || g == G_I16 || g == G_I32 || g == G_I64; }
static bool is_uint(int g) { return g == G_U8 || g == G_U16 || g == G_U32 || g == G_U64; }
static bool is_flt(int g) { return g == G_F32 || g == G_F64; }
static void bounds(int g, I &lo, I &hi) {
  const unsigned bits = unsigned(value_bytes[g]) * 8;
  if (is_int(g))
    lo = -(I(1) << (bits - 1)), hi = (I(1) << (bits - 1)) - 1;
  else
    lo = 0, hi = (I(1) << bits) - 1;
}

struct Expect {
  bool mismatch = false, refuse = false, exact = false; // allowed outcomes
  Val v;
};
static Val int_val(int g, I i) {
  const int64_t x = int64_t(i);
  return Val(reinterpret_cast<const char *>(&x), size_t(value_bytes[g]));
}
static Expect expect(Op op, const Num &n, int g) {
  Expect e;
  const bool fits_op = op == O_INTEGER ? is_int(g) : op == O_UNSIGNED ? is_uint(g) : op == O_FLOAT ? is_flt(g) : is_int(g) || is_uint(g) || is_flt(g);
  if (!fits_op) {
    e.mismatch = true;
    // the range may be looked at first
    e.refuse = (n.flt() && (std::isnan(n.d) || std::isinf(n.d))) || (op == O_INTEGER && n.i > INT64_MAX) || (op == O_UNSIGNED && n.i < 0);
    return e;
  }
  if (is_flt(g)) {
    if (n.flt()) {
      if (g == G_F64)
        e.v = raw_of(n.d), e.exact = true;
      else if (std::isnan(n.d) || std::isinf(n.d))
        e.v = raw_of(float(n.d)), e.exact = true;
      else if (std::fabs(n.d) > double(std::numeric_limits<float>::max()))
        e.refuse = true;
      else
        e.v = raw_of(float(n.d)), e.exact = true;
      return e;
    }
    const I a = n.i < 0 ? -n.i : n.i;
    const I safe = g == G_F32 ? I(fptu::safe32_number_max) : I(fptu::safe64_number_max);
    e.v = g == G_F32 ? raw_of(float(int64_t(n.i))) : raw_of(double(int64_t(n.i)));
    if (n.i > INT64_MAX)
      e.v = g == G_F32 ? raw_of(float(uint64_t(n.i))) : raw_of(double(uint64_t(n.i)));
    if (a <= safe)
      e.exact = true;
    else {
      e.refuse = true;
      // beyond the declared safe range an exact result would be no harm either
      e.exact = g == G_F32 ? a <= (I(1) << 24) : a <= (I(1) << 53);
    }
    return e;
  }
  I lo, hi;
  bounds(g, lo, hi);
  if (n.flt()) {
    if (std::isnan(n.d) || std::isinf(n.d) || std::fabs(n.d) >= 1e30) {
      e.refuse = true;
      return e;
    }
    const I t = I(n.d);
    if (t < lo || t > hi) {
      e.refuse = true;
      return e;
    }
    e.v = int_val(g, t);
    e.exact = true;
    // a fraction may take the value off the range; nearby the bounds of wide types the library is more cautious
    if (n.d < double(lo) || n.d > double(hi))
      e.exact = false, e.refuse = true;
    if (value_bytes[g] >= 4 && (is_int(g) && n.d < 0)) {
      const double step = n.s == S_F32 ? std::ldexp(1.0, value_bytes[g] * 8 - 1 - 24) : std::max(1.0, std::ldexp(1.0, value_bytes[g] * 8 - 1 - 53));
      if (n.d < double(lo) + step)
        e.refuse = true;
    }
    if (value_bytes[g] >= 4 && n.d > double(hi) - 1 && n.d != std::trunc(n.d))
      e.refuse = true;
    return e;
  }
  if (n.i < lo || n.i > hi)
    e.refuse = true;
  else
    e.exact = true, e.v = int_val(g, n.i);
  return e;
}

static Num gen(rng &r, Op op, int g) {
  Num n;
  do
    n.s = Src(r(S_N));
  while (!(op == O_NUMBER || op == O_ASSIGN || (op == O_FLOAT && n.s == S_F64) || ((op == O_INTEGER || op == O_UNSIGNED) && (n.s == S_I64 || n.s == S_U64))));
  // interesting integers: around powers of two of both signs
  I x;
  switch (r((is_int(g) || is_uint(g)) ? 9 : 5)) {
  case 5:
  case 6:
  case 7: {
    I lo, hi;
    bounds(g, lo, hi);
    x = r.chance(50) ? (r.chance(50) ? lo : hi) + I(r(9)) - 4 : lo + I((U(r.next()) << 64 | r.next()) % U(hi - lo + 1));
    break;
  }
  case 0: x = I(r(7)) - 3; break;
  case 1:
  case 2: {
    x = I(1) << r(65);
    x += I(r(7)) - 3;
    if (r.chance(40))
      x = -x;
    break;
  }
  case 3: x = I(int64_t(r.next() >> r(64))) * (r.chance(50) ? 1 : -1); break;
  default: {
    static const int64_t k[] = {INT8_MIN, INT8_MAX, UINT8_MAX, INT16_MIN, INT16_MAX, UINT16_MAX, INT32_MIN, INT32_MAX, UINT32_MAX, INT64_MIN, INT64_MAX, 0x1fffffll, 0x1fffffffffffffll, 1 << 24, 1ll << 53};
    x = I(k[r(std::size(k))]) + I(r(5)) - 2;
    if (r.chance(30))
      x = -x;
  }
  }
  if (!n.flt()) {
    switch (n.s) {
    case S_I32: n.i = int32_t(x); break;
    case S_U32: n.i = uint32_t(x); break;
    case S_I64: n.i = int64_t(x); break;
    default: n.i = uint64_t(x);
    }
    return n;
  }
  double d = double(x);
  switch (r(10)) {
  case 0: d += (r.chance(50) ? 0.5 : 0.25) * (r.chance(50) ? 1 : -1); break;
  case 1: d = std::nextafter(d, r.chance(50) ? INFINITY : -INFINITY); break;
  case 2: {
    const uint64_t bits = r.next();
    memcpy(&d, &bits, 8);
    break;
  }
  case 3: {
    static const double k[] = {INFINITY, -INFINITY, NAN, 0.0, -0.0, 1e38, 3.4028234663852886e38, 3.4028235e38, 3.5e38, -3.4028234663852886e38, -3.5e38, 1e308, 5e-324, 1e-46};
    d = k[r(std::size(k))];
    break;
  }
  default: break;
  }
  if (n.s == S_F32)
    d = double(float(d));
  n.d = d;
  return n;
}

template <typename T> static void apply(T &t, const fptu::token &tk, Op op, const Num &n, bool insert, bool acc) {
  auto go = [&](auto v) {
    switch (op) {
    case O_NUMBER: insert ? (void)t.insert_number(tk, v) : acc ? (void)t[tk].set_number(v) : (void)t.set_number(tk, v); break;
    default: t[tk] = v;
    }
  };
  auto go64 = [&](auto v) {
    if (op == O_INTEGER)
      insert ? (void)t.insert_integer(tk, v) : acc ? (void)t[tk].set_integer(v) : (void)t.set_integer(tk, v);
    else
      insert ? (void)t.insert_unsigned(tk, v) : acc ? (void)t[tk].set_unsigned(v) : (void)t.set_unsigned(tk, v);
  };
  switch (op) {
  case O_INTEGER:
  case O_UNSIGNED:
    if (n.s == S_I64)
      go64(int64_t(n.i));
    else
      go64(uint64_t(n.i));
    return;
  case O_FLOAT: insert ? (void)t.insert_float(tk, n.d) : acc ? (void)t[tk].set_float(n.d) : (void)t.set_float(tk, n.d); return;
  default:
    switch (n.s) {
    case S_I32: return go(int32_t(n.i));
    case S_U32: return go(uint32_t(n.i));
    case S_I64: return go(int64_t(n.i));
    case S_U64: return go(uint64_t(n.i));
    case S_F32: return go(float(n.d));
    default: return go(double(n.d));
    }
  }
}

static bool same_num(int g, const Val &a, const Val &b) {
  if (a == b)
    return true;
  if (g == G_F32)
    return (std::isnan(cast<float>(a)) && std::isnan(cast<float>(b))) || cast<float>(a) == cast<float>(b);
  if (g == G_F64)
    return (std::isnan(cast<double>(a)) && std::isnan(cast<double>(b))) || cast<double>(a) == cast<double>(b);
  return false;
}

// all generic getters must agree with the typed one
template <typename T> static void check_getters(const T &x, int g, const Val &v, const char *what) {
  I i = 0;
  double d = 0;
  if (is_int(g)) {
    int64_t s = 0;
    memcpy(&s, v.data(), v.size());
    s = s << (64 - 8 * v.size()) >> (64 - 8 * v.size());
    i = s;
  } else if (is_uint(g)) {
    uint64_t s = 0;
    memcpy(&s, v.data(), v.size());
    i = I(s);
  } else if (g == G_F32)
    d = double(cast<float>(v));
  else if (g == G_F64)
    d = cast<double>(v);
  Res a = guarded([&] { return raw_of(int64_t(x.get_integer())); });
  REQUIRE(is_int(g) ? a.out == ok && cast<int64_t>(a.val) == int64_t(i) : a.out == mismatch, "get_integer", "%s: get_integer() of %s %s gave %s", what, genus_names[g], hex(v).c_str(), a.str().c_str());
  a = guarded([&] { return raw_of(uint64_t(x.get_unsigned())); });
  REQUIRE(is_uint(g) ? a.out == ok && cast<uint64_t>(a.val) == uint64_t(i) : a.out == mismatch, "get_unsigned", "%s: get_unsigned() of %s %s gave %s", what, genus_names[g], hex(v).c_str(), a.str().c_str());
  a = guarded([&] { return raw_of(double(x.get_float())); });
  REQUIRE(is_flt(g) ? a.out == ok && same_num(G_F64, a.val, raw_of(d)) : a.out == mismatch, "get_float", "%s: get_float() of %s %s gave %s", what, genus_names[g], hex(v).c_str(), a.str().c_str());
  a = guarded([&] { return raw_of(double(x.get_number_as_ieee754double())); });
  if (is_flt(g))
    REQUIRE(a.out == ok && same_num(G_F64, a.val, raw_of(d)), "get_number", "%s: number of %s %s gave %s", what, genus_names[g], hex(v).c_str(), a.str().c_str());
  else if (is_int(g) || is_uint(g)) {
    const I m = i < 0 ? -i : i;
    const bool good = a.out == ok && I(cast<double>(a.val)) == i, refused = a.out == range;
    REQUIRE(m <= I(fptu::safe64_number_max) ? good : refused || (good && m <= (I(1) << 53)), "get_number", "%s: number of %s %s gave %s", what, genus_names[g], hex(v).c_str(), a.str().c_str());
  } else
    REQUIRE(a.out == mismatch, "get_number", "%s: number of %s gave %s", what, genus_names[g], a.str().c_str());
  if (g != G_B128) {
    a = guarded([&] { return raw_of(fptu::int128_t(x.get_int128())); });
    REQUIRE(is_int(g) ? a.out == ok && cast<I>(a.val) == i : a.out == mismatch, "get_int128", "%s: get_int128() of %s %s gave %s", what, genus_names[g], hex(v).c_str(), a.str().c_str());
    a = guarded([&] { return raw_of(fptu::uint128_t(x.get_uint128())); });
    REQUIRE(is_uint(g) ? a.out == ok && cast<I>(a.val) == i : a.out == mismatch, "get_uint128", "%s: get_uint128() of %s %s gave %s", what, genus_names[g], hex(v).c_str(), a.str().c_str());
  }
}

template <typename T> static void step(T &t, const fptu::token &tk, int g, bool disc, bool pre, bool coll, const Op op, const Num &num, bool acc) {
  auto typed = [&]() -> Res {
    if (!coll)
      return guarded([&] { return tup_get(t, tk, g); });
    Res a;
    a.out = absent;
    for (const auto &it : t.collection(tk))
      a = guarded([&] { return acc_get(it, g); });
    return a;
  };
  const Expect e = expect(op, num, g);
  if (coll) // keep at most one item to look at
    t.erase(tk);
  Res before = typed();
  // an accessor writes existing fields only
  const bool through_accessor = !coll && (op == O_ASSIGN || acc);
  log(strf("%s %s of %s -> %s%s%s%s", coll ? "insert" : "set", op_names[op], num.str().c_str(), genus_names[g], pre ? "/pre" : "", disc ? "/disc" : "", through_accessor ? " via accessor" : ""));
  Res a = guarded([&] {
    apply(t, tk, op, num, coll, acc);
    return Val();
  });
  count("ops_numeric");
  state(hash_bytes(&num.i, 16, hash_bytes(&num.d, 8, uint64_t(g * 8 + op))));
  if (a.out == absent) {
    // writing through an accessor of an absent field is refused
    REQUIRE(through_accessor, "numeric-outcome", "%s of %s into %s gave %s", op_names[op], num.str().c_str(), genus_names[g], a.str().c_str());
    return;
  }
  const bool allowed = a.out == mismatch ? e.mismatch : a.out == range ? e.refuse : a.out == ok ? e.exact : false;
  REQUIRE(allowed, "numeric-outcome", "%s of %s into %s gave %s", op_names[op], num.str().c_str(), genus_names[g], a.str().c_str());
  Res after = typed();
  if (a.out != ok) {
    count("numeric_refused");
    REQUIRE(after == before, "numeric-refusal-changed", "refused %s of %s changed the field from %s to %s", op_names[op], num.str().c_str(), before.str().c_str(), after.str().c_str());
    return;
  }
  count("numeric_stored");
  if (!disc && after.out == ok && is_empty_val(g, e.v))
    ;
  if (coll && !disc && after.out == absent) {
    REQUIRE(is_empty_val(g, e.v), "numeric-value", "%s of %s into %s: nothing is stored", op_names[op], num.str().c_str(), genus_names[g]);
    return;
  }
  REQUIRE(after.out == ok && same_num(g, after.val, e.v), "numeric-value", "%s of %s into %s stored %s instead of %s", op_names[op], num.str().c_str(), genus_names[g], after.str().c_str(), hex(e.v).c_str());
  if (!coll) {
    struct G {
      T &t;
      const fptu::token &tk;
      auto get_integer() const { return t.get_integer(tk); }
      auto get_unsigned() const { return t.get_unsigned(tk); }
      auto get_float() const { return t.get_float(tk); }
      auto get_number_as_ieee754double() const { return t.get_number_as_ieee754double(tk); }
      auto get_int128() const { return fptu::int128_t(t.get_int128(tk)); }
      auto get_uint128() const { return fptu::uint128_t(t.get_uint128(tk)); }
    };
    check_getters(G{t, tk}, g, after.val, "tuple");
    if (disc || !is_empty_val(g, after.val))
      check_getters(t[tk], g, after.val, "accessor");
  } else
    for (const auto &it : t.collection(tk))
      check_getters(it, g, after.val, "item");
}
template <typename T> static void run(rng &r, T &t, const fptu::token &tk, int g, bool disc, bool pre, bool coll) {
  const size_t n = 4 + r(12);
  for (size_t k = 0; k < n; ++k) {
    const Op op = Op(r(coll ? int(O_ASSIGN) : int(O_N)));
    const Num num = gen(r, op, g);
    step(t, tk, g, disc, pre, coll, op, num, r.chance(40));
  }
}

// 128-bit integers
static void int128_case(rng &r, uint64_t) {
  static const int gs[] = {G_I8, G_U8, G_I16, G_U16, G_I32, G_U32, G_I64, G_U64, G_B128, G_B128, G_F64, G_B96};
  const int g = gs[r(std::size(gs))];
  const bool pre = r.chance(40), coll = !pre && r.chance(30);
  auto s = fptu::schema::create();
  for (size_t k = r(3); k > 0; --k)
    s->define_preplaced("p" + std::to_string(k), fptu::genus(r.chance(50) ? G_U8 : G_U32));
  if (pre)
    s->define_preplaced("x", fptu::genus(g), false);
  else
    s->define_loose("x", fptu::genus(g), coll, true);
  s->define_loose("filler", fptu::genus::text, true, true);
  const auto tk = s->get_token("x"), fl = s->get_token("filler");
  fptu::tuple_rw_fixed t(size_t(40), size_t(900), s.get());
  for (unsigned k = 0; k < 8; ++k) {
    if (r.chance(60))
      t.insert_string(fl, fptu::string_view("abcdefghijklm", r(13))); // vary the alignment of payload
    if (coll)
      t.erase(tk);
    const bool uns = r.chance(50);
    I v = I(U(r.next()) << 64 | r.next());
    switch (r(4)) {
    case 0: v = I(r(9)) - 4; break;
    case 1:
      v = (I(1) << r(127)) + I(r(5)) - 2;
      if (r.chance(40))
        v = -v;
      break;
    case 2: v >>= r(127); break;
    default: break;
    }
    const fptu::int128_t sv = v;
    const fptu::uint128_t uv = U(v);
    log(strf("%s %s of %s -> %s", coll ? "insert" : "set", uns ? "uint128" : "int128", hex(&v, 16).c_str(), genus_names[g]));
    const bool acc = !coll && g != G_B128 && !pre ? t.is_present(tk) && r.chance(50) : !coll && pre && r.chance(50);
    Res a = guarded([&] {
      if (uns)
        coll ? (void)t.insert_uint128(tk, uv) : acc ? (void)t[tk].set_uint128(uv) : (void)t.set_uint128(tk, uv);
      else
        coll ? (void)t.insert_int128(tk, sv) : acc ? (void)t[tk].set_int128(sv) : (void)t.set_int128(tk, sv);
      return Val();
    });
    count("ops_int128");
    state(hash_bytes(&v, 16, uint64_t(g * 2 + uns)));
    bool fits = false;
    const bool type_ok = g == G_B128 || (uns ? is_uint(g) : is_int(g));
    if (g == G_B128)
      fits = true;
    else if (type_ok) {
      I lo, hi;
      bounds(g, lo, hi);
      fits = uns ? U(v) <= U(hi) : v >= lo && v <= hi;
    }
    const bool good = a.out == ok ? type_ok && fits : a.out == mismatch ? !type_ok : a.out == range ? !fits : false;
    REQUIRE(good, "int128-outcome", "%s %s into %s gave %s", uns ? "uint128" : "int128", hex(&v, 16).c_str(), genus_names[g], a.str().c_str());
    if (a.out != ok)
      continue;
    count("int128_stored");
    auto look = [&](const auto &x) {
      Res b = guarded([&] { return uns ? raw_of(fptu::uint128_t(x.get_uint128())) : raw_of(fptu::int128_t(x.get_int128())); });
      REQUIRE(b.out == ok && b.val == raw_of(v), "int128-value", "stored %s, read %s", hex(&v, 16).c_str(), b.str().c_str());
    };
    struct G {
      fptu::tuple_rw_fixed &t;
      const fptu::token &tk;
      auto get_int128() const { return fptu::int128_t(t.get_int128(tk)); }
      auto get_uint128() const { return fptu::uint128_t(t.get_uint128(tk)); }
    };
    if (coll)
      for (const auto &it : t.collection(tk))
        look(it);
    else {
      look(G{t, tk});
      if (!pre || v)
        look(t[tk]);
    }
  }
}

static void numeric_case(rng &r, uint64_t) {
  static const int nums[] = {G_I8, G_U8, G_I16, G_U16, G_I32, G_U32, G_I64, G_U64, G_F32, G_F64};
  const int g = r.chance(92) ? nums[r(std::size(nums))] : int(r(G_HOLE));
  if (g == G_APP64 || g == G_APP128 || g == G_HOLE)
    return;
  const bool pre = r.chance(30), coll = !pre && r.chance(25), disc = !pre && r.chance(60);
  auto s = fptu::schema::create();
  if (r.chance(40))
    s->define_preplaced("p", fptu::genus(r.chance(50) ? G_U8 : G_U16));
  if (pre)
    s->define_preplaced("x", fptu::genus(g), false);
  else
    s->define_loose("x", fptu::genus(g), coll, disc);
  auto tk = s->get_token("x");
  if (r.chance(50)) {
    fptu::tuple_rw_fixed t(size_t(4 + r(6)), size_t(200 + r(200)), s.get());
    run(r, t, tk, g, disc, pre, coll);
  } else {
    fptu::tuple_rw_managed t(fptu::tuple_rw_fixed(size_t(4 + r(6)), size_t(200 + r(200)), s.get()));
    run(r, t, tk, g, disc, pre, coll);
  }
}

// Systematic: every (entry point, source type, field type, way of writing) with every boundary value.
static void grid_case(rng &r, uint64_t c) {
  static const int nums[] = {G_I8, G_U8, G_I16, G_U16, G_I32, G_U32, G_I64, G_U64, G_F32, G_F64};
  enum { W_LOOSE, W_LOOSE_ACC, W_PRE, W_PRE_ACC, W_INSERT, W_N };
  const int g = nums[c % 10];
  const Op op = Op(c / 10 % O_N);
  const int way = int(c / 50 % W_N);
  const bool pre = way == W_PRE || way == W_PRE_ACC, coll = way == W_INSERT, acc = way == W_LOOSE_ACC || way == W_PRE_ACC;
  if (op == O_ASSIGN && !acc)
    return;
  const bool managed = c / 250 & 1, disc = !pre && !(c / 500 & 1);
  auto s = fptu::schema::create();
  if (r.chance(50))
    s->define_preplaced("p", fptu::genus(G_U8));
  if (pre)
    s->define_preplaced("x", fptu::genus(g), false);
  else
    s->define_loose("x", fptu::genus(g), coll, disc);
  const auto tk = s->get_token("x");
  std::vector<I> ints;
  for (int k = 0; k <= 64; ++k)
    for (int d = -2; d <= 2; ++d)
      for (int sign = -1; sign <= 1; sign += 2)
        if (k < 2 || k > 62 || k % 8 == 0 || k % 8 == 7 || k == 21 || k == 22 || k == 53 || k == 54 || d == 0)
          ints.push_back(sign * ((I(1) << k) + d));
  static const int64_t safe[] = {0, int64_t(fptu::safe32_number_max), int64_t(fptu::safe64_number_max)};
  for (int64_t x : safe)
    for (int d = -2; d <= 2; ++d)
      ints.push_back(I(x) + d), ints.push_back(-(I(x) + d));
  std::vector<Num> all;
  for (int src = 0; src < S_N; ++src) {
    if (!(op == O_NUMBER || op == O_ASSIGN || (op == O_FLOAT && src == S_F64) || ((op == O_INTEGER || op == O_UNSIGNED) && (src == S_I64 || src == S_U64))))
      continue;
    Num n;
    n.s = Src(src);
    if (!n.flt()) {
      for (I x : ints) {
        n.i = x;
        const I lo = src == S_I32 ? INT32_MIN : src == S_I64 ? INT64_MIN : 0;
        const I hi = src == S_I32 ? I(INT32_MAX) : src == S_U32 ? I(UINT32_MAX) : src == S_I64 ? I(INT64_MAX) : I(UINT64_MAX);
        if (x >= lo && x <= hi)
          all.push_back(n);
      }
      continue;
    }
    auto put = [&](double d) {
      n.d = src == S_F32 ? double(float(d)) : d;
      all.push_back(n);
    };
    for (I x : ints) {
      const double d = double(x);
      put(d);
      for (double f : {0.25, 0.5, 0.75})
        put(d + f), put(d - f);
      if (src == S_F32)
        put(double(std::nextafterf(float(d), INFINITY))), put(double(std::nextafterf(float(d), -INFINITY)));
      else
        put(std::nextafter(d, INFINITY)), put(std::nextafter(d, -INFINITY));
    }
    for (double d : {double(INFINITY), double(NAN), 0.0, 1e38, 3.4028234663852886e38, 3.4028235e38, 3.4028236e38, 3.5e38, 1e39, 1e308, 5e-324, 1e-46, 1e-38, 1e-45})
      put(d), put(-d);
  }
  auto go = [&](auto &t) {
    for (size_t i = all.size(); i > 1; --i)
      std::swap(all[i - 1], all[r(i)]);
    if (!coll && acc && !pre) { // let the field exist
      fptu::token tk2 = tk;
      is_flt(g) ? (void)t.set_float(tk2, 1.5) : is_int(g) ? (void)t.set_integer(tk2, int64_t(1)) : (void)t.set_unsigned(tk2, uint64_t(1));
    }
    for (const Num &n : all)
      step(t, tk, g, disc, pre, coll, op, n, acc);
  };
  if (managed) {
    fptu::tuple_rw_managed t(fptu::tuple_rw_fixed(size_t(6), size_t(300), s.get()));
    go(t);
  } else {
    fptu::tuple_rw_fixed t(size_t(6), size_t(300), s.get());
    go(t);
  }
  count("grid_cells");
}

int main(int argc, char **argv) {
  std::map<std::string, case_fn> s;
  s["int128"] = int128_case;
  s["grid"] = grid_case;
  s["numeric"] = numeric_case;
  return run_main(argc, argv, s);
}

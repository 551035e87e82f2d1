// Schemas: names and tokens, layout of preplaced fields, imports, lookups.
#include "world.h"
#include <set>
using namespace vt;

struct Field {
  std::string name;
  int g;
  bool pre, coll, disc, sat;
  unsigned at; // offset or id
  bool has_init = false;
  Val init;
  fptu::token tok;
};

struct Model {
  std::vector<Field> fields;
  size_t image = 0;
  std::set<size_t> packed; // imported at any offset
  unsigned next_id(int g) const {
    int m = -1;
    for (auto &f : fields)
      if (!f.pre && f.g == g)
        m = std::max(m, int(f.at));
    return unsigned(m + 1);
  }
};
static const unsigned max_id = 1023;

static std::string name_for(rng &r, size_t k) {
  static const char *const odd[] = {"", "a", "A", "имя", "na me", "a.b", "0", "-", "\"q\"", "\n"};
  if (r.chance(8))
    return odd[r(std::size(odd))];
  std::string s = "f" + std::to_string(r.chance(85) ? k : r(k + 1));
  if (r.chance(10))
    s += std::string(r(45), 'x');
  return s;
}

static void describe(const fptu::token &t, const Field &f, const char *how) {
  REQUIRE(t.is_valid() && int(t.type()) == f.g && t.is_preplaced() == f.pre && t.is_loose() == !f.pre, "token-kind", "%s: token of %s has another type or placement", how, f.name.c_str());
  REQUIRE(t.is_discernible_null() == f.disc && t.is_saturated() == f.sat, "token-flags", "%s: token of %s has other flags", how, f.name.c_str());
  if (f.pre)
    REQUIRE(t.preplaced_offset() == ptrdiff_t(f.at), "token-offset", "%s: token of %s is at %zd instead of %u", how, f.name.c_str(), t.preplaced_offset(), f.at);
  else
    REQUIRE(t.id() == f.at && t.is_collection() == f.coll, "token-id", "%s: token of %s has id %u instead of %u", how, f.name.c_str(), unsigned(t.id()), f.at);
  REQUIRE(t.is_stretchy() == stretchy(f.g), "token-stretchy", "%s: token of %s", how, f.name.c_str());
}

static void verify(rng &r, const fptu::schema &s, const Model &m) {
  using bo = fptu::schema::boolean_option;
  REQUIRE(s.tokens().size() == m.fields.size(), "count", "%zu tokens instead of %zu", s.tokens().size(), m.fields.size());
  size_t pre = 0, str = 0;
  std::set<uint64_t> seen;
  for (auto &f : m.fields) {
    const fptu::token t = s.get_token(fptu::string_view(f.name));
    describe(t, f, "get_token");
    describe(f.tok, f, "defined");
    REQUIRE(t == f.tok, "token-differs", "token of %s changed", f.name.c_str());
    const auto n = s.get_name(t);
    REQUIRE(std::string(n.data(), n.size()) == f.name, "name-of-token", "token of '%s' is named '%s'", f.name.c_str(), std::string(n.data(), n.size()).c_str());
    REQUIRE(s[fptu::string_view(f.name)] == t && std::string(s[t].data(), s[t].size()) == f.name, "subscript", "%s", f.name.c_str());
    // enforced flags do not alter identity
    const bool d = r.chance(50), sa = r.chance(50);
    const fptu::token e = s.get_token(fptu::string_view(f.name), d ? bo::option_enforce_true : bo::option_enforce_false, sa ? bo::option_enforce_true : bo::option_enforce_false);
    Field g = f;
    g.disc = d, g.sat = sa;
    describe(e, g, "enforced");
    const auto n2 = s.get_name_nothrow(e);
    REQUIRE(std::string(n2.data(), n2.size()) == f.name, "name-of-enforced", "%s", f.name.c_str());
    pre += f.pre;
    str += f.pre && stretchy(f.g);
    REQUIRE(seen.insert(f.pre ? (uint64_t(f.at) << 32 | 1u << 31) : uint64_t(f.g) << 11 | f.at).second, "token-unique", "%s shares its token", f.name.c_str());
  }
  REQUIRE(s.number_of_preplaced() == pre && s.number_of_stretchy_preplaced() == str && s.have_preplaced() == (pre > 0) && s.have_stretchy_preplaced() == (str > 0), "counters", "%zu/%zu preplaced instead of %zu/%zu",
          s.number_of_preplaced(), s.number_of_stretchy_preplaced(), pre, str);
  REQUIRE(s.preplaced_bytes() == m.image && s.preplaced_units() == (m.image + 3) / 4, "image-size", "preplaced area is %zu bytes instead of %zu", s.preplaced_bytes(), m.image);
  // sorted list: preplaced first by offset, each inside the image and apart from others
  size_t end = 0;
  for (size_t i = 0; i < s.tokens().size(); ++i) {
    const auto &t = s.tokens()[i];
    REQUIRE(t.is_preplaced() == (i < pre), "order", "preplaced tokens are not first");
    if (i) {
      const auto &p = s.tokens()[r(i)];
      REQUIRE(p < t && p <= t && t > p && t >= p && p != t && !(t < p) && !(t <= p) && !(p > t) && !(p >= t) && !(p == t) && t <= t && t >= t && !(t < t) && !(t > t) && t == t && !(t != t), "token-order", "tokens are out of order");
    }
    if (i < pre) {
      const size_t o = size_t(t.preplaced_offset()), sz = slot_bytes[int(t.type())];
      REQUIRE(o >= end, "overlap", "preplaced field at %zu overlaps the previous which ends at %zu", o, end);
      REQUIRE(o % std::min<size_t>(sz, 4) == 0 || m.packed.count(o), "alignment", "preplaced %s at %zu", genus_names[int(t.type())], o);
      end = o + sz;
      REQUIRE(end <= m.image, "outside", "preplaced field ends at %zu of %zu", end, m.image);
    } else if (i > pre) {
      const auto &p = s.tokens()[i - 1];
      REQUIRE((unsigned(p.type()) << 11 | p.id()) < (unsigned(t.type()) << 11 | t.id()), "order", "loose tokens are not sorted");
    }
  }
  // by offset
  std::vector<ptrdiff_t> offsets = {-1, 0, 1, ptrdiff_t(m.image) - 1, ptrdiff_t(m.image), ptrdiff_t(m.image) + 1, -ptrdiff_t(1 + r(100000)), ptrdiff_t(m.image + r(100000))};
  for (unsigned k = 0; k < 8 + m.image / 16; ++k)
    offsets.push_back(ptrdiff_t(r(m.image + 3)) - 1);
  for (const ptrdiff_t o : offsets) {
    const Field *at = nullptr, *next = nullptr, *prev = nullptr;
    for (auto &f : m.fields)
      if (f.pre) {
        if (ptrdiff_t(f.at) == o)
          at = &f;
        if (ptrdiff_t(f.at) > o && (!next || f.at < next->at))
          next = &f;
        if (ptrdiff_t(f.at) < o && (!prev || f.at > prev->at))
          prev = &f;
      }
    auto same = [&](const fptu::token &t, const Field *f, const char *what) {
      REQUIRE(t.is_valid() == (f != nullptr) && (!f || t == f->tok), "by-offset", "%s(%zd) of %zu gave %s", what, o, m.image, t.is_valid() ? "another field" : "nothing");
    };
    const bool in = o >= 0 && o < ptrdiff_t(m.image);
    same(s.by_offset(o), in ? at : nullptr, "by_offset");
    same(s.next_by_offset(o), in ? next : nullptr, "next_by_offset");
    same(s.prev_by_offset(o), o > 0 && o <= ptrdiff_t(m.image) ? prev : nullptr, "prev_by_offset");
  }
  // unknown names and tokens
  for (unsigned k = 0; k < 3; ++k) {
    const std::string n = "nope" + std::to_string(r(1000));
    Res a = guarded([&] {
      return raw_of(s.get_token(fptu::string_view(n)).is_valid());
    });
    REQUIRE(a.out != ok && !s.get_token_nothrow(fptu::string_view(n)).is_valid(), "unknown-name", "unknown name is found");
    const int g = int(r(G_HOLE));
    const fptu::token t(fptu::genus(g), unsigned(r(max_id)), r.chance(50), r.chance(50), false);
    bool known = false;
    for (auto &f : m.fields)
      known |= !f.pre && f.g == g && f.at == t.id();
    REQUIRE(known || s.get_name_nothrow(t).nil(), "unknown-token", "unknown token has a name");
    a = guarded([&] {
      const auto nm = s.get_name(t);
      return Val(nm.data(), nm.size());
    });
    REQUIRE(known == (a.out == ok), "unknown-token", "get_name() of %s token gave %s", known ? "a known" : "an unknown", a.str().c_str());
  }
}

// what a fresh tuple holds in its preplaced fields
static void verify_initial(rng &r, const fptu::schema &s, const Model &m) {
  fptu::tuple_rw_fixed t(size_t(3), size_t(64), &s);
  const char *tr = fptu::tuple_ro_weak::validate(t.take_weak_asis().data(), t.take_weak_asis().size(), &s, false);
  REQUIRE(!tr, "fresh-invalid", "a fresh tuple is invalid: %s", tr);
  for (auto &f : m.fields)
    if (f.pre && f.g != G_APP64 && f.g != G_APP128) {
      Res a = guarded([&] { return tup_get(t, f.tok, f.g); });
      if (!f.has_init) {
        if (f.disc)
          REQUIRE(a.out == absent && !t.is_present(f.tok), "fresh-present", "fresh %s %s reads %s", genus_names[f.g], f.name.c_str(), a.str().c_str());
        else
          REQUIRE(a.out == ok && is_empty_val(f.g, a.val), "fresh-value", "fresh %s %s reads %s", genus_names[f.g], f.name.c_str(), a.str().c_str());
      } else if (f.disc && f.init == denil(f.g))
        REQUIRE(a.out == absent, "fresh-present", "%s initialised with NIL reads %s", f.name.c_str(), a.str().c_str());
      else
        REQUIRE(a.out == ok && a.val == f.init, "initial-value", "%s %s at %u reads %s instead of the initial %s", genus_names[f.g], f.name.c_str(), f.at, a.str().c_str(), hex(f.init).c_str());
    }
  (void)r;
}

// the estimate of the size is about the size of a tuple with every field once
static void verify_estimate(rng &r, const fptu::schema &s, const Model &m) {
  const size_t len = r(10) ? r(60) : r(300);
  fptu::tuple_rw_fixed t(size_t(60), size_t(30000), &s);
  size_t stretched = 0;
  for (auto &f : m.fields) {
    if (f.g == G_NESTED || f.g == G_APP64 || f.g == G_APP128 || f.g == G_PROPERTY) // of a length of their own
      return;
    Val v = stretchy(f.g) ? Val(len, 'x') : Val(size_t(value_bytes[f.g]), 1);
    stretched += stretchy(f.g);
    if (f.g == G_TEXT || f.g == G_VARBIN || !stretchy(f.g)) {
      Res a = guarded([&] {
        if (f.coll)
          tup_insert(t, f.tok, f.g, v);
        else
          tup_set(t, f.tok, f.g, v);
        return Val();
      });
      if (a.out != ok)
        return;
    } else
      return;
  }
  const size_t real = t.take_weak_optimized().first.size(), est = fptu::schema::estimate_tuple_size(s.tokens(), len);
  const size_t slack = 8 + 8 * stretched;
  REQUIRE(est <= real + slack && real <= est + slack, "estimate", "%zu bytes are estimated for %zu fields of average length %zu, but it takes %zu", est, m.fields.size(), len, real);
  count("estimates");
}

static void schema_case(rng &r, uint64_t) {
  auto s = fptu::schema::create();
  Model m;
    const size_t n = r.chance(5) ? 200 + r(1200) : 1 + r(30);
  const unsigned pre_share = r.chance(30) ? 95 : 20; // up to the limit of the preplaced area
  const int favourite = r.chance(30) ? int(r(G_HOLE)) : -1;
  for (size_t k = 0; k < n; ++k) {
    Field f;
    f.name = name_for(r, k);
    f.g = favourite >= 0 && r.chance(90) ? favourite : int(r(G_HOLE));
    f.pre = r.chance(n > 100 ? pre_share : 50);
    f.coll = !f.pre && r.chance(40);
    f.disc = r.chance(50);
    f.sat = r.chance(20);
    const bool import = r.chance(35), renominate = import && r.chance(40);
    bool refuse = f.name.size() > 42, packed = false;
    for (auto &o : m.fields)
      refuse |= o.name == f.name;
    const size_t sz = slot_bytes[f.g], al = std::min<size_t>(sz, 4);
    size_t image = m.image;
    if (f.pre && !stretchy(f.g) && r.chance(40)) {
      f.has_init = true;
      f.init.resize(size_t(value_bytes[f.g]));
      for (auto &c : f.init)
        c = char(r(256));
    }
    Val init = f.init;
    init.resize(std::max(init.size(), sz), 0);
    const void *ip = f.has_init ? init.data() : nullptr;
    if (f.g == G_D64 || f.g == G_T64 || f.g == G_T32)
      f.has_init = false, ip = nullptr;
    Res a;
    if (r.chance(5)) { // not a field at all
      const auto before = s->tokens().size();
      const std::string nn = "hole" + std::to_string(k);
      const unsigned how = unsigned(r(4));
      a = guarded([&] {
        if (how == 0)
          s->define_preplaced(std::string(nn), fptu::genus::hole, f.disc, f.sat, nullptr);
        else if (how == 1)
          s->define_loose(std::string(nn), fptu::genus::hole, f.coll, f.disc, f.sat);
        else if (how == 2)
          s->define_collection(std::string(nn), fptu::genus::hole, f.disc, f.sat);
        else
          s->define_field(r.chance(50), std::string(nn), fptu::genus::hole, f.disc, f.sat);
        return Val();
      });
      REQUIRE(a.out != ok && s->tokens().size() == before && !s->get_token_nothrow(fptu::string_view(nn)).is_valid(), "hole-defined", "a field without a type was defined (%u)", how);
      count("holes_refused");
    }
    if (import && !renominate) {
      if (f.pre) {
        const size_t span = m.image + 40;
        f.at = unsigned((r.chance(3) ? 16382 - r(90) : r(span)) / al * al);
        if (f.at > 16381) {
          const auto bad = guarded([&] { (void)fptu::token(f.at, fptu::genus(f.g), f.disc, f.sat); return Val(); });
          REQUIRE(bad.out == badarg, "far-token", "a token at offset %u gave %s", f.at, bad.str().c_str());
          count("far_tokens_refused");
          f.at = unsigned((16382 - r(90)) / al * al);
        }
        if (r.chance(15)) { // of a packed structure
          f.at = std::min(16381u, f.at + unsigned(r(4)));
          packed = true;
          if (stretchy(f.g) && f.at % 4)
            refuse = true, count("misaligned_refused");
          else if (f.at % al)
            count("misaligned");
        }
        for (auto &o : m.fields)
          if (o.pre)
            refuse |= f.at < o.at + slot_bytes[o.g] && o.at < f.at + sz;
        image = std::max(image, f.at + sz);
        f.tok = fptu::token(f.at, fptu::genus(f.g), f.disc, f.sat);
      } else {
        f.at = unsigned(r.chance(80) ? r(12) : r(max_id + 1));
        for (auto &o : m.fields)
          refuse |= !o.pre && o.g == f.g && o.at == f.at;
        f.tok = fptu::token(fptu::genus(f.g), f.at, f.coll, f.disc, f.sat);
      }
      log(strf("import %s %s %s at %u%s%s", f.name.c_str(), genus_names[f.g], f.pre ? "pre" : "loose", f.at, f.disc ? " disc" : "", ip ? " init" : ""));
      count("imports");
      a = guarded([&] {
        const fptu::token t = s->import_definition(std::string(f.name), f.tok, ip, false);
        REQUIRE(t == f.tok, "import-token", "imported token changed");
        return Val();
      });
    } else {
      if (f.pre) {
        f.at = unsigned((m.image + al - 1) / al * al);
        if (f.at > 16381)
          refuse = true;
        image = f.at + sz;
      } else {
        f.at = m.next_id(f.g);
        if (f.at > max_id)
          refuse = true;
      }
      log(strf("%s %s %s %s at %u%s%s", renominate ? "renominate" : "define", f.name.c_str(), genus_names[f.g], f.pre ? "pre" : "loose", f.at, f.disc ? " disc" : "", ip ? " init" : ""));
      a = guarded([&] {
        if (renominate) {
          const fptu::token from = f.pre ? fptu::token(unsigned(r(500) * 4), fptu::genus(f.g), f.disc, f.sat) : fptu::token(fptu::genus(f.g), unsigned(r(100)), f.coll, f.disc, f.sat);
          f.tok = s->import_definition(std::string(f.name), from, ip, true);
        } else if (f.pre)
          f.tok = !ip && r.chance(30) ? s->define_field(true, std::string(f.name), fptu::genus(f.g), f.disc, f.sat) : s->define_preplaced(std::string(f.name), fptu::genus(f.g), f.disc, f.sat, ip);
        else if (f.coll)
          f.tok = r.chance(50) ? s->define_collection(std::string(f.name), fptu::genus(f.g), f.disc, f.sat) : s->define_loose(std::string(f.name), fptu::genus(f.g), true, f.disc, f.sat);
        else
          f.tok = s->define_loose(std::string(f.name), fptu::genus(f.g), false, f.disc, f.sat);
        return Val();
      });
    }
    if (f.pre && f.at > 16381 - 60)
      count(refuse ? "preplaced_limit_refused" : "preplaced_limit");
    count(refuse ? "definitions_refused" : "definitions");
    REQUIRE((a.out == ok) == !refuse, "definition-outcome", "definition of %s gave %s, but it had to be %s", f.name.c_str(), a.str().c_str(), refuse ? "refused" : "accepted");
    if (!refuse) {
      m.image = f.pre ? image : m.image;
      m.fields.push_back(f);
      if (packed)
        m.packed.insert(f.at);
    }
    if (n < 40 || k + 1 == n || r.chance(2)) {
      verify(r, *s, m);
      if (m.image < 60000 && (k + 1 == n || r.chance(20)))
        verify_initial(r, *s, m);
    }
    if (m.image < 10000 && m.fields.size() < 50 && r.chance(10))
      verify_estimate(r, *s, m);
    state(hash_bytes(&f.at, 4, hash_bytes(&f.g, 4, m.fields.size() * 64 + f.pre * 4 + refuse)));
  }
}

// compile-time tokens against run-time ones
#pragma pack(push, 4)
struct Rec {
  uint8_t u8;
  int8_t i8;
  uint16_t u16;
  int32_t i32;
  uint64_t u64;
  int16_t i16;
  float f32;
  int64_t i64;
  uint32_t u32;
  double f64;
};
#pragma pack(pop)
#define REC_FIELDS(X) X(u8, uint8_t) X(i8, int8_t) X(u16, uint16_t) X(i32, int32_t) X(u64, uint64_t) X(i16, int16_t) X(f32, float) X(i64, int64_t) X(u32, uint32_t) X(f64, double)
#define X(N, T) typedef FPTU_TOKEN(Rec, N) tok_##N;
REC_FIELDS(X)
#undef X
static void statics_case(rng &r, uint64_t) {
  auto s = fptu::schema::create();
  // in any order
  std::vector<int> order(10);
  for (int i = 0; i < 10; ++i)
    order[size_t(i)] = i;
  for (size_t k = 10; k > 1; --k)
    std::swap(order[k - 1], order[r(k)]);
  for (int o : order) {
    int k = 0;
#define X(N, T) if (k++ == o) { const fptu::token t{tok_##N()}; REQUIRE(t.is_preplaced() && t.preplaced_offset() == ptrdiff_t(offsetof(Rec, N)) && t.type() == fptu::genus::N, "static-token", "%s", #N); s->import_definition(#N, t); }
    REC_FIELDS(X)
#undef X
  }
  REQUIRE(s->preplaced_bytes() == sizeof(Rec), "static-layout", "preplaced area is %zu bytes, the structure is %zu", s->preplaced_bytes(), sizeof(Rec));
  s->define_loose("text", fptu::genus::text, true, true);
  const auto tx = s->get_token("text");
  fptu::tuple_rw_fixed t(size_t(8), size_t(300), s.get());
  Rec m;
  memset(&m, 0, sizeof m);
  for (unsigned k = 0; k < 30; ++k) {
    const int o = int(r(11));
    int j = 0;
    log(strf("write #%d", o));
#define X(N, T)                                                                                                                                                                                        \
  if (j++ == o) {                                                                                                                                                                                      \
    const uint64_t bits = r.next() >> (r.chance(30) ? 60 : 0);                                                                                                                                         \
    T v;                                                                                                                                                                                               \
    memcpy(&v, &bits, sizeof(T));                                                                                                                                                                      \
    if (v != v)                                                                                                                                                                                        \
      v = 1;                                                                                                                                                                                           \
    switch (r(3)) {                                                                                                                                                                                    \
    case 0: t.set_##N(tok_##N(), v); break;                                                                                                                                                            \
    case 1: t[tok_##N()].set_##N(v); break;                                                                                                                                                            \
    default: t.set_##N(s->get_token(#N), v);                                                                                                                                                           \
    }                                                                                                                                                                                                  \
    m.N = v;                                                                                                                                                                                           \
  }
    REC_FIELDS(X)
#undef X
    if (o == 10)
      guarded([&] { t.insert_string(tx, fptu::string_view("abcdef", r(6))); return Val(); });
    count("ops_static");
    const auto w = t.take_weak_asis();
    state(hash_bytes(&m, sizeof m));
#define X(N, T) REQUIRE(t.get_##N(tok_##N()) == m.N && t.get_##N(s->get_token(#N)) == m.N && w.get_##N(tok_##N()) == m.N && w.get_##N(s->get_token(#N)) == m.N && t.is_present(tok_##N()), "static-read", "%s", #N);
    REC_FIELDS(X)
#undef X
  }
}

int main(int argc, char **argv) {
  std::map<std::string, case_fn> s;
  s["statics"] = statics_case;
  s["schema"] = schema_case;
  return run_main(argc, argv, s);
}

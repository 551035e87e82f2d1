// The legacy C-compatible API against an independent multimap model.
#include "fpt.h"
#include "fast_positive/tuples/legacy.h"
#include <set>
using namespace vt;

namespace {
enum { K_U16, K_BOOL, K_I32, K_U32, K_F32, K_I64, K_U64, K_F64, K_DT, K_96, K_128, K_160, K_256, K_STR, K_OPAQUE, K_NESTED, K_MAX };
struct Kind {
  const char *name;
  fptu_type type;
  unsigned size; // 0 = variable
  unsigned units;
  int g;
};
const Kind kinds[K_MAX] = {{"uint16", fptu_uint16, 2, 0, G_U16},   {"bool", fptu_bool, 1, 0, G_I8},     {"int32", fptu_int32, 4, 1, G_I32},
                           {"uint32", fptu_uint32, 4, 1, G_U32},   {"fp32", fptu_fp32, 4, 1, G_F32},      {"int64", fptu_int64, 8, 2, G_I64},
                           {"uint64", fptu_uint64, 8, 2, G_U64},   {"fp64", fptu_fp64, 8, 2, G_F64},      {"datetime", fptu_datetime, 8, 2, G_T64},
                           {"b96", fptu_96, 12, 3, G_B96},         {"b128", fptu_128, 16, 4, G_B128},      {"b160", fptu_160, 20, 5, G_B160},
                           {"b256", fptu_256, 32, 8, G_B256},      {"cstr", fptu_cstr, 0, 0, G_TEXT},     {"opaque", fptu_opaque, 0, 0, G_VARBIN},
                           {"nested", fptu_nested, 0, 0, G_NESTED}};
template <typename T> T as(const Val &v) {
  T x;
  memcpy(&x, v.data(), sizeof(x));
  return x;
}
template <typename T> Val of(const T &x) { return Val(reinterpret_cast<const char *>(&x), sizeof(x)); }

size_t need_units(int k, const Val &v) {
  if (kinds[k].size)
    return kinds[k].units;
  if (k == K_STR)
    return (v.size() + (v.size() < 254 ? 1 : 3) + 3) / 4;
  if (k == K_OPAQUE)
    return 1 + (v.size() + 3) / 4;
  return v.size() / 4;
}

fptu_ro ro_of(const Val &v) {
  fptu_ro r;
  r.sys.iov_base = const_cast<char *>(v.data());
  r.sys.iov_len = v.size();
  return r;
}
// aligned home of a nested tuple
struct Aligned {
  std::vector<uint32_t> mem;
  fptu_ro ro;
  explicit Aligned(const Val &v) : mem(v.size() / 4 + 1) {
    memcpy(mem.data(), v.data(), v.size());
    ro.sys.iov_base = mem.data();
    ro.sys.iov_len = v.size();
  }
};

#define THREE(OP)                                                                                                                     \
  fptu_error do_##OP(fptu_rw *pt, unsigned col, int k, const Val &v, bool alt) {                                                      \
    switch (k) {                                                                                                                      \
    case K_U16: return fptu_##OP##_uint16(pt, col, as<uint16_t>(v));                                                                  \
    case K_BOOL: return fptu_##OP##_bool(pt, col, v[0] != 0);                                                                         \
    case K_I32: return fptu_##OP##_int32(pt, col, as<int32_t>(v));                                                                    \
    case K_U32: return fptu_##OP##_uint32(pt, col, as<uint32_t>(v));                                                                  \
    case K_F32: return fptu_##OP##_fp32(pt, col, as<float>(v));                                                                       \
    case K_I64: return fptu_##OP##_int64(pt, col, as<int64_t>(v));                                                                    \
    case K_U64: return fptu_##OP##_uint64(pt, col, as<uint64_t>(v));                                                                  \
    case K_F64: return fptu_##OP##_fp64(pt, col, as<double>(v));                                                                      \
    case K_DT: return fptu_##OP##_datetime(pt, col, fptu_datetime_t::from_fixedpoint_32dot32(as<uint64_t>(v)));                       \
    case K_96: return fptu_##OP##_96(pt, col, v.data());                                                                              \
    case K_128: return fptu_##OP##_128(pt, col, v.data());                                                                            \
    case K_160: return fptu_##OP##_160(pt, col, v.data());                                                                            \
    case K_256: return fptu_##OP##_256(pt, col, v.data());                                                                            \
    case K_STR:                                                                                                                       \
      if (alt && v.find('\0') == Val::npos)                                                                                           \
        return fptu_##OP##_cstr(pt, col, v.c_str());                                                                                  \
      return fptu_##OP##_string(pt, col, v.data(), v.size());                                                                         \
    case K_OPAQUE: {                                                                                                                  \
      if (alt) {                                                                                                                      \
        struct iovec iov;                                                                                                             \
        iov.iov_base = const_cast<char *>(v.data());                                                                                  \
        iov.iov_len = v.size();                                                                                                       \
        return fptu_##OP##_opaque_iov(pt, col, iov);                                                                                  \
      }                                                                                                                               \
      return fptu_##OP##_opaque(pt, col, v.data(), v.size());                                                                         \
    }                                                                                                                                 \
    default: return fptu_##OP##_nested(pt, col, Aligned(v).ro);                                                                       \
    }                                                                                                                                 \
  }
THREE(upsert)
THREE(insert)
THREE(update)

Val from_cstr(const char *p) { return p ? Val(p) : Val(); }
Val from_ptr(const uint8_t *p, size_t n) { return p ? Val(reinterpret_cast<const char *>(p), n) : Val(n, '\0'); }
Val from_iov(const struct iovec &i) { return i.iov_len ? Val(static_cast<const char *>(i.iov_base), i.iov_len) : Val(); }

#define READER(PREFIX, ARGS, DECL)                                                                                                    \
  Val PREFIX##_value DECL {                                                                                                           \
    switch (k) {                                                                                                                      \
    case K_U16: return of(uint16_t(fptu_##PREFIX##_uint16 ARGS));                                                                     \
    case K_BOOL: return Val(1, char(fptu_##PREFIX##_bool ARGS));                                                                      \
    case K_I32: return of(int32_t(fptu_##PREFIX##_int32 ARGS));                                                                       \
    case K_U32: return of(uint32_t(fptu_##PREFIX##_uint32 ARGS));                                                                     \
    case K_F32: return of(float(fptu_##PREFIX##_fp32 ARGS));                                                                          \
    case K_I64: return of(int64_t(fptu_##PREFIX##_int64 ARGS));                                                                       \
    case K_U64: return of(uint64_t(fptu_##PREFIX##_uint64 ARGS));                                                                     \
    case K_F64: return of(double(fptu_##PREFIX##_fp64 ARGS));                                                                         \
    case K_DT: return of(uint64_t(fptu_##PREFIX##_datetime ARGS.fixedpoint));                                                         \
    case K_96: return from_ptr(fptu_##PREFIX##_96 ARGS, 12);                                                                          \
    case K_128: return from_ptr(fptu_##PREFIX##_128 ARGS, 16);                                                                        \
    case K_160: return from_ptr(fptu_##PREFIX##_160 ARGS, 20);                                                                        \
    case K_256: return from_ptr(fptu_##PREFIX##_256 ARGS, 32);                                                                        \
    case K_STR: return from_cstr(fptu_##PREFIX##_cstr ARGS);                                                                          \
    case K_OPAQUE: return from_iov(fptu_##PREFIX##_opaque ARGS);                                                                      \
    default: return from_iov(fptu_##PREFIX##_nested ARGS.sys);                                                                        \
    }                                                                                                                                 \
  }
READER(field, (pf), (const fptu_field *pf, int k))
READER(get, (ro, col, error), (fptu_ro ro, unsigned col, int k, int *error))

int kind_of(fptu_type t) {
  for (int k = 0; k < K_MAX; ++k)
    if (kinds[k].type == t)
      return k;
  return -1;
}

using Key = std::pair<unsigned, int>;
using Model = std::map<Key, std::multiset<Val>>;
// what C strings are able to show
Val shown(int k, const Val &v) { return k == K_STR ? Val(v.c_str()) : v; }

bool filter_fn(const fptu_field *pf, void *context, void *param) cxx17_noexcept {
  const uint32_t salt = *static_cast<uint32_t *>(context);
  ++*static_cast<uint64_t *>(param);
  if (fptu_field_is_dead(pf))
    violation("filter-dead", "an erased field was passed to a filter");
  return (rng::mix(salt ^ uint64_t(fptu_field_column(pf)) ^ (uint64_t(unsigned(kind_of(fptu_field_type(pf)))) << 32)) & 1) != 0;
}
bool filter_model(uint32_t salt, const Key &key) { return (rng::mix(salt ^ uint64_t(key.first) ^ (uint64_t(unsigned(key.second)) << 32)) & 1) != 0; }

struct Field {
  Key key;
  Val value;
  const fptu_field *pf;
};
std::vector<Field> read_all(const fptu_field *begin, const fptu_field *end) {
  std::vector<Field> r;
  REQUIRE(begin <= end, "begin-end", "begin is greater than end");
  // fptu_field is opaque: step by fptu_next_ex() with the filter which takes all
  struct All {
    static bool fn(const fptu_field *, void *, void *) cxx17_noexcept { return true; }
  };
  for (const fptu_field *pf = fptu_first_ex(begin, end, All::fn, nullptr, nullptr); pf != end; pf = fptu_next_ex(pf, end, All::fn, nullptr, nullptr)) {
    REQUIRE(!fptu_field_is_dead(pf), "iterate-dead", "iteration visited an erased field");
    const int col = fptu_field_column(pf);
    const int k = kind_of(fptu_field_type(pf));
    REQUIRE(k >= 0 && col >= 0, "field-kind", "column %d, type %x", col, unsigned(fptu_field_type(pf)));
    r.push_back({{unsigned(col), k}, field_value(pf, k), pf});
    Field &f = r.back();
    const struct iovec iov = fptu_field_as_iovec(pf);
    const Val whole = from_iov(iov);
    if (k == K_STR) {
      REQUIRE(shown(k, whole) == f.value, "as-iovec", "%s: iovec %s, value %s", kinds[k].name, hex(whole).c_str(), hex(f.value).c_str());
      f.value = whole;
    } else
      REQUIRE(whole == f.value, "as-iovec", "%s: iovec %s, value %s", kinds[k].name, hex(whole).c_str(), hex(f.value).c_str());
    REQUIRE(fptu_field_payload(pf) == iov.iov_base, "payload", "another payload");
  }
  return r;
}
Model to_model(const std::vector<Field> &fs) {
  Model m;
  for (auto &f : fs)
    m[f.key].insert(f.value);
  return m;
}
std::string show(const Model &m) {
  std::string s;
  for (auto &p : m)
    for (auto &v : p.second)
      s += strf("[%u %s %s]", p.first.first, kinds[p.first.second].name, hex(v, 12).c_str());
  return s;
}

Val gen_value(rng &r, int k, size_t hint) {
  if (kinds[k].size) {
    Val v = gen_bytes(r, kinds[k].size);
    if (k == K_BOOL)
      v[0] = v[0] & 1;
    if (r.chance(20))
      for (auto &c : v)
        c = r.chance(50) ? char(0) : char(0xFF);
    else if (r.chance(15))
      v.assign(v.size(), r.chance(50) ? char(0) : char(0xFF));
    if (k == K_BOOL)
      v[0] = v[0] & 1;
    return v;
  }
  size_t n = r.chance(10) ? 0 : r.chance(80) ? r(24) : r(hint + 1);
  if (r.chance(3))
    n = 250 + r(12);
  if (k != K_NESTED) {
    Val v = gen_bytes(r, n);
    if (k == K_STR && r.chance(90))
      for (auto &c : v)
        if (!c)
          c = 'z';
    return v;
  }
  alignas(8) char space[1024];
  fptu_rw *pt = fptu_init(space, sizeof(space), 6);
  for (unsigned i = unsigned(r(5)); i > 0; --i) {
    const int q = int(r(K_NESTED));
    do_insert(pt, unsigned(r(2048)), q, gen_value(r, q, 40), false);
  }
  return from_iov(fptu_take_noshrink(pt).sys);
}

struct World {
  rng &r;
  Model m;
  std::vector<unsigned> cols;
  std::vector<uint64_t> home;
  bool heap = false; // made by fptu_alloc()
  fptu_rw *pt = nullptr;
  size_t hint = 40;
  World(rng &rr) : r(rr) {}
  ~World() { drop(); }
  void drop() {
    if (heap)
      fptu_destroy(pt);
    heap = false;
    pt = nullptr;
  }
  unsigned col() { return r.pick(cols); }

  void check(const char *where) {
    const char *trouble = fptu_check_rw(pt);
    REQUIRE(!trouble, "rw-check", "%s: %s", where, trouble);
    const fptu_ro ro = fptu_take_noshrink(pt);
    trouble = fptu_check_ro(ro);
    REQUIRE(!trouble, "ro-check", "%s: %s", where, trouble);
    const auto rw_fields = read_all(fptu_begin_rw(pt), fptu_end_rw(pt));
    const Model seen = to_model(rw_fields);
    REQUIRE(seen == m, "content", "%s: seen %s expected %s", where, show(seen).c_str(), show(m).c_str());
    if (r.chance(30)) {
      const Model seen2 = to_model(read_all(fptu_begin_ro(ro), fptu_end_ro(ro)));
      REQUIRE(seen2 == m, "content-ro", "%s: seen %s expected %s", where, show(seen2).c_str(), show(m).c_str());
    }
    state(hash_str(show(m)));
    for (unsigned n = unsigned(r(ctx().suite == "select" ? 8 : 4)); n > 0; --n)
      lookups(ro);
    if (m.empty()) {
      REQUIRE(fptu_is_empty_ro(ro) && fptu_is_empty_rw(pt), "is-empty", "%s: an empty one isn't empty", where);
    } else
      REQUIRE(!fptu_is_empty_ro(ro) && !fptu_is_empty_rw(pt), "is-empty", "%s: non-empty one is empty", where);
  }

  // first-of for a key is what a lookup gives
  void lookups(fptu_ro ro) {
    const unsigned c = r.chance(85) ? col() : unsigned(r(2048));
    const int k = int(r(K_MAX));
    auto it = m.find({c, k});
    const size_t n = it == m.end() ? 0 : it->second.size();
    const fptu_field *const pf = fptu::lookup(ro, c, kinds[k].type);
    const fptu_field *const pfw = fptu::lookup(pt, c, kinds[k].type);
    REQUIRE((pf != nullptr) == (n != 0), "lookup", "column %u %s: found %d, expected %zu", c, kinds[k].name, pf != nullptr, n);
    REQUIRE(pf == pfw, "lookup-rw", "lookup in the two forms differ");
    REQUIRE(fptu::field_count(ro, c, kinds[k].type) == n && fptu::field_count(pt, c, kinds[k].type) == n, "count", "column %u %s", c, kinds[k].name);
    int err = -123;
    const Val got = get_value(ro, c, k, &err);
    if (pf) {
      count("got_present");
      const Val direct = field_value(pf, k);
      bool member = false;
      for (auto &v : it->second)
        member = member || shown(k, v) == got;
      REQUIRE(member && direct == got, "get", "column %u %s: got %s, field %s", c, kinds[k].name, hex(got).c_str(), hex(direct).c_str());
      REQUIRE(err == FPTU_OK, "get-error", "column %u %s: error %d", c, kinds[k].name, err);
      // wrong kind
      const int w = int(r(K_MAX));
      if (w != k) {
        fptu_clear_error();
        const Val wrong = field_value(pf, w);
        count("wrong_kind");
        REQUIRE(fptu_last_error_code() == FPTU_EINVAL, "wrong-kind", "%s read as %s: error %d", kinds[k].name, kinds[w].name, fptu_last_error_code());
        check_default(w, wrong, "wrong-kind");
      }
    } else {
      count("got_absent");
      check_default(k, got, "absent");
      REQUIRE(err == FPTU_OK || err == FPTU_ENOFIELD, "get-absent", "error %d", err);
    }
    // filters
    uint32_t mask = r.chance(50) ? uint32_t(r.next()) & 0x7fffffff : 0;
    switch (r(7)) {
    case 0: mask = fptu_any; break;
    case 1: mask = fptu_any_int; break;
    case 2: mask = fptu_any_uint; break;
    case 3: mask = fptu_any_fp; break;
    case 4: mask = fptu_any_number; break;
    default:
      for (int i = int(r(4)); i > 0; --i)
        mask |= fptu_filter_mask(kinds[r(K_MAX)].type);
    }
    size_t expected = 0;
    for (auto &p : m)
      if (p.first.first == c && in_mask(mask, p.first.second))
        expected += p.second.size();
    count("filters");
    REQUIRE(fptu::field_count(ro, c, fptu_filter(mask)) == expected && fptu::field_count(pt, c, fptu_filter(mask)) == expected, "filter-count",
            "column %u mask %x: %zu, expected %zu", c, mask, fptu::field_count(ro, c, fptu_filter(mask)), expected);
    const fptu_field *const lf = fptu::lookup(ro, c, fptu_filter(mask));
    REQUIRE((lf != nullptr) == (expected != 0), "filter-lookup", "column %u mask %x", c, mask);
    const fptu_field *prev = nullptr;
    size_t n_iter = 0;
    for (auto pf2 = fptu::first(fptu_begin_ro(ro), fptu_end_ro(ro), c, fptu_filter(mask)); pf2 != fptu_end_ro(ro);
         pf2 = fptu::next(pf2, fptu_end_ro(ro), c, fptu_filter(mask))) {
      REQUIRE(!prev || prev < pf2, "filter-order", "iteration goes back");
      if (!prev)
        REQUIRE(pf2 == lf, "filter-first", "lookup isn't the first");
      prev = pf2;
      REQUIRE(fptu_field_column(pf2) == int(c) && in_mask(mask, kind_of(fptu_field_type(pf2))), "filter-match", "an unwanted field");
      ++n_iter;
    }
    REQUIRE(n_iter == expected, "filter-iterate", "column %u mask %x: %zu, expected %zu", c, mask, n_iter, expected);
    // external filter
    uint32_t salt = uint32_t(r.next());
    uint64_t calls = 0, total = 0;
    expected = 0;
    for (auto &p : m) {
      total += p.second.size();
      if (filter_model(salt, p.first))
        expected += p.second.size();
    }
    REQUIRE(fptu::field_count(ro, filter_fn, &salt, &calls) == expected, "filter-ex", "count by a function");
    REQUIRE(calls == total, "filter-ex-calls", "%llu calls for %llu fields", (unsigned long long)calls, (unsigned long long)total);
    calls = 0;
    REQUIRE(fptu::field_count(pt, filter_fn, &salt, &calls) == expected && calls == total, "filter-ex", "count by a function (rw)");
  }
  static bool in_mask(uint32_t mask, int k) { return ((mask >> kinds[k].g) & 1) != 0; }
  static void check_default(int k, const Val &v, const char *sig) {
    bool zero = true, ones = true;
    for (char c : v)
      zero = zero && !c, ones = ones && c == char(0xFF);
    if (k == K_NESTED) // an empty tuple or nothing
      zero = zero || v.size() <= 4;
    REQUIRE(zero || (ones && (k == K_F32 || k == K_F64)), sig, "%s: %s", kinds[k].name, hex(v).c_str());
  }

  void write(unsigned kind_of_op) {
    const int k = int(r(K_MAX));
    const unsigned c = col();
    const Key key(c, k);
    const Val v = gen_value(r, k, hint);
    auto it = m.find(key);
    const bool present = it != m.end();
    Val former;
    if (present) {
      const fptu_field *pf = fptu::lookup(pt, c, kinds[k].type);
      REQUIRE(pf != nullptr, "lookup", "not found");
      former = from_iov(fptu_field_as_iovec(pf));
    }
    const size_t items = fptu_space4items(pt), data = fptu_space4data(pt);
    const bool alt = r.chance(40);
    fptu_clear_error();
    static const char *const names[] = {"upsert", "insert", "update"};
    const fptu_error rc = kind_of_op == 0 ? do_upsert(pt, c, k, v, alt) : kind_of_op == 1 ? do_insert(pt, c, k, v, alt) : do_update(pt, c, k, v, alt);
    log(strf("%s col %u %s %s -> %d (space %zu items %zu bytes)", names[kind_of_op], c, kinds[k].name, hex(v, 16).c_str(), rc, items, data));
    REQUIRE(fptu_last_error_code() == rc, "last-error", "returned %d but the last error is %d", rc, fptu_last_error_code());
    REQUIRE((rc == FPTU_OK) == (fptu_last_error_msg()[0] == 0), "last-error-msg", "error %d with the message '%s'", rc, fptu_last_error_msg());
    count(rc == FPTU_OK ? "written" : "refused");
    const size_t need = need_units(k, v) * 4;
    if (rc == FPTU_OK) {
      REQUIRE(kind_of_op != 2 || present, "update-absent", "absent field was updated");
      if (kind_of_op != 1 && present) {
        it->second.erase(it->second.find(former));
        it->second.insert(v);
      } else
        m[key].insert(v);
      if (kind_of_op != 1) {
        int err = -1;
        REQUIRE(get_value(fptu_take_noshrink(pt), c, k, &err) == shown(k, v) && err == FPTU_OK, "get-after-set", "another value is read back");
      }
    } else {
      if (kind_of_op == 2 && !present)
        REQUIRE(rc == FPTU_ENOFIELD, "error-code", "error %d instead of ENOFIELD", rc);
      else {
        REQUIRE(rc == FPTU_ENOSPACE, "error-code", "error %d instead of ENOSPACE", rc);
        const bool enough = need <= data && items >= 1;
        REQUIRE(!enough, "refused-with-space", "%zu bytes needed while %zu and %zu items are available", need, data, items);
        if (kind_of_op != 1 && present)
          REQUIRE(need_units(k, former) * 4 != need, "refused-same-size", "an update which needs no extra space was refused");
      }
    }
  }
  void bad_column() {
    static const unsigned bads[] = {2048, 2049, 3071, 4095, 4096, 65535, 65536, 1u << 21, 1u << 22, ~0u, 0x80000000u};
    const unsigned c = r.chance(50) ? bads[r(std::size(bads))] : 2048u + unsigned(r(70000));
    const int k = int(r(K_MAX));
    const Val v = gen_value(r, k, hint);
    const unsigned op = unsigned(r(5));
    count("bad_columns");
    log(strf("bad column %u %s op %u", c, kinds[k].name, op));
    fptu_clear_error();
    if (op < 3) {
      const fptu_error rc = op == 0 ? do_upsert(pt, c, k, v, false) : op == 1 ? do_insert(pt, c, k, v, false) : do_update(pt, c, k, v, false);
      REQUIRE(rc != FPTU_OK && rc == fptu_last_error_code(), "bad-column", "column %u: error %d", c, rc);
    } else if (op == 3) {
      REQUIRE(fptu::erase(pt, c, kinds[k].type) == -int(FPTU_EINVAL) && fptu::erase(pt, c, fptu_any) == -int(FPTU_EINVAL), "bad-column", "erase of the column %u", c);
    } else {
      const fptu_ro ro = fptu_take_noshrink(pt);
      REQUIRE(!fptu::lookup(ro, c, kinds[k].type) && !fptu::lookup(ro, c, fptu_any) && !fptu::lookup(pt, c, kinds[k].type), "bad-column", "lookup of the column %u %s", c, kinds[k].name);
      REQUIRE(fptu::field_count(ro, c, kinds[k].type) == 0 && fptu::field_count(ro, c, fptu_any) == 0, "bad-column", "count of the column %u", c);
      int err = 0;
      const Val got = get_value(ro, c, k, &err);
      check_default(k, got, "bad-column-get");
      REQUIRE(err != FPTU_OK || k == K_STR, "bad-column-get", "column %u: no error", c);
    }
  }
  void erase() {
    const unsigned op = unsigned(r(4));
    const unsigned c = col();
    if (op == 0) {
      const int k = int(r(K_MAX));
      auto it = m.find({c, k});
      const fptu_field *pf = fptu::lookup(pt, c, kinds[k].type);
      const Val victim = pf ? from_iov(fptu_field_as_iovec(pf)) : Val();
      const int n = fptu::erase(pt, c, kinds[k].type);
      log(strf("erase col %u %s -> %d", c, kinds[k].name, n));
      REQUIRE(n == (it != m.end() ? 1 : 0), "erase-count", "%d", n);
      if (n) {
        count("erased");
        remove({c, k}, victim);
      }
    } else if (op < 3) {
      uint32_t mask = 0;
      if (r.chance(25))
        mask = r.chance(50) ? uint32_t(fptu_any) : r.chance(50) ? uint32_t(fptu_any_number) : uint32_t(fptu_any_fp);
      else
        for (int i = int(r(6)); i > 0; --i)
          mask |= fptu_filter_mask(kinds[r(K_MAX)].type);
      int expected = 0;
      for (auto it = m.begin(); it != m.end();)
        if (it->first.first == c && in_mask(mask, it->first.second)) {
          expected += int(it->second.size());
          it = m.erase(it);
        } else
          ++it;
      const int n = fptu::erase(pt, c, fptu_filter(mask));
      log(strf("erase col %u mask %x -> %d", c, mask, n));
      REQUIRE(n == expected, "erase-count", "%d instead of %d", n, expected);
      count("erased", unsigned(n));
      if (n > 1)
        count("erased_several");
      if (n > 255)
        count("erased_many");
    } else {
      const auto fs = read_all(fptu_begin_rw(pt), fptu_end_rw(pt));
      if (fs.empty())
        return;
      const Field &f = fs[r(fs.size())];
      log(strf("erase the field col %u %s", f.key.first, kinds[f.key.second].name));
      fptu::erase(pt, const_cast<fptu_field *>(f.pf));
      count("erased");
      remove(f.key, f.value);
      // what is left at the place: if it is dead, then it's shown as such
      if (f.pf >= fptu_begin_rw(pt) && f.pf < fptu_end_rw(pt) && fptu_field_is_dead(f.pf)) {
        REQUIRE(fptu_field_column(f.pf) < 0, "dead-column", "an erased field has the column %d", fptu_field_column(f.pf));
        REQUIRE(fptu_field_as_iovec(f.pf).iov_len == 0, "dead-iovec", "an erased field has a value");
        count("dead_seen");
        if (r.chance(50)) // the second time does nothing
          fptu::erase(pt, const_cast<fptu_field *>(f.pf));
      }
    }
  }
  void remove(const Key &key, const Val &v) {
    auto it = m.find(key);
    auto e = it->second.find(v);
    REQUIRE(e != it->second.end(), "erase-model", "no such value");
    it->second.erase(e);
    if (it->second.empty())
      m.erase(it);
  }
  void shrink() {
    const size_t junk = fptu_junkspace(pt), items = fptu_space4items(pt), data = fptu_space4data(pt);
    const unsigned how = unsigned(r(3));
    bool done = false;
    if (how == 0)
      done = fptu_shrink(pt);
    else if (how == 1)
      done = fptu_cond_shrink(pt);
    else {
      const fptu_ro ro = fptu_take(pt);
      const char *trouble = fptu_check_ro_ex(ro, true);
      REQUIRE(!trouble, "take", "fptu_take() gave holes: %s", trouble);
    }
    log(strf("shrink.%u junk %zu -> %d", how, junk, done));
    count(junk ? "shrunk_with_junk" : "shrunk");
    REQUIRE(fptu_junkspace(pt) == 0, "junk-after-shrink", "%zu bytes of junk are left", fptu_junkspace(pt));
    const size_t items2 = fptu_space4items(pt), data2 = fptu_space4data(pt);
    REQUIRE(items2 >= items && data2 >= data, "space-after-shrink", "items %zu -> %zu, data %zu -> %zu", items, items2, data, data2);
    REQUIRE((items2 - items) * 4 + (data2 - data) == junk, "junk-volume", "junk %zu, but items %zu -> %zu, data %zu -> %zu", junk, items, items2, data, data2);
    if (how < 2 && junk)
      REQUIRE(done, "shrink-result", "no defragmentation was reported");
  }
  void refetch() {
    const bool shrinked = r.chance(40);
    fptu_ro ro = shrinked ? fptu_take(pt) : fptu_take_noshrink(pt);
    // serialized form is position-independent
    std::vector<uint32_t> wire(ro.sys.iov_len / 4 + 1);
    memcpy(wire.data(), ro.sys.iov_base, ro.sys.iov_len);
    ro.sys.iov_base = wire.data();
    const unsigned more_items = unsigned(r(12)), more_payload = unsigned(r(3) ? r(200) : r(2000));
    size_t need = 0;
    fptu_cbfs_result cbfs;
    const unsigned how = unsigned(r(4));
    const char *err = "untouched";
    if (how == 0)
      need = fptu_get_buffer_size(ro, more_items, more_payload);
    else if (how == 1)
      need = fptu_check_and_get_buffer_size(ro, more_items, more_payload, &err);
    else
      need = fptu_check_and_get_buffer_size_ex(ro, more_items, more_payload, &cbfs);
    REQUIRE(need > 0, "buffer-size", "no size (%s)", err ? err : "null");
    REQUIRE(how != 1 || err == nullptr, "buffer-size-error", "%s", err);
    REQUIRE(how < 2 || cbfs.err == FPTU_OK, "buffer-size-error", "%s", cbfs.err_msg);
    log(strf("fetch.%u %zu bytes +%u items +%u payload -> buffer %zu", how, size_t(ro.sys.iov_len), more_items, more_payload, need));
    std::vector<uint64_t> to((need + 7) / 8);
    // a buffer placed so that an access beyond the size is seen
    char *space = reinterpret_cast<char *>(to.data());
    if (need >= 8 && r.chance(50)) {
      fptu_clear_error();
      fptu_rw *less = how < 2 ? fptu_fetch(ro, space, 4 * r(need / 4), more_items) : fptu_fetch_ex(ro, space, 4 * r(need / 4), more_items, &cbfs);
      if (!less) {
        count("fetch_refused");
        REQUIRE(fptu_last_error_code() != FPTU_OK, "fetch-error", "no error");
      } else
        REQUIRE(to_model(read_all(fptu_begin_rw(less), fptu_end_rw(less))) == m, "fetch-less", "another content in a smaller buffer");
    }
    fptu_rw *fetched = how < 2 ? fptu_fetch(ro, space, need, more_items) : fptu_fetch_ex(ro, space, need, more_items, &cbfs);
    REQUIRE(fetched, "fetch", "refused: %s", fptu_last_error_msg());
    REQUIRE(fptu_space4items(fetched) >= more_items, "fetch-items", "%zu items instead of %u", fptu_space4items(fetched), more_items);
    REQUIRE(fptu_space4data(fetched) >= more_payload / 4 * 4, "fetch-data", "%zu bytes instead of %u", fptu_space4data(fetched), more_payload);
    REQUIRE(fptu_junkspace(fetched) == (shrinked ? 0 : fptu_junkspace(pt)), "fetch-junk", "junk %zu instead of %zu", fptu_junkspace(fetched), fptu_junkspace(pt));
    count("fetched");
    if (fptu_junkspace(fetched))
      count("fetched_with_junk");
    drop();
    home.swap(to);
    pt = fetched;
  }
  void fresh() {
    m.clear();
    drop();
    const bool many = r.chance(2);
    const unsigned items = many ? 200 + unsigned(r(500)) : unsigned(r.chance(70) ? r(12) : r(80));
    const size_t bytes = many ? items * 8 + r(99) : r.chance(60) ? r(300) : r(3000);
    hint = bytes / 2 + 8;
    const size_t need = fptu_space(items, bytes);
    if (r.chance(60)) {
      home.assign((need + 7) / 8, 0x5555555555555555ull);
      fptu_rw *p = fptu_init(home.data(), need, items);
      REQUIRE(p, "init", "refused for %u items and %zu bytes: %s", items, bytes, fptu_last_error_msg());
      pt = p;
    } else {
      pt = fptu_alloc(items, bytes);
      REQUIRE(pt, "alloc", "refused for %u items and %zu bytes", items, bytes);
      heap = true;
    }
    log(strf("a tuple for %u items and %zu bytes (%s)", items, bytes, heap ? "alloc" : "init"));
    REQUIRE(fptu_space4items(pt) >= items && fptu_space4data(pt) >= bytes / 4 * 4 && fptu_junkspace(pt) == 0, "space", "%zu items %zu bytes for %u and %zu", fptu_space4items(pt),
            fptu_space4data(pt), items, bytes);
    check("fresh");
    if (many) {
      static const int short_kinds[] = {K_U16, K_BOOL, K_U32, K_F32, K_I64, K_DT};
      const unsigned mono = unsigned(r(3)) ? 90 : 10;
      const unsigned c0 = col();
      const int k0 = short_kinds[r(std::size(short_kinds))];
      for (unsigned i = 0; i < items; ++i) {
        const bool same = r.chance(mono);
        const int k = same ? k0 : short_kinds[r(std::size(short_kinds))];
        const unsigned c = same ? c0 : col();
        const Val v = gen_value(r, k, 8);
        const fptu_error rc = do_insert(pt, c, k, v, false);
        REQUIRE(rc == FPTU_OK, "promised-space", "insert %u of %u: error %d", i, items, rc);
        m[{c, k}].insert(v);
      }
      count("filled_many");
      check("filled");
    } else if (r.chance(25)) { // what was promised does fit
      size_t left = bytes;
      for (unsigned i = 0; i < items; ++i) {
        const int k = int(r(K_MAX));
        const Val v = gen_value(r, k, left);
        const size_t n = need_units(k, v) * 4;
        if (n > left)
          continue;
        const unsigned c = col();
        const fptu_error rc = do_insert(pt, c, k, v, false);
        REQUIRE(rc == FPTU_OK, "promised-space", "insert %u of %u with %zu bytes of %zu left: error %d", i, items, n, left, rc);
        m[{c, k}].insert(v);
        left -= n;
      }
      count("filled");
      check("filled");
    }
  }
  // empty or cut input, limits
  void edges() {
    const fptu_ro ro = fptu_take_noshrink(pt);
    fptu_ro bad = ro;
    static uint64_t junk;
    junk = r.next();
    switch (r(5)) {
    case 0: bad.sys.iov_base = nullptr, bad.sys.iov_len = 0; break;
    case 1: bad.sys.iov_base = &junk, bad.sys.iov_len = r(4); break;
    case 2: bad.sys.iov_len = 4 * r(ro.sys.iov_len / 4); break;
    case 3: bad.sys.iov_len += 4 * (1 + r(3)); break;
    default: bad.sys.iov_len = 0; break;
    }
    log(strf("edges: %zu bytes of %zu", size_t(bad.sys.iov_len), size_t(ro.sys.iov_len)));
    REQUIRE(fptu_is_empty_ro(bad), "hollow-empty", "a cut tuple isn't empty");
    REQUIRE(fptu_begin_ro(bad) == fptu_end_ro(bad), "hollow-range", "a cut tuple has fields");
    for (auto &x : m) {
      const unsigned c = x.first.first;
      REQUIRE(!fptu_lookup_ro(bad, c, fptu_type_or_filter(fptu_any)), "hollow-lookup", "a field is found in a cut tuple");
      int err = 12345;
      auto failed = [&](const char *what) {
        REQUIRE(err != FPTU_OK && err != 12345 && fptu_last_error_code() == err, "hollow-error", "%s gave %d, the last error is %d", what, err, fptu_last_error_code());
        err = 12345;
        fptu_clear_error();
      };
      fptu_clear_error();
      REQUIRE(fptu_get_uint32(bad, c, &err) == 0, "hollow-get", "uint32");
      failed("get_uint32");
      REQUIRE(fptu_get_int64(bad, c, &err) == 0, "hollow-get", "int64");
      failed("get_int64");
      REQUIRE(!fptu_get_256(bad, c, &err), "hollow-get", "256");
      failed("get_256");
      REQUIRE(!*fptu_get_cstr(bad, c, &err), "hollow-get", "cstr");
      failed("get_cstr");
      REQUIRE(fptu_get_opaque(bad, c, &err).iov_len == 0, "hollow-get", "opaque");
      failed("get_opaque");
      // without a place for the code
      fptu_get_cstr(bad, c, nullptr);
      REQUIRE(fptu_last_error_code() == FPTU_ENOFIELD, "last-error", "%d after a missing string", fptu_last_error_code());
    }
    if (bad.sys.iov_len == 0) { // means an empty one
      std::vector<uint64_t> to(64);
      fptu_rw *p = fptu_fetch(bad, to.data(), 512, 3);
      REQUIRE(p && fptu_is_empty_rw(p) && !fptu_check_rw(p) && fptu_space4items(p) >= 3, "fetch-empty", "nothing couldn't be fetched: %s", fptu_last_error_msg());
    }
    REQUIRE(fptu_check_and_get_buffer_size(ro, 1, 8, nullptr) == ~size_t(0), "null-error", "accepted");
    count("edges");
    if (r.chance(10)) {
      const size_t items = r.chance(50) ? size_t(fptu_max_fields) : fptu_max_fields - r(3);
      const size_t bytes = r.chance(50) ? r(100) : size_t(fptu::max_tuple_bytes_netto) - r(9);
      fptu_rw *p = fptu_alloc(items, bytes);
      REQUIRE(p, "alloc-max", "refused for %zu items and %zu bytes", items, bytes);
      REQUIRE(fptu_space4items(p) >= items && fptu_space4data(p) >= std::min<size_t>(bytes, size_t(fptu::max_tuple_bytes_netto) - items * 4) / 4 * 4 && !fptu_check_rw(p), "alloc-max", "%zu items %zu bytes for %zu and %zu", fptu_space4items(p), fptu_space4data(p), items, bytes);
      for (unsigned k = 0; k < 4; ++k)
        REQUIRE(fptu_insert_uint16(p, k, k) == FPTU_OK, "alloc-max", "nothing could be inserted");
      fptu_destroy(p);
      count("edges_max");
    }
  }
  // what a tag tells, names, and the null value
  void helpers() {
    const unsigned c = r.chance(50) ? col() : unsigned(r(fptu_max_cols + 1));
    const int k = int(r(K_MAX)), k2 = int(r(K_MAX));
    const fptu_tag_t tag = fptu_tag_t(fptu_make_tag(c, kinds[k].type));
    REQUIRE(fptu_get_colnum(tag) == c && fptu_get_type(tag) == kinds[k].type, "tag", "column %u %s became %u %s", c, kinds[k].name, fptu_get_colnum(tag), fptu_type_name(fptu_get_type(tag)));
    REQUIRE(fptu_tag_is_fixedsize(tag) == (kinds[k].size != 0), "tag-fixed", "%s", kinds[k].name);
    REQUIRE(!fptu_tag_is_deleted(tag), "tag-dead", "column %u %s", c, kinds[k].name);
    if (k != K_BOOL && k2 != K_BOOL) {
      const std::string a = fptu_type_name(kinds[k].type), b = fptu_type_name(kinds[k2].type);
      REQUIRE((a == b) == (k == k2) && a.compare(0, 7, "invalid"), "type-name", "%s %s", a.c_str(), b.c_str());
    }
    REQUIRE(!strncmp(fptu_type_name(fptu_type(r.next() | 0x80000000u)), "invalid", 7), "type-name", "unknown type has got a name");
    static const fptu_error errors[] = {FPTU_OK, FPTU_ENOFIELD, FPTU_EINVAL, FPTU_ENOSPACE};
    static const fptu_lge lges[] = {fptu_ic, fptu_eq, fptu_lt, fptu_gt, fptu_ne, fptu_le, fptu_ge};
    static const char *const signs[] = {"><", "==", "<", ">", "!=", "<=", ">="};
    const size_t e = r(std::size(errors)), e2 = r(std::size(errors)), l = r(std::size(lges));
    REQUIRE((std::to_string(errors[e]) == std::to_string(errors[e2])) == (e == e2) && std::to_string(errors[e]).compare(0, 7, "invalid"), "error-name", "%s", std::to_string(errors[e]).c_str());
    REQUIRE(std::to_string(lges[l]) == signs[l], "lge-name", "%s instead of %s", std::to_string(lges[l]).c_str(), signs[l]);
    // the null in a copy does not disturb anything
    const fptu_ro ro = fptu_take_noshrink(pt);
    const unsigned more = unsigned(r(4));
    std::vector<uint64_t> to(size_t(fptu_check_and_get_buffer_size(ro, more, unsigned(r(16)), &dummy_error)) / 8 + 1);
    fptu_rw *p = fptu_fetch(ro, to.data(), to.size() * 8, more);
    REQUIRE(p, "fetch", "failed: %s", fptu_last_error_msg());
    const fptu_error rc = fptu_upsert_null(p, c);
    log(strf("upsert null %u -> %d", c, int(rc)));
    REQUIRE(rc == FPTU_OK || rc == FPTU_ENOSPACE, "upsert-null", "%d", int(rc));
    const size_t brutto = fptu_take_noshrink(p).sys.iov_len;
    if (rc == FPTU_OK)
      REQUIRE(fptu_upsert_null(p, c) == FPTU_OK && fptu_take_noshrink(p).sys.iov_len == brutto, "upsert-null", "the second time takes more space");
    const char *trouble = fptu_check_rw(p);
    REQUIRE(!trouble, "upsert-null", "%s", trouble);
    for (auto &x : m) {
      const fptu_field *pf = fptu_lookup_rw(p, x.first.first, fptu_type_or_filter(kinds[x.first.second].type));
      REQUIRE(pf, "upsert-null", "%s in column %u is lost", kinds[x.first.second].name, x.first.first);
      const Val v = field_value(pf, x.first.second);
      bool found = false;
      for (auto &y : x.second)
        found = found || shown(x.first.second, y) == v;
      REQUIRE(found, "upsert-null", "%s in column %u has been changed", kinds[x.first.second].name, x.first.first);
    }
    REQUIRE(fptu_upsert_null(p, fptu_max_cols + 1 + unsigned(r(100))) == FPTU_EINVAL, "upsert-null", "an impossible column is accepted");
    count("helpers");
  }
  const char *dummy_error = nullptr;

  void foreign() { // corrupted bytes: refused or consistent, never a crash
    const fptu_ro ro = fptu_take_noshrink(pt);
    std::vector<uint32_t> wire(ro.sys.iov_len / 4 + 1);
    memcpy(wire.data(), ro.sys.iov_base, ro.sys.iov_len);
    fptu_ro bad;
    bad.sys.iov_base = wire.data();
    bad.sys.iov_len = ro.sys.iov_len;
    auto b = reinterpret_cast<unsigned char *>(wire.data());
    for (unsigned i = 1 + unsigned(r(3)); i > 0; --i)
      b[r(bad.sys.iov_len)] ^= 1u << r(8);
    if (r.chance(15))
      bad.sys.iov_len = r(bad.sys.iov_len + 1);
    const bool ok = fptu_check_ro(bad) == nullptr;
    fptu_cbfs_result cbfs;
    const char *err = nullptr;
    const size_t n1 = fptu_check_and_get_buffer_size(bad, 1, 8, &err), n2 = fptu_check_and_get_buffer_size_ex(bad, 1, 8, &cbfs);
    count(ok ? "corrupted_accepted" : "corrupted_refused");
    REQUIRE((n1 != 0) == ok && (err == nullptr) == ok && (n2 != 0) == ok && (cbfs.err == FPTU_OK) == ok, "check-verdict", "verdicts differ: %d %zu %zu", ok, n1, n2);
    if (ok) {
      std::vector<uint64_t> to((n2 + 7) / 8);
      fptu_rw *p = fptu_fetch_ex(bad, to.data(), n2, 1, &cbfs);
      if (p) {
        REQUIRE(!fptu_check_rw(p), "corrupted-rw", "%s", fptu_check_rw(p));
        fptu_shrink(p);
        REQUIRE(!fptu_check_rw(p), "corrupted-rw", "%s", fptu_check_rw(p));
      }
    }
    std::vector<uint64_t> small(64);
    fptu_cbfs_result junk;
    junk.err = FPTU_OK, junk.err_msg = "something", junk.holes_count = junk.holes_volume = 0;
    REQUIRE(!fptu_fetch_ex(ro, small.data(), 512, 1, &junk) && !fptu_fetch_ex(ro, small.data(), 512, 1, nullptr), "fetch-unchecked", "fetch_ex without a check was accepted");
    REQUIRE(!fptu_fetch(ro, nullptr, 512, 1) && !fptu_init(nullptr, 512, 1), "null-buffer", "null buffer was accepted");
    REQUIRE(fptu_clear(nullptr) == FPTU_EINVAL, "null-clear", "null was cleared");
    REQUIRE(!fptu_alloc(size_t(fptu_max_fields) + 1 + r(100), 1) && !fptu_alloc(1, size_t(fptu_max_tuple_bytes) + r(100)), "alloc-limits", "excessive limits were accepted");
  }
};

void history_case(rng &r, uint64_t) {
  const bool select = ctx().suite == "select"; // more of collections, erasing and lookups
  World w(r);
  static const unsigned pool[] = {0, 1, 2, 3, 42, 511, 512, 1023, 1024, 1025, 2046, 2047};
  for (unsigned n = 1 + unsigned(r(select ? 2 : 5)); n > 0; --n)
    w.cols.push_back(r.chance(70) ? pool[r(std::size(pool))] : unsigned(r(2048)));
  w.fresh();
  for (unsigned n = 10 + unsigned(r(60)); n > 0; --n) {
    switch (select && r.chance(60) ? (r.chance(70) ? 6 : 12) : r(20)) {
    default: w.write(0); break;
    case 6: case 7: case 8: case 9: w.write(1); break;
    case 10: case 11: w.write(2); break;
    case 12: case 13: case 14: w.erase(); break;
    case 15: w.shrink(); break;
    case 16: w.refetch(); break;
    case 17: w.bad_column(); break;
    case 18:
      if (r.chance(40)) {
        r.chance(50) ? w.edges() : w.helpers();
        break;
      }
#ifdef NDEBUG // otherwise the library aborts on any bad tuple, by design
      w.foreign();
#endif
      break;
    case 19:
      if (r.chance(10)) {
        REQUIRE(fptu_clear(w.pt) == FPTU_OK, "clear", "failed");
        w.m.clear();
        log("clear");
      } else if (r.chance(10))
        w.fresh();
      else
        w.erase();
    }
    count("operations");
    w.check("after");
  }
}

int sign(fptu_lge x) { return x == fptu_eq ? 0 : x == fptu_lt ? -1 : x == fptu_gt ? 1 : x == fptu_ic ? 2 : 3; }
int plain_cmp(const Val &a, const Val &b) { // bytes as unsigned, the shorter is less
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
    const unsigned x = static_cast<unsigned char>(a[i]), y = static_cast<unsigned char>(b[i]);
    if (x != y)
      return x < y ? -1 : 1;
  }
  return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}
Val variation(rng &r, const Val &v, bool fixed) {
  Val u = v;
  switch (r(fixed ? 3 : 6)) {
  case 0: break;
  case 1:
    if (!u.empty())
      u[r(u.size())] ^= char(1u << r(8));
    break;
  case 2:
    if (!u.empty())
      u[u.size() - 1] = char(r.next());
    break;
  case 3: u += Val(1 + r(3), char(r.next())); break;
  case 4: u.resize(r(u.size() + 1)); break;
  case 5: u = gen_bytes(r, r(20)); break;
  }
  return u;
}
void compare_case(rng &r, uint64_t) {
  alignas(8) static thread_local char space[8192];
  fptu_rw *pt = fptu_init(space, sizeof(space), 16);
  std::map<Key, Val> m;
  static const int ks[] = {K_96, K_128, K_160, K_256, K_OPAQUE};
  for (int k : ks)
    for (unsigned c = 0; c < 2; ++c)
      if (r.chance(75)) {
        const Val v = kinds[k].size ? gen_bytes(r, kinds[k].size) : gen_bytes(r, r.chance(15) ? 0 : r(40));
        REQUIRE(do_upsert(pt, c, k, v, false) == FPTU_OK, "upsert", "failed");
        m[{c, k}] = v;
      }
  const fptu_ro ro = fptu_take_noshrink(pt);
  for (unsigned n = 0; n < 40; ++n) {
    const int k = ks[r(std::size(ks))];
    const unsigned c = unsigned(r(3));
    auto it = m.find({c, k});
    const Val right = it != m.end() ? variation(r, it->second, kinds[k].size != 0) : kinds[k].size ? gen_bytes(r, kinds[k].size) : gen_bytes(r, r(4));
    fptu_lge got;
    auto p = reinterpret_cast<const uint8_t *>(right.data());
    struct iovec iov;
    iov.iov_base = const_cast<char *>(right.data());
    iov.iov_len = right.size();
    const bool null = kinds[k].size && r.chance(3);
    switch (k) {
    case K_96: got = fptu_cmp_96(ro, c, null ? nullptr : p); break;
    case K_128: got = fptu_cmp_128(ro, c, null ? nullptr : p); break;
    case K_160: got = fptu_cmp_160(ro, c, null ? nullptr : p); break;
    case K_256: got = fptu_cmp_256(ro, c, null ? nullptr : p); break;
    default: got = r.chance(50) ? fptu_cmp_opaque(ro, c, p, right.size()) : fptu_cmp_opaque_iov(ro, c, iov);
    }
    int expected = 2;
    if (it != m.end())
      expected = null ? 2 : plain_cmp(it->second, right);
    else if (k == K_OPAQUE)
      expected = right.empty() ? 0 : 2;
    log(strf("cmp col %u %s with %s -> %d", c, kinds[k].name, hex(right).c_str(), got));
    REQUIRE(sign(got) == expected, "cmp-field", "column %u %s: %d, expected %d", c, kinds[k].name, sign(got), expected);
    count(it != m.end() ? "compared" : "compared_absent");
    state(hash_str(right) ^ uint64_t(got));
    // plain
    const Val a = gen_bytes(r, r(24)), b = variation(r, a, false);
    const int ab = sign(fptu_cmp_binary(a.data(), a.size(), b.data(), b.size())), ba = sign(fptu_cmp_binary(b.data(), b.size(), a.data(), a.size()));
    REQUIRE(ab == plain_cmp(a, b) && ba == -ab, "cmp-binary", "%s and %s: %d %d", hex(a).c_str(), hex(b).c_str(), ab, ba);
    const Val z = r.chance(50) ? variation(r, b, false) : variation(r, a, false);
    const int bz = sign(fptu_cmp_binary(b.data(), b.size(), z.data(), z.size())), az = sign(fptu_cmp_binary(a.data(), a.size(), z.data(), z.size()));
    if (ab <= 0 && bz <= 0)
      REQUIRE(az <= 0 && (az == 0) == (ab == 0 && bz == 0), "cmp-transitive", "%d %d %d", ab, bz, az);
    count("binary_compared", 3);
  }
}
} // namespace

int main(int argc, char **argv) { return run_main(argc, argv, {{"history", history_case}, {"select", history_case}, {"compare", compare_case}}); }

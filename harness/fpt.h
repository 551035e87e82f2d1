// Independent vocabulary for the tuple monitors: canonical values, calls of the
// public API per type, and an independent decoder of the serialized form.
#pragma once
#include "common.h"
#include "fast_positive/tuples.h"
#include <memory>
#include <optional>
#include <set>

namespace vt {
using Val = std::string;
using fptu::genus;

enum : int {
  G_TEXT, G_VARBIN, G_NESTED, G_PROPERTY, G_I8, G_U8, G_I16, G_U16, G_I32, G_U32, G_F32, G_T32,
  G_I64, G_U64, G_F64, G_D64, G_T64, G_B96, G_B128, G_B160, G_B192, G_B224, G_B256, G_B320,
  G_B384, G_B512, G_APP64, G_APP128, G_MAC, G_IP, G_IPNET, G_HOLE, G_COUNT
};
static const char *const genus_names[] = {
    "text", "varbin", "nested", "property", "i8", "u8", "i16", "u16", "i32", "u32", "f32", "t32",
    "i64", "u64", "f64", "d64", "t64", "bin96", "bin128", "bin160", "bin192", "bin224", "bin256",
    "bin320", "bin384", "bin512", "app64", "app128", "mac", "ip", "ipnet", "hole"};
// published format: payload units of a loose field of the type (0: inplaced or stretchy)
static const int fixed_units[] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2,
                                  2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 2, 4, 2, 4, 5, 0};
// bytes of the value itself
static const int value_bytes[] = {0, 0, 0, 0, 1, 1, 2, 2, 4, 4, 4, 4, 8, 8, 8, 8,
                                  8, 12, 16, 20, 24, 28, 32, 40, 48, 64, 8, 16, 8, 16, 17, 0};
// bytes of a preplaced slot
static const int slot_bytes[] = {4, 4, 4, 4, 1, 1, 2, 2, 4, 4, 4, 4, 8, 8, 8, 8,
                                 8, 12, 16, 20, 24, 28, 32, 40, 48, 64, 8, 16, 8, 16, 20, 0};
inline bool stretchy(int g) { return g <= G_PROPERTY; }
inline bool inplaced(int g) { return g >= G_I8 && g <= G_U16; }
static const int usable[] = {G_TEXT, G_VARBIN, G_NESTED, G_PROPERTY, G_I8, G_U8, G_I16, G_U16,
                             G_I32, G_U32, G_F32, G_T32, G_I64, G_U64, G_F64, G_D64, G_T64,
                             G_B96, G_B128, G_B160, G_B192, G_B224, G_B256, G_B320, G_B384,
                             G_B512, G_MAC, G_IP, G_IPNET};

inline Val raw(const void *p, size_t n) { return Val(static_cast<const char *>(p), n); }
template <typename T> Val raw_of(const T &x) { return raw(&x, sizeof(T)); }
template <typename T> T cast(const Val &v) {
  T x;
  memset(&x, 0, sizeof(x));
  memcpy(&x, v.data(), std::min(sizeof(T), v.size()));
  return x;
}
inline uint16_t rd16(const void *p) {
  uint16_t v;
  memcpy(&v, p, 2);
  return v;
}
inline uint32_t rd32(const void *p) {
  uint32_t v;
  memcpy(&v, p, 4);
  return v;
}

// decimals have many representations of zero, all of them are the same value
inline Val of_decimal(const fptu::decimal64 &x) {
  return x == fptu::decimal64(0) ? Val(8, 0) : raw_of(x);
}
// natural zero of the type
inline Val zero(int g) { return stretchy(g) ? (g == G_PROPERTY ? Val(1, 0) : Val()) : Val(value_bytes[g], 0); }
inline bool is_empty_val(int g, const Val &v) {
  switch (g) {
  case G_TEXT:
  case G_VARBIN:
    return v.empty();
  case G_NESTED:
    return v.size() < 8;
  case G_PROPERTY:
    return v.size() == 1 && v[0] == 0;
  case G_F32:
    return (rd32(v.data()) & 0x7fffffffu) == 0;
  case G_F64: {
    auto x = cast<uint64_t>(v);
    return (x << 1) == 0;
  }
  default:
    return v.find_first_not_of('\0') == Val::npos;
  }
}
// designated NIL of discernible preplaced fixed-size slots (README/schema.h)
inline Val denil(int g) {
  switch (g) {
  case G_I8: return Val("\x80", 1);
  case G_I16: return Val("\x00\x80", 2);
  case G_I32: return Val("\x00\x00\x00\x80", 4);
  case G_I64: return Val("\0\0\0\0\0\0\0\x80", 8);
  case G_F32: return Val(4, '\xff');
  case G_F64:
  case G_D64: return Val(8, '\xff');
  default: return Val(value_bytes[g], 0);
  }
}
// units of payload a loose/stretchy value takes in the published format
inline size_t units_of(int g, const Val &v) {
  switch (g) {
  case G_TEXT: return (v.size() < 254 ? v.size() + 1 : v.size() + 3) / 4 + (((v.size() < 254 ? v.size() + 1 : v.size() + 3) % 4) ? 1 : 0);
  case G_VARBIN: return 1 + (v.size() + 3) / 4;
  case G_NESTED: return std::max<size_t>(v.size() / 4, 0);
  case G_PROPERTY: return (v.size() - 1 + 2 + 3) / 4;
  default: return fixed_units[g];
  }
}

enum Out { ok, space, absent, mismatch, range, denied, toolong, toolarge, unallowed, required, hollow, badarg, other };
static const char *const out_names[] = {"ok", "insufficient_space", "field_absent", "type_mismatch",
                                        "value_range", "value_denil", "value_too_long", "tuple_too_large",
                                        "collection_unallowed", "collection_required", "hollow",
                                        "invalid_argument", "other"};
struct Res {
  Out out = ok;
  Val val;
  std::string what;
  bool operator==(const Res &r) const { return out == r.out && (out != ok || val == r.val); }
  std::string str() const { return out == ok ? "ok:" + hex(val) : std::string(out_names[out]) + (out == other ? "(" + what + ")" : ""); }
};
template <typename F> Res guarded(F &&f) {
  Res r;
  try {
    r.val = f();
  } catch (const fptu::insufficient_space &) { r.out = space;
  } catch (const fptu::field_absent &) { r.out = absent;
  } catch (const fptu::type_mismatch &) { r.out = mismatch;
  } catch (const fptu::value_out_of_range &) { r.out = range;
  } catch (const fptu::value_is_denil &) { r.out = denied;
  } catch (const fptu::value_too_long &) { r.out = toolong;
  } catch (const fptu::tuple_too_large &) { r.out = toolarge;
  } catch (const fptu::tuple_overflow &) { r.out = toolarge;
  } catch (const fptu::collection_unallowed &) { r.out = unallowed;
  } catch (const fptu::collection_required &) { r.out = required;
  } catch (const fptu::tuple_hollow &) { r.out = hollow;
  } catch (const fptu::invalid_argument &e) { r.out = badarg; r.what = e.what();
  } catch (const std::exception &e) { r.out = other; r.what = std::string(typeid(e).name()) + ":" + e.what();
  }
  return r;
}

inline Val nested_bytes(const void *p) {
  if (!p)
    return Val();
  return raw(p, size_t(rd16(p)) * 4);
}
inline Val nested_of(const fptu::tuple_ro_weak &w) {
  return w ? nested_bytes(w.data()) : Val();
}
inline Val nested_of(const fptu::details::tuple_ro *p) { return nested_bytes(p); }
inline Val prop_of(const fptu::property_pair &p) {
  Val r(1, char(p.second));
  r.append(p.first.data(), p.first.size());
  return r;
}
inline Val sv(const fptu::string_view &s) { return s.data() ? Val(s.data(), s.size()) : Val(); }

// some types have a second set of accessors: bool is i8, enum is i16, uuid is bin128, and std::string is accepted as text
inline bool by_alias(const Val &v) {
  unsigned h = 0;
  for (unsigned char c : v)
    h = h * 31 + c + (h >> 16);
  return (h ^ h >> 3 ^ h >> 7) & 1;
}
template <typename X> Val same_alias(const Val &v, const X &alias) { return v == raw_of(alias) ? v : "alias gives " + raw_of(alias); }

// read by accessor (operator[] / iteration)
template <typename A> Val acc_get(const A &a, int g) {
  switch (g) {
  case G_TEXT: return sv(a.get_string());
  case G_VARBIN: return sv(a.get_varbinary());
  case G_NESTED: return nested_of(a.get_nested());
  case G_PROPERTY: return prop_of(a.get_property());
  case G_I8: { const Val v = raw_of(a.get_i8()); return a.get_bool() == (v[0] != 0) ? v : Val("bool"); }
  case G_U8: return raw_of(a.get_u8());
  case G_I16: return same_alias(raw_of(a.get_i16()), a.get_enum());
  case G_U16: return raw_of(a.get_u16());
  case G_I32: return raw_of(a.get_i32());
  case G_U32: return raw_of(a.get_u32());
  case G_F32: return raw_of(a.get_f32());
  case G_T32: return raw_of(uint32_t(a.get_datetime().utc_seconds()));
  case G_I64: return raw_of(a.get_i64());
  case G_U64: return raw_of(a.get_u64());
  case G_F64: return raw_of(a.get_f64());
  case G_D64: return of_decimal(a.get_decimal());
  case G_T64: return raw_of(a.get_datetime());
  case G_B96: return raw(&a.get_bin96(), 12);
  case G_B128: return same_alias(raw(&a.get_bin128(), 16), a.get_uuid());
  case G_B160: return raw(&a.get_bin160(), 20);
  case G_B192: return raw(&a.get_bin192(), 24);
  case G_B224: return raw(&a.get_bin224(), 28);
  case G_B256: return raw(&a.get_bin256(), 32);
  case G_B320: return raw(&a.get_bin320(), 40);
  case G_B384: return raw(&a.get_bin384(), 48);
  case G_B512: return raw(&a.get_bin512(), 64);
  case G_MAC: return raw_of(a.get_mac_address());
  case G_IP: return raw(&a.get_ip_address(), 16);
  case G_IPNET: return raw(&a.get_ip_net(), 17);
  }
  return "?";
}
// read by tuple.get_TYPE(token)
template <typename T, typename TOKEN> Val tup_get(const T &t, const TOKEN &k, int g) {
  switch (g) {
  case G_TEXT: return sv(t.get_string(k));
  case G_VARBIN: return sv(t.get_varbinary(k));
  case G_NESTED: return nested_of(t.get_nested_weak(k));
  case G_PROPERTY: return prop_of(t.get_property(k));
  case G_I8: { const Val v = raw_of(t.get_i8(k)); return t.get_bool(k) == (v[0] != 0) ? v : Val("bool"); }
  case G_U8: return raw_of(t.get_u8(k));
  case G_I16: return same_alias(raw_of(t.get_i16(k)), t.get_enum(k));
  case G_U16: return raw_of(t.get_u16(k));
  case G_I32: return raw_of(t.get_i32(k));
  case G_U32: return raw_of(t.get_u32(k));
  case G_F32: return raw_of(t.get_f32(k));
  case G_T32: return raw_of(uint32_t(t.get_datetime(k).utc_seconds()));
  case G_I64: return raw_of(t.get_i64(k));
  case G_U64: return raw_of(t.get_u64(k));
  case G_F64: return raw_of(t.get_f64(k));
  case G_D64: return of_decimal(t.get_decimal(k));
  case G_T64: return raw_of(t.get_datetime(k));
  case G_B96: return raw(&t.get_bin96(k), 12);
  case G_B128: return same_alias(raw(&t.get_bin128(k), 16), t.get_uuid(k));
  case G_B160: return raw(&t.get_bin160(k), 20);
  case G_B192: return raw(&t.get_bin192(k), 24);
  case G_B224: return raw(&t.get_bin224(k), 28);
  case G_B256: return raw(&t.get_bin256(k), 32);
  case G_B320: return raw(&t.get_bin320(k), 40);
  case G_B384: return raw(&t.get_bin384(k), 48);
  case G_B512: return raw(&t.get_bin512(k), 64);
  case G_MAC: return raw_of(t.get_mac_address(k));
  case G_IP: return raw(&t.get_ip_address(k), 16);
  case G_IPNET: return raw(&t.get_ip_net(k), 17);
  }
  return "?";
}
inline fptu::string_view to_sv(const Val &v) { return fptu::string_view(v.data(), v.size()); }
inline fptu::property_pair to_prop(const Val &v) {
  return fptu::property_pair(fptu::string_view(v.data() + 1, v.size() - 1), uint8_t(v[0]));
}
inline fptu::datetime_t to_t32(const Val &v) { return fptu::datetime_t::from_seconds(rd32(v.data())); }
inline fptu::datetime_t to_t64(const Val &v) { return fptu::datetime_t::from_fixedpoint_32dot32(cast<uint64_t>(v)); }
struct nested_holder { // aligned, exactly sized copy of nested bytes
  std::unique_ptr<uint32_t[]> buf;
  fptu::tuple_ro_weak weak;
  explicit nested_holder(const Val &v) : buf(new uint32_t[std::max<size_t>(1, v.size() / 4)]) {
    memcpy(buf.get(), v.data(), v.size());
    weak = fptu::tuple_ro_weak(buf.get(), v.size(), nullptr, fptu::enforce_skip_validation);
  }
};
#define VT_FIXED(M)                                                                                 \
  M(G_I8, i8, int8_t) M(G_U8, u8, uint8_t) M(G_I16, i16, int16_t) M(G_U16, u16, uint16_t)           \
  M(G_I32, i32, int32_t) M(G_U32, u32, uint32_t) M(G_F32, f32, float) M(G_I64, i64, int64_t)        \
  M(G_U64, u64, uint64_t) M(G_F64, f64, double) M(G_D64, decimal, fptu::decimal64)                  \
  M(G_B96, bin96, fptu::binary96_t) M(G_B128, bin128, fptu::binary128_t)                            \
  M(G_B160, bin160, fptu::binary160_t) M(G_B192, bin192, fptu::binary192_t)                         \
  M(G_B224, bin224, fptu::binary224_t) M(G_B256, bin256, fptu::binary256_t)                         \
  M(G_B320, bin320, fptu::binary320_t) M(G_B384, bin384, fptu::binary384_t)                         \
  M(G_B512, bin512, fptu::binary512_t) M(G_MAC, mac_address, fptu::mac_address_t)                   \
  M(G_IP, ip_address, fptu::ip_address_t) M(G_IPNET, ip_net, fptu::ip_net_t)

template <typename T, typename TOKEN> void tup_set(T &t, const TOKEN &k, int g, const Val &v) {
  if (by_alias(v))
    switch (g) {
    case G_TEXT: return t.set_string(k, std::string(v));
    case G_I8:
      if (uint8_t(v[0]) < 2)
        return t.set_bool(k, v[0] != 0);
      break;
    case G_I16: return t.set_enum(k, cast<short>(v));
    case G_B128: return t.set_uuid(k, cast<fptu::uuid_t>(v));
    }
  switch (g) {
  case G_TEXT: return t.set_string(k, to_sv(v));
  case G_VARBIN: return t.set_varbinary(k, to_sv(v));
  case G_PROPERTY: return t.set_property(k, to_prop(v));
  case G_NESTED: {
    nested_holder h(v);
    return t.set_nested(k, h.weak);
  }
  case G_T32: return t.set_datetime(k, to_t32(v));
  case G_T64: return t.set_datetime(k, to_t64(v));
#define M(G, NAME, TYPE) case G: return t.set_##NAME(k, cast<TYPE>(v));
    VT_FIXED(M)
#undef M
  }
}
// assign through a writable accessor (operator[] or collection iterator)
template <typename A> void acc_set(A &a, int g, const Val &v) {
  if (by_alias(v))
    switch (g) {
    case G_I8:
      if (uint8_t(v[0]) < 2)
        return a.set_bool(v[0] != 0);
      break;
    case G_I16: return a.set_enum(cast<short>(v));
    case G_B128: return a.set_uuid(cast<fptu::uuid_t>(v));
    }
  switch (g) {
  case G_TEXT: return a.set_string(to_sv(v));
  case G_VARBIN: return a.set_varbinary(to_sv(v));
  case G_PROPERTY: return a.set_property(to_prop(v));
  case G_NESTED: {
    nested_holder h(v);
    return a.set_nested(h.weak.get_impl());
  }
  case G_T32: return a.set_datetime(to_t32(v));
  case G_T64: return a.set_datetime(to_t64(v));
#define M(G, NAME, TYPE) case G: return a.set_##NAME(cast<TYPE>(v));
    VT_FIXED(M)
#undef M
  }
}
template <typename T> void tup_insert(T &t, const fptu::token &k, int g, const Val &v) {
  if (by_alias(v))
    switch (g) {
    case G_TEXT: t.insert_string(k, std::string(v)); return;
    case G_I8:
      if (uint8_t(v[0]) < 2) {
        t.insert_bool(k, v[0] != 0);
        return;
      }
      break;
    case G_I16: t.insert_enum(k, cast<short>(v)); return;
    case G_B128: t.insert_uuid(k, cast<fptu::uuid_t>(v)); return;
    }
  switch (g) {
  case G_TEXT: t.insert_string(k, to_sv(v)); return;
  case G_VARBIN: t.insert_varbinary(k, to_sv(v)); return;
  case G_PROPERTY: t.insert_property(k, to_prop(v)); return;
  case G_NESTED: {
    nested_holder h(v);
    t.insert_nested(k, h.weak);
    return;
  }
  case G_T32: t.insert_datetime(k, to_t32(v)); return;
  case G_T64: t.insert_datetime(k, to_t64(v)); return;
#define M(G, NAME, TYPE) case G: t.insert_##NAME(k, cast<TYPE>(v)); return;
    VT_FIXED(M)
#undef M
  }
}

// ---------------------------------------------------------------------------
// generators
inline Val gen_bytes(rng &r, size_t n) {
  Val v(n, 0);
  unsigned mode = unsigned(r(4));
  for (auto &c : v)
    c = mode == 0 ? char('a' + r(26)) : mode == 1 ? char(r(256)) : mode == 2 ? char(0xff * r(2)) : char('A' + r(3));
  return v;
}
inline size_t gen_len(rng &r, size_t cap) {
  static const size_t edges[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 63, 64, 65, 252, 253, 254, 255, 256, 257, 258, 259};
  size_t n;
  switch (r(4)) {
  case 0: n = edges[r(std::size(edges))]; break;
  case 1: n = r(12); break;
  case 2: n = r(40); break;
  default: n = r(cap + 1); break;
  }
  return std::min(n, cap);
}
inline uint64_t gen_u64(rng &r) {
  switch (r(6)) {
  case 0: return r(4);
  case 1: return uint64_t(1) << r(64);
  case 2: return (uint64_t(1) << r(64)) - 1;
  case 3: return 0 - r(5);
  case 4: return r.next() >> r(64);
  default: return r.next();
  }
}
inline Val gen_val(rng &r, int g, size_t cap, const std::vector<Val> *nested_pool = nullptr) {
  if (r.chance(10) && g != G_NESTED)
    return zero(g);
  switch (g) {
  case G_TEXT:
  case G_VARBIN: return gen_bytes(r, gen_len(r, cap));
  case G_PROPERTY: {
    Val v(1, char(r.chance(30) ? 0 : r(256)));
    return v + gen_bytes(r, gen_len(r, std::min<size_t>(cap, 255)));
  }
  case G_NESTED: return nested_pool && !nested_pool->empty() ? (*nested_pool)[r(nested_pool->size())] : Val("\x01\0\0\0", 4);
  case G_MAC: return raw_of(uint64_t(gen_u64(r) & 0xffffFFFFffffull));
  case G_F32: {
    static const uint32_t special[] = {0x80000000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0x7f7fffffu, 0xff7fffffu, 1u, 0x00800000u, 0xffffffffu, 0x3f800000u};
    return r.chance(30) ? raw_of(special[r(std::size(special))]) : raw_of(uint32_t(r.next()));
  }
  case G_F64: {
    static const uint64_t special[] = {0x8000000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0x7fefffffffffffffull, 1, 0xffffffffffffffffull, 0x3ff0000000000000ull};
    return r.chance(30) ? raw_of(special[r(std::size(special))]) : raw_of(r.next());
  }
  case G_D64: return r.chance(5) ? denil(g) : of_decimal(fptu::decimal64(int16_t(gen_u64(r))));
  default: {
    if (r.chance(5))
      return denil(g);
    Val v(value_bytes[g], 0);
    if (v.size() <= 8) {
      uint64_t x = gen_u64(r);
      memcpy(&v[0], &x, v.size());
    } else if (r.chance(25)) {
      v[r(v.size())] = char(1 + r(255));
    } else {
      for (auto &c : v)
        c = char(r.next());
    }
    return v;
  }
  }
}

// ---------------------------------------------------------------------------
// independent decoder of the serialized form
struct Layout {
  struct Slot {
    unsigned offset;
    int g;
  };
  std::vector<Slot> slots;
  size_t bytes = 0;
};
struct Image {
  struct Loose {
    int g;
    unsigned id;
    Val v;
    bool has_payload;
  };
  std::vector<Loose> loose; // in index order (ascending address)
  std::vector<std::optional<Val>> slots;
  size_t holes = 0, hole_units = 0, index = 0, payload_units = 0, units = 0;
  bool sorted_flag = false, preplaced_flag = false;
  std::string error;
};
inline std::string decode_stretchy(const uint8_t *p, size_t avail_units, int g, Val &out, size_t &units) {
  if (avail_units < 1)
    return "no room for a stretchy value";
  switch (g) {
  case G_TEXT: {
    size_t len, hdr;
    if (p[0] < 254)
      len = p[0], hdr = 1;
    else
      len = size_t(p[0]) + 2u * rd16(p + 1), hdr = 3;
    units = (hdr + len + 3) / 4;
    if (units > avail_units)
      return "text runs out of the tuple";
    out = raw(p + hdr, len);
    return "";
  }
  case G_VARBIN: {
    size_t brutto = rd16(p), tail = rd16(p + 2) & 3; // other 14 bits are reserved
    if (brutto < 1 || brutto > avail_units)
      return "varbin length is wrong";
    if (tail && brutto < 2)
      return "varbin tail is wrong";
    units = brutto;
    out = raw(p + 4, tail ? (brutto - 2) * 4 + tail : (brutto - 1) * 4);
    return "";
  }
  case G_NESTED: {
    size_t brutto = rd16(p);
    if (brutto < 1 || brutto > avail_units)
      return "nested length is wrong";
    units = brutto;
    out = raw(p, brutto * 4);
    return "";
  }
  case G_PROPERTY: {
    size_t len = p[0];
    units = (2 + len + 3) / 4;
    if (units > avail_units)
      return "property runs out of the tuple";
    out = raw(p + 1, 1 + len);
    return "";
  }
  }
  return "not stretchy";
}
inline Image decode(const void *ptr, size_t bytes, const Layout *layout) {
  Image im;
  auto fail = [&](const std::string &e) {
    im.error = e;
    return im;
  };
  auto p = static_cast<const uint8_t *>(ptr);
  if (bytes == 0)
    return im;
  if (bytes < 4 || bytes % 4)
    return fail("size is not a whole number of units");
  im.units = rd16(p);
  if (im.units * 4 != bytes)
    return fail(strf("header says %zu units, image has %zu bytes", im.units, bytes));
  uint16_t lf = rd16(p + 2);
  im.index = lf >> 3;
  im.sorted_flag = lf & 1;
  im.preplaced_flag = lf & 2;
  if (lf & 4)
    return fail("reserved header bit is set");
  if (im.index + 1 > im.units)
    return fail("index does not fit");
  const size_t pivot = 1 + im.index;
  im.payload_units = im.units - pivot;
  const size_t pre_bytes = layout ? layout->bytes : 0, pre_units = (pre_bytes + 3) / 4;
  if (pre_units > im.payload_units)
    return fail("preplaced area does not fit");
  std::vector<std::pair<size_t, size_t>> chunks; // unit ranges
  if (pre_units)
    chunks.emplace_back(pivot, pivot + pre_units);
  auto add = [&](size_t from, size_t units) -> std::string {
    if (from < pivot + pre_units || from + units > im.units)
      return strf("payload [%zu,+%zu) is outside [%zu,%zu)", from, units, pivot + pre_units, im.units);
    chunks.emplace_back(from, from + units);
    return "";
  };
  if (layout)
    for (auto &s : layout->slots) {
      const size_t at = pivot * 4 + s.offset;
      if (s.offset + slot_bytes[s.g] > pre_bytes)
        return fail("slot is outside of the preplaced area");
      if (!stretchy(s.g)) {
        im.slots.push_back(raw(p + at, value_bytes[s.g]));
        continue;
      }
      const uint16_t rel = rd16(p + at);
      if (!rel) {
        im.slots.push_back(std::nullopt);
        continue;
      }
      if (at % 4)
        return fail("stretchy slot is not aligned");
      const size_t from = at / 4 + rel;
      Val v;
      size_t units = 0;
      if (from >= im.units)
        return fail("preplaced stretchy offset is outside");
      std::string e = decode_stretchy(p + from * 4, im.units - from, s.g, v, units);
      if (e.empty())
        e = add(from, units);
      if (!e.empty())
        return fail("preplaced: " + e);
      im.slots.push_back(v);
    }
  for (size_t i = 1; i < pivot; ++i) {
    const uint16_t off = rd16(p + i * 4), gid = rd16(p + i * 4 + 2);
    const int g = gid >> 11;
    const unsigned id = gid & 2047;
    if (g == G_HOLE) {
      ++im.holes;
      im.hole_units += id;
      if (id) {
        std::string e = off ? add(i + off, id) : "hole without an offset";
        if (!e.empty())
          return fail("hole: " + e);
      } else if (off)
        return fail("empty hole with an offset");
      continue;
    }
    Image::Loose l{g, id, Val(), false};
    if (inplaced(g)) {
      l.v = raw(p + i * 4, value_bytes[g]);
      l.has_payload = true;
    } else if (off) {
      const size_t from = i + off;
      if (from >= im.units)
        return fail("loose payload offset is outside");
      std::string e;
      if (stretchy(g)) {
        size_t units = 0;
        e = decode_stretchy(p + from * 4, im.units - from, g, l.v, units);
        if (e.empty())
          e = add(from, units);
      } else {
        e = add(from, fixed_units[g]);
        if (e.empty())
          l.v = raw(p + from * 4, value_bytes[g]);
      }
      if (!e.empty())
        return fail(strf("loose %s:%u: ", genus_names[g], id) + e);
      l.has_payload = true;
    } else if (!stretchy(g))
      return fail("loose fixed-size field without a payload");
    im.loose.push_back(l);
  }
  std::sort(chunks.begin(), chunks.end());
  size_t at = pivot;
  for (auto &c : chunks) {
    if (c.first < at)
      return fail(strf("payload chunks overlap at unit %zu", c.first));
    if (c.first > at)
      return fail(strf("units [%zu,%zu) of payload belong to nothing", at, c.first));
    at = c.second;
  }
  if (at != im.units)
    return fail(strf("units [%zu,%zu) at the tail belong to nothing", at, im.units));
  return im;
}

inline Layout layout_of(const fptu::schema *s) {
  Layout l;
  if (s) {
    l.bytes = s->preplaced_bytes();
    for (auto &t : s->tokens())
      if (t.is_preplaced() && int(t.type()) != G_HOLE)
        l.slots.push_back({unsigned(t.preplaced_offset()), int(t.type())});
  }
  return l;
}

} // namespace vt

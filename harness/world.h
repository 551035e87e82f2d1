// Reference model of a writable tuple plus the monitors comparing it with the
// real one after every operation.
#pragma once
#include "fpt.h"

namespace vt {

struct Def {
  fptu::token tok;
  int g;
  bool pre, coll, disc, sat = false;
  unsigned id;
  std::string name;
};

enum : unsigned {
  O_CONTENT = 1,   // reads == model
  O_STRUCT = 2,    // validate(), independent decode, accounting
  O_ATOMIC = 4,    // failed op changes nothing; op that fits succeeds
  O_ITER = 8,      // iteration exactly once
  O_JUNK = 16,     // compactify/optimize removes junk
};

struct Profile {
  unsigned oracles = O_CONTENT | O_STRUCT | O_ATOMIC | O_ITER | O_JUNK;
  unsigned ops_min = 5, ops_max = 60;
  unsigned w_set = 40, w_insert = 20, w_erase = 14, w_erase_it = 6, w_modify_it = 6, w_erase_range = 3,
           w_optimize = 4, w_roundtrip = 4, w_reset = 1, w_negative = 4, w_clone = 2, w_move = 2;
  unsigned pc_schema = 80, pc_managed = 25;
  size_t value_cap = 300;
  unsigned pc_tight = 50;      // percent of tuples created with little room
  unsigned pc_nobuf = 20;      // share of tuples without a managed buffer
  unsigned coll_percent = 30;  // share of collections among loose fields
  unsigned pre_percent = 40;
  unsigned nil_bias = 0;       // extra chance to use empty / NIL values
  unsigned stretchy_bias = 25; // percent of fields forced to variable-size types
  bool numeric_only = false;
  unsigned bulk = 0;           // repeat an insertion up to so many times
};

inline void variant(Profile &p, const std::string &v) {
  if (v == "mid") { // values around the largest hole
    p.value_cap = 9000;
    p.w_erase += 11;
    p.pc_tight = 10;
    p.pc_managed = p.pc_managed ? std::max(60u, p.pc_managed) : 0;
    p.stretchy_bias = 70;
  } else if (v == "large") {
    p.value_cap = 60000;
    p.ops_max = 25;
    p.pc_tight = 10;
    p.pc_managed = std::max(80u, p.pc_managed);
  } else if (v == "huge") { // up to and over the size limit
    p.value_cap = 131000;
    p.ops_max = 20;
    p.pc_tight = 10;
    p.pc_managed = std::max(90u, p.pc_managed);
    p.w_insert = 60;
    p.w_reset = 0;
    p.coll_percent = 50;
  } else if (v == "many") { // up to and over the limit of fields
    p.value_cap = 20;
    p.pc_managed = std::max(70u, p.pc_managed);
    p.coll_percent = 70;
    p.ops_max = 10;
    p.bulk = 3000;
    p.w_reset = 0;
  } else if (v == "plenty") { // collections of hundreds of items
    p.value_cap = 12;
    p.pc_managed = std::max(60u, p.pc_managed);
    p.coll_percent = 80;
    p.ops_max = 25;
    p.bulk = 600;
    p.w_reset = 0;
  } else if (v == "long") { // long histories
    p.ops_min = 200;
    p.ops_max = 800;
    p.w_reset = 0;
  }
}

struct World {
  std::vector<Val> *tape = nullptr; // the image after every step
  rng &r;
  Profile pf;
  std::unique_ptr<fptu::schema> schema;
  Layout layout;
  std::vector<Def> defs;
  std::vector<std::vector<Val>> vals; // per def
  std::unique_ptr<fptu::tuple_rw_fixed> fx;
  std::unique_ptr<fptu::tuple_rw_managed> mg;
  std::vector<Val> pool; // nested images
  std::vector<Val> init; // initial slot content of preplaced fixed fields

  explicit World(rng &rr, const Profile &p) : r(rr), pf(p) {}

  fptu::tuple_rw_fixed &rw() { return mg ? static_cast<fptu::tuple_rw_fixed &>(*mg) : *fx; }
  const fptu::tuple_rw_fixed &crw() { return rw(); }

  static std::vector<Val> make_pool(rng &r) {
    std::vector<Val> pool;
    pool.push_back(Val("\x01\0\0\0", 4)); // empty tuple
    const size_t n = 1 + r(3);
    for (size_t k = 0; k < n; ++k) {
      fptu::tuple_rw_fixed t(8, 400, nullptr);
      const size_t m = 1 + r(4);
      for (size_t i = 0; i < m; ++i) {
        int g = usable[r(std::size(usable))];
        if (g == G_NESTED)
          g = G_U32;
        fptu::token tok(genus(g), unsigned(r(2000)), false, true, false);
        tup_set(t, tok, g, gen_val(r, g, 30));
      }
      auto w = t.take_weak_asis();
      pool.push_back(raw(w.data(), w.size()));
    }
    return pool;
  }

  void make_schema() {
    pool = make_pool(r);
    const size_t n = 1 + r(r.chance(15) ? 40 : 12);
    if (r.chance(pf.pc_schema)) {
      schema = fptu::schema::create();
      const size_t far_one = r.chance(6) ? r(n) : n; // a field after a wide gap
      for (size_t i = 0; i < n; ++i) {
        Def d;
        d.g = pf.numeric_only ? int(r.range(G_I8, G_U64)) : usable[r(std::size(usable))];
        if (!pf.numeric_only && r.chance(pf.stretchy_bias))
          d.g = int(r(4));
        d.pre = r.chance(pf.pre_percent);
        d.coll = !d.pre && r.chance(pf.coll_percent);
        if (d.coll && d.g == G_T32)
          d.g = G_T64; // insertion into t32 collections is not offered by the API
        d.disc = r.chance(50);
        d.sat = !pf.numeric_only && r.chance(10); // matters for values out of range only
        d.name = strf("f%zu", i);
        d.id = 0;
        std::string nm = d.name;
        Val iv;
        if (d.pre && i == far_one) {
          const unsigned at = unsigned(r.range(8, r.chance(60) ? 200 : r.chance(50) ? 2000 : 13000) + (i + 1 == n ? r(2000) : 0)) / 8 * 8 + unsigned(schema->preplaced_bytes() + 7) / 8 * 8 + (stretchy(d.g) ? 0 : unsigned(r(8)));
          iv = stretchy(d.g) ? Val() : d.disc ? denil(d.g) : zero(d.g);
          d.tok = schema->import_definition(std::move(nm), fptu::token(at, genus(d.g), d.disc, d.sat), nullptr, false);
          count("far_fields");
        } else if (d.pre && !stretchy(d.g)) {
          iv = d.disc ? denil(d.g) : zero(d.g);
          if (r.chance(25)) {
            iv = gen_val(r, d.g, 0);
            Val padded = iv;
            padded.resize(slot_bytes[d.g], 0);
            d.tok = schema->define_preplaced(std::move(nm), genus(d.g), d.disc, d.sat, padded.data());
          } else
            d.tok = schema->define_preplaced(std::move(nm), genus(d.g), d.disc, d.sat, nullptr);
        } else if (d.pre)
          d.tok = schema->define_preplaced(std::move(nm), genus(d.g), d.disc, d.sat, nullptr);
        else if (d.coll)
          d.tok = schema->define_collection(std::move(nm), genus(d.g), d.disc, d.sat);
        else
          d.tok = schema->define_loose(std::move(nm), genus(d.g), false, d.disc, d.sat);
        if (!d.pre)
          d.id = d.tok.id();
        defs.push_back(d);
        init.push_back(iv);
      }
      layout = layout_of(schema.get());
      // the decoder wants slots in definition order
      layout.slots.clear();
      for (auto &d : defs)
        if (d.pre)
          layout.slots.push_back({unsigned(d.tok.preplaced_offset()), d.g});
    } else {
      std::set<std::pair<int, unsigned>> seen;
      for (size_t i = 0; i < n; ++i) {
        Def d;
        d.g = pf.numeric_only ? int(r.range(G_I8, G_U64)) : usable[r(std::size(usable))];
        d.pre = false;
        d.coll = r.chance(pf.coll_percent);
        if (d.coll && d.g == G_T32)
          d.g = G_T64;
        d.disc = r.chance(50);
        d.sat = !pf.numeric_only && r.chance(10); // matters for values out of range only
        d.id = r.chance(50) ? unsigned(r(4)) : unsigned(r(2048));
        if (!seen.insert({d.g, d.id}).second)
          continue;
        d.name = strf("%s:%u", genus_names[d.g], d.id);
        d.tok = fptu::token(genus(d.g), d.id, d.coll, d.disc, d.sat);
        defs.push_back(d);
        init.push_back(Val());
      }
    }
    std::string s = schema ? "schema" : "no schema";
    for (auto &d : defs)
      s += strf(" %s=%s%s%s%s", d.name.c_str(), genus_names[d.g], d.pre ? "/pre" : "", d.coll ? "/coll" : "", d.disc ? "/disc" : "");
    log(s);
    reset_model();
  }
  void reset_model() {
    vals.assign(defs.size(), {});
    for (size_t i = 0; i < defs.size(); ++i)
      if (defs[i].pre && !stretchy(defs[i].g))
        vals[i].push_back(init[i]);
  }

  // An empty tag asks for a tuple without a managed buffer (plain malloc).
  hippeus::buffer_tag pick_tag() { return r.chance(pf.pc_nobuf) ? hippeus::buffer_tag() : fptu::defaults::allot_tag; }
  size_t pick_items() { return r.chance(10) ? r(8192) : r(30); }
  size_t pick_bytes() { return r.chance(6) ? r(262137) : r(2000); }
  void check_reserve(const fptu::tuple_rw_fixed &t, size_t items, size_t bytes) {
    const size_t used = t.brutto_size() / 4 - 1 + items + (bytes + 3) / 4;
    REQUIRE(t.tail_space_bytes() <= 262140 && t.head_space() <= 8191, "reserve", "reserve of %zu fields and %zu bytes is impossible", t.head_space(), t.tail_space_bytes());
    if (used <= 65534 && t.index_size() + items <= 8191)
      REQUIRE(t.head_space() >= items && t.tail_space_bytes() >= bytes, "reserve", "asked to reserve %zu fields and %zu bytes, got %zu and %zu", items, bytes, t.head_space(), t.tail_space_bytes());
    else
      count("reserves_beyond_limit");
  }

  // impossible requests are refused, by an exception and without any effect
  void absurd_sizes() {
    static const size_t items_[] = {8192, 8193, 16384, 65535, 65536, size_t(1) << 30, size_t(1) << 32, ~size_t(0) / 4, ~size_t(0) / 4 + 1, ~size_t(0) >> 1, ~size_t(0) - 1, ~size_t(0)};
    static const size_t bytes_[] = {262137, 262141, 262144, 300000, size_t(1) << 32, ~size_t(0) / 4, ~size_t(0) >> 1, (~size_t(0) >> 1) + 1, ~size_t(0) - 3, ~size_t(0) - 1, ~size_t(0)};
    const unsigned which = unsigned(1 + r(3));
    const size_t items = which & 1 ? items_[r(std::size(items_))] : r(100), bytes = which & 2 ? bytes_[r(std::size(bytes_))] : r(1000);
    const auto tag = pick_tag();
    const unsigned way = unsigned(r(7));
    log(strf("absurd way=%u items=%zu bytes=%zu", way, items, bytes));
    const Val empty("\x01\0\0\0", 4);
    try {
      const fptu::tuple_ro_weak w(empty.data(), empty.size(), nullptr);
      std::unique_ptr<fptu::tuple_rw_fixed> t;
      switch (way) {
      case 0: t.reset(new fptu::tuple_rw_fixed(items, bytes, schema.get(), tag)); break;
      case 1: t.reset(new fptu::tuple_rw_managed(items, bytes, schema.get(), tag)); break;
      case 2: t.reset(new fptu::tuple_rw_fixed(fptu::tuple_rw_fixed::clone(w, items, bytes, nullptr, tag))); break;
      case 3: t.reset(new fptu::tuple_rw_managed(fptu::tuple_rw_managed::clone(w, items, bytes, nullptr, tag))); break;
      case 4: t.reset(new fptu::tuple_rw_fixed(empty.data(), empty.size(), items, bytes, nullptr, tag)); break;
      case 5: t.reset(new fptu::tuple_rw_managed(empty.data(), empty.size(), items, bytes, nullptr, tag)); break;
      default: t.reset(new fptu::tuple_rw_fixed(fptu::tuple_rw_fixed::clone(fptu::tuple_ro_managed(empty.data(), empty.size(), nullptr), items, bytes, nullptr, tag))); break;
      }
      count("absurd_accepted");
      check_reserve(*t, items, bytes);
      REQUIRE(way > 1, "absurd", "a tuple for %zu fields and %zu bytes was created", items, bytes);
      const fptu::token k(genus::u64, 7, false, true, false);
      if (way > 1 && t->head_space() > 0 && t->tail_space_bytes() >= 8) {
        t->set_u64(k, 42);
        REQUIRE(t->get_u64(k) == 42, "absurd", "a clone with an absurd reserve does not work");
      }
    } catch (const fptu::tuple_too_large &) {
      count("absurd_refused");
    } catch (const std::invalid_argument &) {
      count("absurd_refused");
    } catch (const std::bad_alloc &) {
      violation("absurd", "out of memory instead of a refusal");
    }
  }
  void make_tuple() {
    if (r.chance(5))
      absurd_sizes();
    const bool managed = r.chance(pf.pc_managed);
    const auto tag = pick_tag();
    fx.reset();
    mg.reset();
    if (!tag)
      count("tuples_without_buffer");
    if (r.chance(pf.pc_tight)) {
      const size_t items = r(20), bytes = r(300);
      log(strf("create %s%s items=%zu bytes=%zu", managed ? "managed" : "fixed", tag ? "" : " w/o buffer", items, bytes));
      if (managed)
        mg.reset(new fptu::tuple_rw_managed(items, bytes, schema.get(), tag));
      else
        fx.reset(new fptu::tuple_rw_fixed(items, bytes, schema.get(), tag));
      check_reserve(crw(), items, bytes);
    } else {
      const auto sc = r.chance(85) ? fptu::small : fptu::tiny;
      log(strf("create %s%s scale=%d", managed ? "managed" : "fixed", tag ? "" : " w/o buffer", int(sc)));
      if (managed)
        mg.reset(new fptu::tuple_rw_managed(sc, schema.get(), tag));
      else
        fx.reset(new fptu::tuple_rw_fixed(sc, schema.get(), tag));
    }
    reset_model();
  }
  void adopt(fptu::tuple_rw_fixed &&t, bool managed) {
    fx.reset();
    mg.reset();
    if (managed)
      mg.reset(new fptu::tuple_rw_managed(std::move(t)));
    else
      fx.reset(new fptu::tuple_rw_fixed(std::move(t)));
  }

  // --- expectations ---------------------------------------------------------
  bool present(size_t i) const {
    auto &d = defs[i];
    if (d.pre && !stretchy(d.g))
      return !(d.disc && vals[i][0] == denil(d.g));
    return !vals[i].empty();
  }
  Res expect_get(size_t i) const {
    auto &d = defs[i];
    Res e;
    if (d.coll)
      e.out = unallowed;
    else if (present(i))
      e.val = vals[i][0];
    else if (d.disc)
      e.out = absent;
    else
      e.val = zero(d.g);
    return e;
  }
  uint64_t model_hash() const {
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < defs.size(); ++i) {
      auto &d = defs[i];
      h = rng::mix(h ^ uint64_t(d.g) ^ (uint64_t(d.pre) << 8) ^ (uint64_t(d.coll) << 9) ^ (uint64_t(d.disc) << 10));
      uint64_t s = vals[i].size();
      for (auto &v : vals[i])
        s += rng::mix(hash_str(v));
      h = rng::mix(h ^ s);
    }
    return h;
  }

  std::string dump() {
    auto w = crw().take_weak_asis();
    return " [" + hex(w.data(), w.size(), 400) + "]";
  }
  // --- monitors -------------------------------------------------------------
  // members of a structure laid over the preplaced area
  void check_overlay() {
    const auto w = crw().take_weak_asis();
    const char *const base = static_cast<const char *>(w.data());
    const char *const area = base + 4 * (1 + size_t((static_cast<unsigned char>(base[2]) | static_cast<unsigned char>(base[3]) << 8) >> 3));
    auto sv = [](const fptu::string_view &v) { return Val(v.data() ? v.data() : "", v.size()); };
    for (size_t i = 0; i < defs.size(); ++i) {
      const auto &d = defs[i];
      if (!d.pre || !stretchy(d.g))
        continue;
      const char *const at = area + d.tok.preplaced_offset();
      Res a;
      Val soft;
      switch (d.g) {
      case G_TEXT: {
        auto m = reinterpret_cast<const fptu::preplaced_string *>(at);
        a = guarded([&] { return sv(m->value()); });
        soft = sv(m->value_nothrow());
        break;
      }
      case G_VARBIN: {
        auto m = reinterpret_cast<const fptu::preplaced_varbin *>(at);
        a = guarded([&] { return sv(m->value()); });
        soft = sv(m->value_nothrow());
        break;
      }
      case G_NESTED: {
        auto m = reinterpret_cast<const fptu::preplaced_nested *>(at);
        a = guarded([&] { auto n = m->value(); return raw(n.data(), n.size()); });
        if (present(i)) {
          auto n = m->value_nothrow();
          soft = raw(n.data(), n.size());
        }
        break;
      }
      default: continue;
      }
      if (present(i)) {
        REQUIRE(a.out == ok && a.val == vals[i][0] && soft == vals[i][0], "overlay", "member %s of a structure over the tuple is %s, expected %s", d.name.c_str(), a.str().c_str(), hex(vals[i][0]).c_str());
        count("overlay_present");
      } else {
        REQUIRE(a.out == absent && soft.empty(), "overlay", "member %s of a structure over the tuple is %s, expected to be absent", d.name.c_str(), a.str().c_str());
        count("overlay_absent");
      }
    }
  }
  template <typename T> void check_reads(const T &t, const char *view) {
    if (t.empty())
      for (size_t i = 0; i < defs.size(); ++i)
        REQUIRE(!defs[i].pre && !present(i), "content-empty", "%s: said to be empty with %s", view, defs[i].name.c_str());
    auto &u = const_cast<T &>(t); // rw tuples offer [] and collection() as non-const only
    for (size_t i = 0; i < defs.size(); ++i) {
      auto &d = defs[i];
      const Res e = expect_get(i);
      Res a = guarded([&] { return tup_get(t, d.tok, d.g); });
      REQUIRE(a == e, "content-get", "%s: get(%s) is %s, expected %s%s", view, d.name.c_str(), a.str().c_str(), e.str().c_str(), dump().c_str());
      if (!d.coll && r.chance(30)) {
        a = guarded([&] { return acc_get(u[d.tok], d.g); });
        REQUIRE(a == e, "content-accessor", "%s: [%s] is %s, expected %s", view, d.name.c_str(), a.str().c_str(), e.str().c_str());
        const bool ex = u[d.tok].exist();
        REQUIRE(ex == present(i), "content-exist", "%s: [%s].exist() is %d", view, d.name.c_str(), int(ex));
      }
      const bool p = t.is_present(d.tok);
      REQUIRE(p == present(i), "content-present", "%s: is_present(%s) is %d, expected %d", view, d.name.c_str(), int(p), int(present(i)));
      if (d.coll) {
        std::vector<Val> got;
        auto col = u.collection(d.tok);
        size_t beyond = 0;
        for (auto it = col.begin(); it != col.end(); ++it)
          REQUIRE(++beyond <= vals[i].size() + 4 && !(it == col.end()) && (it == col.begin()) == (beyond == 1) && (it != col.begin()) == (beyond != 1), "content-collection", "%s: iterators of %s", view, d.name.c_str());
        for (const auto &it : col) {
          got.push_back(acc_get(it, d.g));
          REQUIRE(got.size() <= vals[i].size() + 4, "content-collection", "%s: collection %s does not end", view, d.name.c_str());
        }
        check_multiset(got, vals[i], "content-collection", view, d.name);
        const bool em = col.begin() == col.end();
        REQUIRE(em == vals[i].empty(), "content-collection-empty", "%s: %s", view, d.name.c_str());
      }
    }
  }
  void check_multiset(std::vector<Val> a, std::vector<Val> b, const char *sig, const char *view, const std::string &name) {
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    count("oracle_checks");
    if (a != b) {
      std::string s = strf("%s: %s has %zu items, expected %zu;", view, name.c_str(), a.size(), b.size());
      for (auto &v : a)
        s += " got " + hex(v, 16);
      for (auto &v : b)
        s += " exp " + hex(v, 16);
      violation(sig, s);
    }
  }

  using Item = std::pair<std::string, Val>;
  std::vector<Item> model_items(bool loose_only) const {
    std::vector<Item> m;
    for (size_t i = 0; i < defs.size(); ++i) {
      auto &d = defs[i];
      if (d.pre) {
        if (!loose_only && present(i))
          m.emplace_back("p" + std::to_string(d.tok.preplaced_offset()), vals[i][0]);
      } else
        for (auto &v : vals[i])
          m.emplace_back(strf("%d:%u", d.g, d.id), v);
    }
    std::sort(m.begin(), m.end());
    return m;
  }
  void check_items(std::vector<Item> got, bool loose_only, const char *view) {
    std::sort(got.begin(), got.end());
    auto exp = model_items(loose_only);
    count("oracle_checks");
    if (got != exp) {
      std::string s = strf("%s: %zu items, expected %zu;", view, got.size(), exp.size());
      for (auto &i : got)
        s += " got " + i.first + "=" + hex(i.second, 12);
      for (auto &i : exp)
        s += " exp " + i.first + "=" + hex(i.second, 12);
      violation("iter", s);
    }
  }
  template <typename T, typename B, typename E> void check_iter(const T &t, B b, E e, const char *view) {
    std::vector<Item> got, back;
    size_t limit = t.index_size() + defs.size() + 4;
    auto visit = [&](std::vector<Item> &to, const decltype(b) &it) {
      if (int(it.field_type()) == G_HOLE)
        return; // see known finding iter-visits-holes
      auto acc = *it;
      const int g = int(acc.type());
      if (acc.is_preplaced())
        to.emplace_back("p" + std::to_string(acc.token().preplaced_offset()), acc_get(acc, g));
      else {
        to.emplace_back(strf("%d:%u", g, acc.token().id()), acc_get(acc, g));
      }
      REQUIRE(acc.exist(), "iter", "%s: an iterated field claims not to exist", view);
      if (schema) {
        const auto ft = it.field_token();
        REQUIRE(ft.is_preplaced() == acc.is_preplaced() && ft.type() == acc.type(), "iter", "%s: field_token mismatch", view);
        bool known = false;
        for (auto &d : defs)
          known |= d.tok == ft;
        REQUIRE(known, "iter", "%s: field_token() is not a schema token", view);
        REQUIRE(it == ft && !(it != ft), "iter", "%s: iterator does not match its own token", view);
        for (auto &d : defs)
          if (d.pre != acc.is_preplaced() || (d.pre ? d.tok.preplaced_offset() != ft.preplaced_offset() : d.g != g || d.id != ft.id()))
            REQUIRE(it != d.tok && !(it == d.tok), "iter", "%s: iterator on %s matches the token of %s", view, to.back().first.c_str(), d.name.c_str());
      }
      REQUIRE(b <= it && !(it < b) && it >= b && (it == b) == !(b < it) && (it > b) == (it != b) && it < e && e > it && it <= e && !(e <= it) && !(it >= e), "iter-order", "%s: iterators are out of order", view);
    };
    size_t n = 0;
    for (auto it = b; !(it == e); ++it) {
      REQUIRE(n++ <= limit, "iter", "%s: iteration does not end", view);
      visit(got, it);
    }
    check_items(got, false, view);
    n = 0;
    for (auto it = e; !(it == b);) {
      --it;
      REQUIRE(n++ <= limit, "iter", "%s: backward iteration does not end", view);
      visit(back, it);
    }
    std::reverse(back.begin(), back.end());
    REQUIRE(back == got, "iter", "%s: backward iteration differs from forward", view);
    n = 0;
    std::vector<Item> post;
    for (auto it = b; !(it == e); it++) {
      REQUIRE(n++ <= limit, "iter-postinc", "%s: iteration by it++ does not end", view);
      visit(post, it);
    }
    REQUIRE(post == got, "iter-postinc", "%s: it++ visits differently", view);
  }
  template <typename T> void check_loose_iter(const T &t, const char *view) {
    std::vector<Item> got;
    size_t n = 0, limit = t.index_size() + 2;
    const auto b = t.cbegin_loose(), e = t.cend_loose();
    for (auto it = b; it != e; ++it) {
      REQUIRE(n++ <= limit, "iter", "%s: loose iteration does not end", view);
      const int g = int(it.field_type());
      if (g == G_HOLE)
        continue;
      if (int(b.field_type()) != G_HOLE)
        REQUIRE(int(b[ptrdiff_t(n) - 1].type()) == g, "iter", "%s: loose iterator [%zu] is another field", view, n - 1);
      auto acc = *it;
      REQUIRE(it.field_id() == acc.token().id() && int(acc.type()) == g, "iter", "%s: loose id/type mismatch", view);
      got.emplace_back(strf("%d:%u", g, it.field_id()), acc_get(acc, g));
      for (auto &d : defs)
        REQUIRE((it == d.tok) == (!d.pre && d.g == g && d.id == it.field_id()) && (it != d.tok) == !(it == d.tok), "iter", "%s: loose iterator on %s against the token of %s", view, got.back().first.c_str(), d.name.c_str());
      REQUIRE(b <= it && !(it < b) && it >= b && (it == b) == !(b < it) && (it > b) == (it != b) && it < e && e > it && it <= e && !(e <= it) && !(it >= e), "iter-order", "%s: loose iterators are out of order", view);
      if (schema) {
        const auto ft = it.field_token(schema.get());
        REQUIRE(it == ft, "iter", "%s: loose iterator does not match its own token", view);
      }
    }
    REQUIRE(n == t.index_size(), "iter", "%s: loose iteration visits %zu of %zu", view, n, t.index_size());
    REQUIRE(e - b == ptrdiff_t(n), "iter", "%s: loose distance %zd, visited %zu", view, e - b, n);
    REQUIRE(b + ptrdiff_t(n) == e && e - ptrdiff_t(n) == b, "iter", "%s: loose iterator arithmetic", view);
    check_items(got, true, view);
  }

  void check_image(const fptu::tuple_ro_weak &w, const char *view) {
    Image im = decode(w.data(), w.size(), schema ? &layout : nullptr);
    REQUIRE(im.error.empty(), "struct-decode", "%s: %s [%s]", view, im.error.c_str(), hex(w.data(), w.size(), 400).c_str());
    std::vector<Item> got;
    for (auto &l : im.loose)
      got.emplace_back(strf("%d:%u", l.g, l.id), l.v);
    std::sort(got.begin(), got.end());
    auto exp = model_items(true);
    REQUIRE(got == exp, "struct-content", "%s: the serialized image has other loose fields than written [%s]", view, hex(w.data(), w.size(), 400).c_str());
    size_t k = 0;
    for (size_t i = 0; i < defs.size(); ++i)
      if (defs[i].pre) {
        auto &s = im.slots[k++];
        const bool same = stretchy(defs[i].g) ? s.has_value() == !vals[i].empty() && (!s || *s == vals[i][0]) : s && *s == vals[i][0];
        REQUIRE(same, "struct-content", "%s: preplaced %s is %s in the image", view, defs[i].name.c_str(), s ? hex(*s).c_str() : "nil");
      }
    REQUIRE(im.preplaced_flag == (layout.bytes > 0), "struct-flag", "%s: preplaced flag %d", view, int(im.preplaced_flag));
    REQUIRE(w.index_size() == im.index, "struct-accounting", "%s: index_size %zu vs %zu", view, w.index_size(), im.index);
    REQUIRE(w.payload_size() == im.payload_units * 4, "struct-accounting", "%s: payload_size", view);
  }
  void check_struct() {
    auto &t = crw();
    const char *trouble = t.validate();
    REQUIRE(!trouble, "struct-validate", "validate() says: %s", trouble ? trouble : "");
    auto w = t.take_weak_asis();
    check_image(w, "asis");
    Image im = decode(w.data(), w.size(), schema ? &layout : nullptr);
    REQUIRE(t.index_size() == im.index, "struct-accounting", "index_size %zu, decoded %zu", t.index_size(), im.index);
    REQUIRE(t.loose_count() == im.loose.size(), "struct-accounting", "loose_count %zu, decoded %zu", t.loose_count(), im.loose.size());
    REQUIRE(t.junk_units() == im.holes + im.hole_units, "struct-accounting", "junk_units %zu, decoded %zu holes with %zu units", t.junk_units(), im.holes, im.hole_units);
    REQUIRE(t.junk_bytes() == 4 * t.junk_units(), "struct-accounting", "junk_bytes");
    REQUIRE(t.payload_size_bytes() == im.payload_units * 4, "struct-accounting", "payload_size_bytes");
    REQUIRE(t.brutto_size() == im.units * 4, "struct-accounting", "brutto_size %zu, image %zu", t.brutto_size(), im.units * 4);
    REQUIRE(t.netto_size() == (im.units - im.holes - im.hole_units) * 4, "struct-netto", "netto_size %zu, image holds %zu", t.netto_size(), (im.units - im.holes - im.hole_units) * 4);
    REQUIRE(t.head_space() * 4 + t.index_size() * 4 + t.payload_size_bytes() + t.tail_space_bytes() == t.capacity(), "struct-accounting",
            "head %zu + index %zu + payload %zu + tail %zu != capacity %zu", t.head_space() * 4, t.index_size() * 4, t.payload_size_bytes(), t.tail_space_bytes(), t.capacity());
    const size_t mi = r(50), mb = r(3000), least = (t.index_size() + mi) * 4 + t.payload_size_bytes() + mb;
    if (t.index_size() + mi <= fptu::max_fields && least + layout.bytes < 60000 * 4) {
      const size_t est = t.estimate_required_space(mi, mb);
      REQUIRE(est >= least && est <= least + layout.bytes + 200 && est == fptu::tuple_rw_fixed::estimate_required_space(t, mi, mb), "struct-estimate", "room for %zu items and %zu bytes more than %zu and %zu is %zu", mi, mb, t.index_size(), t.payload_size_bytes(), est);
    }
    const char *tr = w.validate(schema.get());
    REQUIRE(!tr, "struct-validate", "the serialized form is rejected: %s", tr ? tr : "");
  }
  // --- all monitors after an operation ----------------------------------------
  void observe() {
    if ((pf.oracles & O_CONTENT) && layout.bytes && r.chance(10))
      check_overlay();
    count("observations");
    state(model_hash());
    auto &t = crw();
    if (pf.oracles & O_CONTENT) {
      switch (r(4)) {
      case 0: check_reads(t.take_weak_asis(), "weak"); break;
      case 1: check_reads(t.take_managed_clone_asis(), "managed-clone"); break;
      default: check_reads(t, "rw"); break;
      }
      if (r.chance(10))
        check_reads(t, "rw");
    }
    if (pf.oracles & O_STRUCT)
      check_struct();
    if (pf.oracles & O_ITER) {
      if (r.chance(50))
        check_iter(t, t.cbegin(), t.cend(), "rw");
      else {
        auto w = t.take_weak_asis();
        check_iter(w, w.cbegin(schema.get()), w.cend(schema.get()), "weak");
        check_loose_iter(w, "weak-loose");
      }
      check_loose_iter(t, "rw-loose");
    }
  }
  uint64_t image_hash() {
    auto w = crw().take_weak_asis();
    return hash_bytes(w.data(), w.size());
  }

  // --- operations ---------------------------------------------------------------
  // an autogrowing tuple may refuse only what cannot be represented
  bool over_limit(size_t units) {
    count("ops_over_limit");
    return crw().brutto_size() / 4 - crw().junk_units() + units + 1 >= 65534 || crw().loose_count() >= 8191;
  }
  struct Room {
    size_t head, tail;
  };
  Room room() { return {crw().head_space(), crw().tail_space_units()}; }

  Val new_val(const Def &d) {
    if (pf.nil_bias && r.chance(pf.nil_bias))
      return r.chance(50) || stretchy(d.g) ? (d.g == G_NESTED ? Val("\x01\0\0\0", 4) : zero(d.g)) : denil(d.g);
    return gen_val(r, d.g, pf.value_cap, &pool);
  }

  void op_set(size_t i) {
    auto &d = defs[i];
    const Val v = new_val(d);
    const bool via_acc = !mg && r.chance(30);
    const Room before = room();
    Res a = guarded([&] {
      if (via_acc) {
        auto acc = rw()[d.tok];
        acc_set(acc, d.g, v);
      } else if (mg)
        tup_set(*mg, d.tok, d.g, v);
      else
        tup_set(*fx, d.tok, d.g, v);
      return Val();
    });
    log(strf("set%s %s = %s -> %s", via_acc ? "[]" : "", d.name.c_str(), hex(v, 20).c_str(), out_names[a.out]));
    count(a.out == ok ? "ops_set" : "ops_set_failed");
    if (a.out == ok) {
      if (d.pre && !stretchy(d.g))
        vals[i][0] = v;
      else if (!d.disc && is_empty_val(d.g, v))
        vals[i].clear();
      else
        vals[i].assign(1, v);
      return;
    }
    if (mg && a.out == toolarge && over_limit(units_of(d.g, v)))
      return;
    REQUIRE(a.out == space && !mg, "set-exception", "set(%s) threw %s", d.name.c_str(), a.str().c_str());
    fits(before, units_of(d.g, v), strf("set(%s)", d.name.c_str()));
  }
  void fits(const Room &b, size_t units, const std::string &what) {
    if (pf.oracles & O_ATOMIC)
      REQUIRE(!(b.head >= 1 && b.tail >= units), "fits-but-refused", "%s needs %zu units, head %zu tail %zu, yet threw insufficient_space", what.c_str(), units, b.head, b.tail);
  }
  void op_insert(size_t i) {
    auto &d = defs[i];
    const Val v = new_val(d);
    const Room before = room();
    Res a = guarded([&] {
      if (mg)
        tup_insert(*mg, d.tok, d.g, v);
      else
        tup_insert(*fx, d.tok, d.g, v);
      return Val();
    });
    log(strf("insert %s += %s -> %s", d.name.c_str(), hex(v, 20).c_str(), out_names[a.out]));
    count(a.out == ok ? "ops_insert" : "ops_insert_failed");
    if (a.out == ok) {
      if (d.disc || !is_empty_val(d.g, v))
        vals[i].push_back(v);
      return;
    }
    if (mg && a.out == toolarge && over_limit(units_of(d.g, v)))
      return;
    REQUIRE(a.out == space && !mg, "insert-exception", "insert(%s) threw %s", d.name.c_str(), a.str().c_str());
    fits(before, units_of(d.g, v), strf("insert(%s)", d.name.c_str()));
  }
  void op_erase(size_t i) {
    auto &d = defs[i];
    const bool had = present(i);
    bool ret = false;
    size_t many = 0;
    const bool own = mg && r.chance(70), whole = d.coll && r.chance(30);
    const bool tight = own && d.pre && stretchy(d.g) && had && rw().head_space() == 0;
    Res a = guarded([&] {
      if (own)
        ret = whole ? (many = mg->erase(mg->collection(d.tok))) > 0 : mg->erase(d.tok);
      else
        ret = whole ? (many = rw().erase(rw().collection(d.tok))) > 0 : rw().erase(d.tok);
      if (whole)
        REQUIRE(many == vals[i].size(), "erase-collection", "%zu erased instead of %zu", many, vals[i].size());
      return Val();
    });
    log(strf("erase%s %s -> %s %d", own ? "(managed)" : "", d.name.c_str(), out_names[a.out], int(ret)));
    count("ops_erase");
    if (vals[i].size() > 255)
      count("ops_erase_many");
    if (own)
      count(tight ? "ops_erase_grows" : "ops_erase_managed");
    if (a.out != ok) {
      if (own && a.out == toolarge && rw().index_size() >= fptu::max_fields)
        return;
      REQUIRE(!own, "erase-managed", "erase(%s) of an autogrowing tuple threw %s", d.name.c_str(), a.str().c_str());
      // releasing a payload chunk may need an index slot for the hole
      REQUIRE(a.out == space, "erase-exception", "erase(%s) threw %s", d.name.c_str(), a.str().c_str());
      REQUIRE(d.pre && stretchy(d.g), "erase-refused", "erase(%s) threw insufficient_space", d.name.c_str());
      return;
    }
    REQUIRE(ret == had, "erase-result", "erase(%s) returned %d, presence was %d", d.name.c_str(), int(ret), int(had));
    if (d.pre && !stretchy(d.g))
      vals[i][0] = d.disc ? denil(d.g) : zero(d.g);
    else
      vals[i].clear();
  }
  bool remove_one(size_t i, const Val &v) {
    auto it = std::find(vals[i].begin(), vals[i].end(), v);
    if (it == vals[i].end())
      return false;
    vals[i].erase(it);
    return true;
  }
  void op_erase_it(size_t i) {
    auto &d = defs[i];
    auto c = rw().collection(d.tok);
    if (vals[i].empty())
      return;
    size_t k = r(vals[i].size());
    auto it = c.begin();
    for (size_t j = 0; j < k; ++j)
      ++it;
    auto acc0 = *it;
    const Val v = acc_get(acc0, d.g);
    const bool own = mg && r.chance(70);
    bool ret = own ? mg->erase(it) : rw().erase(it);
    log(strf("erase %s[#%zu]=%s -> %d", d.name.c_str(), k, hex(v, 16).c_str(), int(ret)));
    count("ops_erase_it");
    REQUIRE(ret, "erase-it", "erase(iterator) returned false");
    REQUIRE(remove_one(i, v), "erase-it", "collection %s offered a value never inserted", d.name.c_str());
  }
  void op_erase_range(size_t i) {
    auto &d = defs[i];
    if (vals[i].empty())
      return;
    auto c = rw().collection(d.tok);
    size_t n = vals[i].size(), a = r(n), b = r.range(a, n);
    std::vector<Val> gone;
    auto from = c.begin();
    for (size_t j = 0; j < a; ++j)
      ++from;
    auto to = from;
    for (size_t j = a; j < b; ++j) {
      auto acc0 = *to;
      gone.push_back(acc_get(acc0, d.g));
      ++to;
    }
    const bool own = mg && r.chance(70);
    size_t ret = own ? mg->erase(from, to) : rw().erase(from, to);
    log(strf("erase %s[#%zu..#%zu) -> %zu", d.name.c_str(), a, b, ret));
    count("ops_erase_range");
    if (b - a > 255)
      count("ops_erase_many");
    REQUIRE(ret == b - a, "erase-range", "erase(range) returned %zu, expected %zu", ret, b - a);
    for (auto &v : gone)
      REQUIRE(remove_one(i, v), "erase-range", "collection %s offered a value never inserted", d.name.c_str());
  }
  void op_modify_it(size_t i) {
    auto &d = defs[i];
    if (vals[i].empty())
      return;
    auto c = rw().collection(d.tok);
    size_t k = r(vals[i].size());
    auto it = c.begin();
    for (size_t j = 0; j < k; ++j)
      ++it;
    auto acc = *it;
    const Val old = acc_get(acc, d.g);
    const Val v = new_val(d);
    const Room before = room();
    Res a = guarded([&] {
      acc_set(acc, d.g, v);
      return Val();
    });
    log(strf("modify %s[#%zu] %s := %s -> %s", d.name.c_str(), k, hex(old, 12).c_str(), hex(v, 16).c_str(), out_names[a.out]));
    count("ops_modify_it");
    if (a.out == ok) {
      REQUIRE(remove_one(i, old), "modify-it", "collection %s offered a value never inserted", d.name.c_str());
      if (d.disc || !is_empty_val(d.g, v))
        vals[i].push_back(v);
    } else {
      REQUIRE(a.out == space, "set-exception", "modify(%s) threw %s", d.name.c_str(), a.str().c_str());
      fits(before, units_of(d.g, v), strf("modify(%s)", d.name.c_str()));
    }
  }
  void op_optimize() {
    count("ops_optimize");
    auto &t = rw();
    using of = fptu::details::tuple_rw::optimize_flags;
    const size_t junk0 = t.junk_units();
    bool compacted = true;
    switch (r(11)) {
    case 0: log("compactify"); t.compactify(); break;
    case 1: log("optimize"); t.optimize(); break;
    case 2: log("sort_index"); t.sort_index(); compacted = false; break;
    case 3: log("sort_index force"); t.sort_index(true); compacted = false; break;
    case 4: {
      log("take_weak_optimized");
      auto p = t.take_weak_optimized();
      REQUIRE(p.first.size() == t.brutto_size(), "optimized-view", "size of the optimized view");
      if (pf.oracles & O_CONTENT)
        check_reads(p.first, "optimized-view");
      break;
    }
    case 5: {
      log("take_managed_clone_optimized");
      auto p = t.take_managed_clone_optimized();
      if (pf.oracles & O_CONTENT)
        check_reads(p.first, "optimized-clone");
      if (pf.oracles & O_JUNK) {
        const char *tr = p.first.validate(schema.get(), true);
        REQUIRE(!tr, "junk-left", "optimized clone: %s", tr ? tr : "");
      }
      break;
    }
    case 6: log("optimize none"); t.optimize(of::none); compacted = false; break;
    default: { // the variants with an explicit wish
      const bool dont = r(2) != 0, managed = r(2) != 0;
      log(strf("%s(dont_optimize=%d)", managed ? "take_managed_clone" : "take_weak", dont));
      const auto w0 = t.take_weak_asis();
      const Val before = raw(w0.data(), w0.size());
      bool invalidated;
      if (managed) {
        const bool hollow = r.chance(40);
        auto p = t.take_managed_clone(dont, hollow);
        invalidated = p.second;
        const bool nothing = hollow && t.take_weak_asis().empty();
        REQUIRE(bool(p.first) != nothing, "taken-hollow", "hollow_if_empty=%d gave %s clone", int(hollow), p.first ? "a" : "no");
        if (nothing)
          count("taken_hollow");
        if (!nothing && (pf.oracles & O_CONTENT))
          check_reads(p.first, "taken-clone");
        if (dont && !nothing)
          REQUIRE(raw(p.first.data(), p.first.size()) == before, "optimized-unasked", "a clone asked to be taken as is differs");
      } else {
        auto p = t.take_weak(dont);
        invalidated = p.second;
        if (pf.oracles & O_CONTENT)
          check_reads(p.first, "taken-view");
        REQUIRE(p.first.size() == t.brutto_size(), "optimized-view", "size of the view");
      }
      const auto w1 = t.take_weak_asis();
      const Val after = raw(w1.data(), w1.size());
      if (dont) {
        REQUIRE(after == before && !invalidated, "optimized-unasked", "the tuple was changed although asked not to optimize (%zu -> %zu bytes)", before.size(), after.size());
        compacted = false;
      } else
        REQUIRE(invalidated || after == before, "invalidation-hidden", "the tuple was rearranged, but iterators are said to be valid");
      break;
    }
    }
    if (compacted && junk0)
      count("compactions_with_junk");
    if (compacted && (pf.oracles & O_JUNK)) {
      REQUIRE(t.junk_units() == 0, "junk-left", "%zu junk units after compaction", t.junk_units());
      const char *tr = t.take_weak_asis().validate(schema.get(), true);
      REQUIRE(!tr, "junk-left", "after compaction: %s", tr ? tr : "");
      size_t need = 1 + layout_units();
      for (size_t i = 0; i < defs.size(); ++i)
        if (!(defs[i].pre && !stretchy(defs[i].g)))
          for (auto &v : vals[i])
            need += (defs[i].pre ? 0 : 1) + units_of(defs[i].g, v);
      REQUIRE(t.brutto_size() == need * 4, "junk-left", "compacted size %zu, the content needs %zu", t.brutto_size(), need * 4);
    }
  }
  size_t layout_units() const { return (layout.bytes + 3) / 4; }

  // copies made for another schema: given exactly when the content conforms to it
  void alien_copies(const void *image, size_t bytes) {
    auto alien = fptu::schema::create();
    static const genus some[] = {genus::u32, genus::text, genus::u8, genus::bin128, genus::varbin, genus::i64};
    if (r.chance(60))
      for (unsigned k = 0, n = unsigned(1 + r(4)); k < n; ++k)
        alien->define_preplaced(strf("p%u", k), some[r(6)]);
    if (r.chance(60))
      alien->define_loose("loose", genus::text);
    const bool conforms = fptu::tuple_ro_weak::validate(image, bytes, alien.get(), false) == nullptr;
    if ((layout.bytes != 0) != (alien->preplaced_bytes() != 0))
      REQUIRE(!conforms, "alien-accepted", "content with %u preplaced bytes passed validation for a schema with %zu ones", unsigned(layout.bytes), size_t(alien->preplaced_bytes()));
    if (!layout.bytes && !alien->preplaced_bytes())
      REQUIRE(conforms, "alien-refused", "content without preplaced fields failed validation for a schema without ones");
    count(conforms ? "alien_conforms" : "alien_refused");
    for (unsigned way = 0; way < 7; ++way) {
      const size_t mi = pick_items(), mb = pick_bytes();
      bool done = false;
      log(strf("alien way=%u preplaced %zu conforms=%d", way, size_t(alien->preplaced_bytes()), int(conforms)));
      try {
        const fptu::tuple_ro_weak w(image, bytes, schema.get());
        auto ro = [&](const fptu::tuple_ro_managed &x) {
          REQUIRE(x.size() == bytes && !memcmp(x.data(), image, bytes), "alien-copy", "bytes of a copy differ");
          done = true;
        };
        auto rwf = [&](const fptu::tuple_rw_fixed &x) {
          auto y = x.take_weak_asis();
          REQUIRE(x.schema() == alien.get() && y.size() == bytes && !memcmp(y.data(), image, bytes), "alien-copy", "bytes of a writable copy differ");
          done = true;
        };
        switch (way) {
        case 0: ro(fptu::tuple_ro_managed(image, bytes, alien.get())); break;
        case 1: ro(fptu::tuple_ro_managed::clone(fptu::tuple_ro_managed(image, bytes, schema.get()), alien.get())); break;
        case 2: ro(fptu::tuple_ro_managed::clone(w, alien.get())); break;
        case 3: rwf(fptu::tuple_rw_fixed(image, bytes, mi, mb, alien.get(), pick_tag())); break;
        case 4: rwf(fptu::tuple_rw_fixed::clone(fptu::tuple_ro_managed(image, bytes, schema.get()), mi, mb, alien.get(), pick_tag())); break;
        case 5: rwf(fptu::tuple_rw_fixed::clone(w, mi, mb, alien.get(), pick_tag())); break;
        case 6: ro(fptu::tuple_ro_managed::clone(fptu::tuple_ro_managed(fptu::tuple_rw_fixed(image, bytes, 1, 8, schema.get())), alien.get())); break;
        }
      } catch (const std::bad_alloc &) {
        throw;
      } catch (const std::exception &e) {
        log(strf("alien: %s", e.what()));
      }
      REQUIRE(done == conforms, conforms ? "alien-copy-refused" : "alien-copy-given", "way %u: a copy for another schema was %s though the content %s to it", way, done ? "given" : "refused",
              conforms ? "conforms" : "does not conform");
    }
  }
  void op_roundtrip() {
    count("ops_roundtrip");
    auto w = crw().take_weak_asis();
    const size_t bytes = w.size();
    // exactly sized heap copies: any over-read hits the redzone
    std::unique_ptr<uint32_t[]> copy(new uint32_t[bytes / 4]);
    memcpy(copy.get(), w.data(), bytes);
    const unsigned kind = unsigned(r(7));
    log(strf("roundtrip kind=%u bytes=%zu", kind, bytes));
    const bool managed = mg != nullptr;
    switch (kind) {
    case 0: {
      const size_t shift = r.chance(70) ? 0 : r(8); // e.g. inside of a network packet
      std::unique_ptr<char[]> packet(new char[bytes + shift]);
      memcpy(packet.get() + shift, copy.get(), bytes);
      fptu::tuple_ro_weak ro(packet.get() + shift, bytes, schema.get(), fptu::enforce_validation);
      check_reads(ro, "rt-weak");
      REQUIRE(ro.size() == bytes, "roundtrip", "size %zu != %zu", ro.size(), bytes);
      check_image(ro, "rt-weak");
      break;
    }
    case 1: {
      fptu::tuple_ro_managed ro(copy.get(), bytes, schema.get());
      memset(copy.get(), 0xA5, bytes);
      check_reads(ro, "rt-managed");
      const auto &me = crw();
      const auto there = ro.take_weak();
      const fptu::tuple_ro_managed share(ro);
      // equality means being the same tuple in the same place
      REQUIRE(me == w && w == me && !(me != w) && !(w != me) && me == me && !(me != me) && ro == there && there == ro && !(ro != there) && !(there != ro) && share == ro && !(share != ro), "identity", "the same tuple differs from itself %d%d%d%d%d%d%d%d%d bytes=%zu", me == w, w == me, !(me != w), !(w != me), me == me, ro == there, there == ro, share == ro, !(share != ro), w.size());
      REQUIRE(me != ro && ro != me && !(me == ro) && !(ro == me) && w != ro && ro != w && !(w == ro) && !(ro == w) && w != there && !(w == there) && me != there && !(me == there), "identity", "a copy is the same tuple");
      check_image(ro.take_weak(), "rt-managed");
      fptu::tuple_ro_managed c2 = fptu::tuple_ro_managed::clone(ro, schema.get());
      ro.purge();
      check_reads(c2, "rt-managed-clone");
      break;
    }
    case 2: {
      const size_t mi = pick_items(), mb = pick_bytes();
      fptu::tuple_rw_fixed t(copy.get(), bytes, mi, mb, schema.get(), pick_tag());
      check_reserve(t, mi, mb);
      memset(copy.get(), 0xA5, bytes);
      adopt(std::move(t), managed);
      break;
    }
    case 3: {
      fptu::tuple_rw_fixed t(copy.get(), bytes, r.chance(50) ? fptu::small : fptu::medium, schema.get());
      adopt(std::move(t), managed);
      break;
    }
    case 4: {
      fptu::tuple_ro_weak ro(copy.get(), bytes, schema.get(), fptu::enforce_validation);
      const size_t mi = pick_items(), mb = pick_bytes();
      fptu::tuple_rw_fixed t = fptu::tuple_rw_fixed::clone(ro, mi, mb, schema.get(), pick_tag());
      check_reserve(t, mi, mb);
      copy.reset();
      adopt(std::move(t), managed);
      break;
    }
    case 5: {
      fptu::tuple_ro_managed m = fptu::tuple_ro_managed::clone(fptu::tuple_ro_weak(copy.get(), bytes, schema.get()), schema.get());
      copy.reset();
      check_reads(m, "rt-clone-weak");
      check_image(m.take_weak(), "rt-clone-weak");
      break;
    }
    case 6:
#ifdef NDEBUG // a debug build aborts on whatever does not pass validation
      alien_copies(copy.get(), bytes);
#endif
      break;
    }
  }
  // Every way to make a tuple by a scale, explicit or taken from fptu::defaults.
  struct defaults_guard {
    const fptu::initiation_scale scale = fptu::defaults::scale;
    const hippeus::buffer_tag tag = fptu::defaults::allot_tag;
    defaults_guard(fptu::initiation_scale s, const fptu::schema *sch, const hippeus::buffer_tag &t) {
      fptu::defaults::setup(s, std::unique_ptr<fptu::schema>(const_cast<fptu::schema *>(sch)), t);
    }
    ~defaults_guard() {
      fptu::defaults::schema.release();
      fptu::defaults::setup(scale, std::unique_ptr<fptu::schema>(), tag);
    }
  };
  template <typename T> void scaled() {
    count("ops_scaled");
    static const size_t more_items[5] = {32, 128, 512, 2028, 8191}, more_bytes[5] = {800, 3200, 12800, 51200, 204800};
    const fptu::initiation_scale sc = fptu::initiation_scale(r.chance(40) ? 0 : r(5)), other = fptu::initiation_scale((sc + 1 + r(4)) % 5);
    const unsigned way = unsigned(r(20));
    const bool by_default = way % 3 == 0;
    const fptu::schema *const sch = schema.get();
    const hippeus::buffer_tag std_tag = fptu::defaults::allot_tag, tag = r.chance(50) ? hippeus::buffer_tag() : std_tag;
    const bool explicit_tag = way % 3 == 2;
    auto w = crw().take_weak_asis();
    const size_t bytes = w.size();
    std::unique_ptr<uint32_t[]> copy(new uint32_t[bytes / 4]);
    memcpy(copy.get(), w.data(), bytes);
    log(strf("scaled way=%u scale=%u tag=%d", way, unsigned(sc), int(bool(tag))));
    // the defaults hold what is expected where they must be used and something else where they must not
    const hippeus::buffer_tag foreign = std_tag;
    defaults_guard guard(by_default ? sc : other, explicit_tag ? nullptr : sch, foreign);
    REQUIRE(fptu::defaults::scale == (by_default ? sc : other) && fptu::defaults::schema.get() == (explicit_tag ? nullptr : sch), "defaults", "setup() did not take effect");
    const fptu::defaults ditto;
    auto ro_weak = [&] { return fptu::tuple_ro_weak(copy.get(), bytes, sch, fptu::enforce_validation); };
    auto ro_managed = [&] { return way % 2 ? fptu::tuple_ro_managed(copy.get(), bytes, sch) : fptu::tuple_ro_managed::clone(crw()); };
    auto check = [&](const T &t, bool full) {
      REQUIRE(t.schema() == sch, "scaled-schema", "way %u: the schema is not the one asked for", way);
      const bool nobuf = explicit_tag && !tag;
      REQUIRE(bool(t.get_buffer()) == !nobuf, "scaled-buffer", "way %u: buffer %p", way, (const void *)t.get_buffer());
      check_reserve(t, more_items[sc], full ? 0 : more_bytes[sc]);
      if (full) {
        const size_t total = t.tail_space_bytes() + size_t(layout.bytes);
        REQUIRE(total >= more_bytes[sc], "scaled-space", "way %u: only %zu bytes for scale %u", way, total, unsigned(sc));
        REQUIRE(t.head_space() >= more_items[sc], "scaled-space", "way %u: only %zu fields for scale %u", way, t.head_space(), unsigned(sc));
      }
    };
    auto take = [&](T &&t) {
      check(t, false);
      memset(copy.get(), 0xA5, bytes);
      adopt_as(std::move(t));
    };
    auto fresh = [&](const T &t) {
      check(t, true);
      REQUIRE(t.index_size() == 0 && t.empty() == (size_t(layout.bytes) == 0), "scaled-fresh", "way %u: a new tuple is not empty", way);
      for (size_t i = 0; i < defs.size(); ++i)
        if (!defs[i].pre)
          REQUIRE(!t.is_present(defs[i].tok), "scaled-fresh", "way %u: %s is present in a new tuple", way, defs[i].name.c_str());
    };
    const fptu::details::audit_holes_info none = {0, 0};
    switch (way) {
    case 0: fresh(T(ditto)); break;
    case 1: fresh(T(sc)); break;
    case 2: fresh(T(sc, sch, tag)); break;
    case 3: take(T(copy.get(), bytes, ditto)); break;
    case 4: take(T(copy.get(), bytes, sc)); break;
    case 5: take(T(copy.get(), bytes, sc, sch, tag)); break;
    case 6: take(T::clone(ro_weak(), ditto)); break;
    case 7: take(T::clone(ro_weak(), sc)); break;
    case 8: take(T::clone(ro_weak(), sc, sch, tag)); break;
    case 9: take(T::clone(ro_managed(), ditto)); break;
    case 10: take(T::clone(ro_managed(), sc)); break;
    case 11: take(T::clone(ro_managed(), sc, sch, tag)); break;
    case 12:
    case 13:
    case 14: { // a body known to be free of holes
      T tidy = T::clone(crw());
      tidy.optimize();
      const auto body = tidy.take_weak_asis();
      if (way == 12)
        take(T(none, body, ditto));
      else if (way == 13)
        take(T(none, body, sc));
      else
        take(T(none, body, sc, sch, tag));
      break;
    }
    case 17: take(T::clone(crw(), sc, tag)); break;
    case 16: { // nothing to copy
      const fptu::tuple_ro_managed hollow;
      fresh(T::clone(hollow, sc));
      break;
    }
    default: { // nothing to copy: refused where the schema is not known
      unsigned refused = 0;
      fptu::tuple_ro_managed hollow;
      T gone(T::clone(crw()));
      T now(std::move(gone));
      try {
        T t(T::clone(gone));
      } catch (const fptu::tuple_hollow &) {
        ++refused;
      }
      try {
        T t(T::clone(gone, sc, std_tag));
      } catch (const fptu::tuple_hollow &) {
        ++refused;
      }
      try {
        T t(std::move(hollow));
      } catch (const fptu::tuple_hollow &) {
        ++refused;
      }
      try {
        auto t = fptu::tuple_ro_managed::clone(hollow, sch);
        refused += sch == nullptr && !t;
      } catch (const fptu::tuple_hollow &) {
        ++refused;
      }
      try {
        auto t = fptu::tuple_ro_managed::clone(fptu::tuple_ro_weak(), sch);
        refused += sch == nullptr && !t;
      } catch (const fptu::tuple_hollow &) {
        ++refused;
      }
      REQUIRE(refused == 5, "hollow-source", "%u of 5 hollow sources are handled", refused);
      REQUIRE(!fptu::tuple_ro_managed::clone(hollow) && !fptu::tuple_ro_managed::clone(fptu::tuple_ro_weak()), "hollow-source", "a copy of nothing is something");
      break;
    }
    }
  }
  void adopt_as(fptu::tuple_rw_fixed &&t) {
    mg.reset();
    fx.reset(new fptu::tuple_rw_fixed(std::move(t)));
  }
  void adopt_as(fptu::tuple_rw_managed &&t) {
    fx.reset();
    mg.reset(new fptu::tuple_rw_managed(std::move(t)));
  }
  void op_clone() {
    count("ops_clone");
    const bool managed = mg != nullptr;
    const unsigned kind = unsigned(r(5));
    log(strf("clone kind=%u", kind));
    switch (kind) {
    case 3:
    case 4: managed ? (void)scaled<fptu::tuple_rw_managed>() : (void)scaled<fptu::tuple_rw_fixed>(); break;
    case 0: {
      fptu::tuple_rw_fixed t = fptu::tuple_rw_fixed::clone(crw(), pick_tag());
      check_reserve(t, std::min(crw().head_space(), size_t(8191)), crw().tail_space_bytes());
      adopt(std::move(t), managed);
      break;
    }
    case 1: {
      const size_t mi = pick_items(), mb = pick_bytes();
      fptu::tuple_rw_fixed t = fptu::tuple_rw_fixed::clone(crw(), mi, mb, pick_tag());
      check_reserve(t, mi, mb);
      adopt(std::move(t), managed);
      break;
    }
    case 2: {
      fptu::tuple_ro_managed ro = fptu::tuple_ro_managed::clone(crw());
      check_reads(ro, "ro-clone");
      fptu::tuple_rw_fixed t(std::move(ro));
      adopt(std::move(t), managed);
      break;
    }
    }
  }
  void op_move() {
    count("ops_move");
    const bool managed = mg != nullptr, dont = r.chance(50);
    log(strf("move_to_ro dont_optimize=%d and back", int(dont)));
    if (!rw().get_buffer()) { // nothing to share: must be refused with the content kept
      bool refused = false;
      try {
        rw().move_to_ro(dont);
      } catch (const fptu::managed_buffer_required &) {
        refused = true;
      }
      REQUIRE(refused && rw(), "moved-without-buffer", "a tuple without a managed buffer was moved to a shareable one");
      return;
    }
    fptu::tuple_ro_managed ro = rw().move_to_ro(dont);
    check_reads(ro, "moved-ro");
    REQUIRE(!rw(), "moved-from", "the moved-from tuple still claims content");
    fptu::tuple_ro_managed second(ro);
    check_reads(second, "shared-ro");
    if (r.chance(50))
      second.purge();
    fptu::tuple_rw_fixed t(std::move(ro));
    if (second)
      check_reads(second, "shared-ro");
    adopt(std::move(t), managed);
  }
  void op_negative(size_t i) {
    auto &d = defs[i];
    count("ops_negative");
    const uint64_t h = image_hash();
    Res a;
    Out want;
    switch (r(4)) {
    case 0: { // set through a non-collection call on a collection or vice versa
      const Val v = new_val(d);
      if (d.coll) {
        a = guarded([&] { mg ? tup_set(*mg, d.tok, d.g, v) : tup_set(*fx, d.tok, d.g, v); return Val(); });
        want = unallowed;
      } else {
        if (d.g == G_T32)
          return;
        a = guarded([&] { mg ? tup_insert(*mg, d.tok, d.g, v) : tup_insert(*fx, d.tok, d.g, v); return Val(); });
        want = required;
      }
      break;
    }
    case 1: { // wrong type on read
      int g;
      do
        g = usable[r(std::size(usable))];
      while (g == d.g || (g == G_T32 || g == G_T64));
      a = guarded([&] { return tup_get(crw(), d.tok, g); });
      want = d.coll ? unallowed : mismatch;
      break;
    }
    case 2: { // wrong type on write
      int g;
      do
        g = usable[r(std::size(usable))];
      while (g == d.g || (g == G_T32 || g == G_T64) || g == G_NESTED);
      const Val v = gen_val(r, g, 20);
      a = guarded([&] { mg ? tup_set(*mg, d.tok, g, v) : tup_set(*fx, d.tok, g, v); return Val(); });
      want = d.coll ? unallowed : mismatch;
      break;
    }
    default: { // collection access of a plain field
      if (d.coll)
        return;
      a = guarded([&] { return Val(rw().collection(d.tok).begin() == rw().collection(d.tok).end() ? "e" : "n"); });
      want = required;
      break;
    }
    }
    log(strf("negative %s -> %s", d.name.c_str(), out_names[a.out]));
    REQUIRE(a.out == want, "negative-exception", "misuse of %s gave %s, expected %s", d.name.c_str(), a.str().c_str(), out_names[want]);
    REQUIRE(image_hash() == h, "negative-changed", "a rejected call changed the tuple");
  }

  void step() {
    std::vector<size_t> colls, plains;
    for (size_t i = 0; i < defs.size(); ++i)
      (defs[i].coll ? colls : plains).push_back(i);
    const unsigned w[] = {pf.w_set, pf.w_insert, pf.w_erase, pf.w_erase_it, pf.w_modify_it, pf.w_erase_range,
                          pf.w_optimize, pf.w_roundtrip, pf.w_reset, pf.w_negative, pf.w_clone, pf.w_move};
    unsigned total = 0;
    for (auto x : w)
      total += x;
    unsigned k = unsigned(r(total)), op = 0;
    while (k >= w[op])
      k -= w[op++];
    switch (op) {
    case 0: if (!plains.empty()) op_set(r.pick(plains)); break;
    case 1:
      if (!colls.empty()) {
        const size_t i = r.pick(colls);
        for (size_t n = pf.bulk ? 1 + r(pf.bulk) : 1; n > 0; --n)
          op_insert(i);
      }
      break;
    case 2: op_erase(r(defs.size())); break;
    case 3: if (!colls.empty()) op_erase_it(r.pick(colls)); break;
    case 4: if (!colls.empty()) op_modify_it(r.pick(colls)); break;
    case 5: if (!colls.empty()) op_erase_range(r.pick(colls)); break;
    case 6: op_optimize(); break;
    case 7: op_roundtrip(); break;
    case 8:
      log("reset");
      rw().reset();
      reset_model();
      count("ops_reset");
      break;
    case 9: op_negative(r(defs.size())); break;
    case 10: op_clone(); break;
    case 11: op_move(); break;
    }
  }
  void record() {
    if (!tape)
      return;
    const auto w = crw().take_weak_asis();
    tape->push_back(raw(w.data(), w.size()));
    // what only fills the space up to a whole unit is zeros
    const char *const base = static_cast<const char *>(w.data()), *const over = base + w.size();
    auto padding = [&](const char *p, const char *what) {
      const char *end = base + ((p - base) + 3) / 4 * 4;
      REQUIRE(p >= base && end <= over, "padding-outside", "%s", what);
      for (; p < end; ++p) {
        REQUIRE(*p == 0, "padding", "%s: byte %zu of %zu is 0x%02x", what, size_t(p - base), w.size(), unsigned(static_cast<unsigned char>(*p)));
        count("padding_bytes");
      }
    };
    if (layout.bytes)
      padding(base + 4 * (1 + size_t((static_cast<unsigned char>(base[2]) | static_cast<unsigned char>(base[3]) << 8) >> 3)) + layout.bytes, "preplaced fields");
    for (size_t i = 0; i < defs.size(); ++i) {
      const auto &d = defs[i];
      if (d.g != G_TEXT && d.g != G_VARBIN)
        continue;
      auto one = [&](const fptu::string_view &v) {
        if (v.size())
          padding(v.data() + v.size(), d.name.c_str());
      };
      if (!d.coll)
        one(vals[i].empty() ? fptu::string_view() : d.g == G_TEXT ? crw().get_string(d.tok) : crw().get_varbinary(d.tok));
      else
        for (auto f : rw().collection(d.tok))
          one(d.g == G_TEXT ? f.get_string() : f.get_varbinary());
    }
  }
  void run() {
    make_schema();
    if (defs.empty())
      return;
    make_tuple();
    observe();
    record();
    const size_t n = r.range(pf.ops_min, pf.ops_max);
    for (size_t i = 0; i < n; ++i) {
      step();
      observe();
      record();
    }
  }
};

} // namespace vt

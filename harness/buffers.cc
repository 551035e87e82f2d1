// Life cycle of managed buffers: counting allocators behind the public
// allocator interface watch every borrow/repay, a model of handles says which
// buffers must be alive, with which reference counts and which contents.
// Allocation failures are injected.
#include "fpt.h"
#include <unordered_map>
using namespace vt;

namespace {
struct Info {
  hippeus_allot_t *allot;
  size_t gross;
  uint64_t stamp;
};
std::unordered_map<const hippeus_buffer_t *, Info> live;
std::set<const hippeus_buffer_t *> parked; // repaid, kept poisoned for a while
std::vector<hippeus_buffer_t *> park_queue;
uint64_t borrows, repays, wrong_repays, stamp_counter;
int fault = -1; // the N-th borrow from now throws
bool fault_fired;
std::string trouble;

void maybe_fail() {
  if (fault == 0) {
    fault = -1;
    fault_fired = true;
    throw std::bad_alloc();
  }
  if (fault > 0)
    --fault;
}
hippeus_buffer_t *my_borrow(hippeus_allot_t *allot, std::size_t wanna, bool, hippeus_actor_t) {
  maybe_fail();
  const size_t space = (wanna + 7) & ~size_t(7);
  const size_t gross = space + hippeus::buffer_solid::space_overhead();
  void *p = malloc(gross);
  memset(p, 0xA5, gross);
  auto b = new (p) hippeus::buffer_solid(hippeus::buffer_tag(allot, false), gross);
  live[b] = Info{allot, gross, ++stamp_counter};
  ++borrows;
  return b;
}
void my_repay(hippeus_allot_t *allot, hippeus_buffer_t *b, hippeus_actor_t) {
  ++repays;
  auto it = live.find(b);
  if (it == live.end()) {
    trouble = "a buffer which is not borrowed was repaid";
    return;
  }
  if (it->second.allot != allot)
    trouble = "a buffer was repaid to a foreign allocator";
  memset(static_cast<void *>(b), 0x5A, it->second.gross);
  live.erase(it);
  free(b);
}
bool my_validate(const hippeus_allot_t *, bool, bool) { return true; }
hippeus_buffer_t *(*std_borrow)(hippeus_allot_t *, std::size_t, bool, hippeus_actor_t);
void (*std_repay)(hippeus_allot_t *, hippeus_buffer_t *, hippeus_actor_t);
hippeus_buffer_t *counted_borrow(hippeus_allot_t *allot, std::size_t wanna, bool leastwise, hippeus_actor_t actor) {
  maybe_fail();
  auto b = std_borrow(allot, wanna, leastwise, actor);
  live[b] = Info{allot, 0, ++stamp_counter};
  ++borrows;
  return b;
}
void counted_repay(hippeus_allot_t *allot, hippeus_buffer_t *b, hippeus_actor_t actor) {
  ++repays;
  auto it = live.find(b);
  if (it == live.end()) {
    trouble = "a buffer which is not borrowed was repaid (std)";
    return;
  }
  if (it->second.allot != allot)
    trouble = "a buffer was repaid to a foreign allocator (std)";
  live.erase(it);
  std_repay(allot, b, actor);
}
hippeus_allot_t allotA = {4096, 0, my_borrow, my_repay, my_validate};
hippeus_allot_t allotB = {4096, 0, my_borrow, my_repay, my_validate};
void hook_std() {
  static bool once = false;
  if (once)
    return;
  once = true;
  std_borrow = hippeus_allot_stdcxx.borrow;
  std_repay = hippeus_allot_stdcxx.repay;
  hippeus_allot_stdcxx.borrow = counted_borrow;
  hippeus_allot_stdcxx.repay = counted_repay;
}
hippeus_allot_t *const allots[3] = {&allotA, &allotB, &hippeus_allot_stdcxx};
hippeus::buffer_tag tag_of(unsigned a) { return hippeus::buffer_tag(allots[a], false); }

struct F {
  int g;
  bool preplaced;
  fptu::token tok;
};
struct Sch {
  std::unique_ptr<fptu::schema> s;
  std::vector<F> f;
  size_t loose_from;
};
Sch make_schema() {
  Sch x;
  x.s = fptu::schema::create();
  auto pre = [&](const char *n, int g) {
    x.f.push_back({g, true, x.s->define_preplaced(std::string(n), genus(g), false, false, nullptr)});
  };
  auto loose = [&](const char *n, int g) {
    x.f.push_back({g, false, x.s->define_loose(std::string(n), genus(g), false, true, false)});
  };
  pre("pa", G_U32);
  pre("pb", G_TEXT);
  pre("pc", G_U64);
  x.loose_from = 3;
  loose("la", G_TEXT);
  loose("lb", G_U64);
  loose("lc", G_VARBIN);
  loose("ld", G_NESTED);
  loose("le", G_U16);
  loose("lf", G_TEXT);
  loose("lg", G_NESTED);
  loose("lh", G_B256);
  return x;
}
enum Kind { RO, RWF, RWM };
const char *const kinds[] = {"ro", "rwf", "rwm"};
struct H {
  Kind kind;
  std::unique_ptr<fptu::tuple_ro_managed> ro;
  std::unique_ptr<fptu::tuple_rw_fixed> rwf;
  std::unique_ptr<fptu::tuple_rw_managed> rwm;
  bool hollow = false; // moved-from or purged
  const fptu::schema *schema = nullptr;
  std::map<size_t, Val> m; // field index -> value, absent if none
  Val bytes;               // for ro: exact bytes
  unsigned allot = 0;
  fptu::tuple_rw_fixed &rw() { return kind == RWF ? *rwf : *rwm; }
  const hippeus::buffer *buf() const {
    if (hollow)
      return nullptr;
    return kind == RO ? ro->get_buffer() : kind == RWF ? rwf->get_buffer() : rwm->get_buffer();
  }
};

struct Sim {
  rng &r;
  Sch s1 = make_schema(), s2 = make_schema();
  std::vector<std::unique_ptr<H>> hs;
  std::vector<Val> nested;
  Sim(rng &r) : r(r) {}
  const Sch &sch(const fptu::schema *p) { return p == s2.s.get() ? s2 : s1; }

  template <typename T> Res read(const T &t, const H &h, size_t i) {
    const F &f = sch(h.schema).f[i];
    return guarded([&] { return tup_get(t, f.tok, f.g); });
  }
  template <typename T> void check_content(const T &t, const H &h, const char *when, size_t n) {
    const Sch &s = sch(h.schema);
    for (size_t i = h.schema ? 0 : s.loose_from; i < s.f.size(); ++i) {
      const Res got = read(t, h, i);
      auto it = h.m.find(i);
      Res want;
      if (it == h.m.end())
        want.out = absent;
      else
        want.val = it->second;
      REQUIRE(got == want, "content", "%s: handle #%zu (%s) field %zu is %s instead of %s", when, n, kinds[h.kind], i, got.str().c_str(), want.str().c_str());
    }
  }
  void check(const char *when) {
    REQUIRE(trouble.empty(), "allocator", "%s: %s", when, trouble.c_str());
    std::map<const hippeus_buffer_t *, int> refs;
    for (size_t n = 0; n < hs.size(); ++n) {
      H &h = *hs[n];
      if (h.hollow) {
        if (h.kind == RO) {
          REQUIRE(!*h.ro && h.ro->get_buffer() == nullptr, "hollow", "%s: moved-from ro handle #%zu still holds something", when, n);
        } else
          REQUIRE(!h.rw(), "hollow", "%s: moved-from rw handle #%zu still holds something", when, n);
        continue;
      }
      const hippeus::buffer *b = h.buf();
      REQUIRE(b != nullptr, "buffer", "%s: handle #%zu has no buffer", when, n);
      auto it = live.find(b);
      REQUIRE(it != live.end(), "premature-repay", "%s: the buffer of handle #%zu (%s) isn't borrowed anymore", when, n, kinds[h.kind]);
      REQUIRE(it->second.allot == allots[h.allot], "wrong-allot", "%s: handle #%zu (%s) lives in a buffer of another allocator", when, n, kinds[h.kind]);
      REQUIRE(b->check(), "guards", "%s: the guards of the buffer of handle #%zu are damaged", when, n);
      refs[b]++;
      if (h.kind == RO) {
        REQUIRE(raw(h.ro->data(), h.ro->size()) == h.bytes, "ro-changed", "%s: bytes of read-only handle #%zu have been changed", when, n);
        REQUIRE(static_cast<const uint8_t *>(h.ro->data()) >= b->begin() && static_cast<const uint8_t *>(h.ro->data()) + h.ro->size() <= b->end(), "outside",
                "%s: handle #%zu is outside its buffer", when, n);
        check_content(*h.ro, h, when, n);
      } else {
        check_content(h.rw(), h, when, n);
      }
    }
    for (auto &x : live)
      REQUIRE(refs.count(x.first), "leak", "%s: a borrowed buffer (#%llu) is referenced by none of %zu handles", when, (unsigned long long)x.second.stamp, hs.size());
    for (auto &x : refs)
      REQUIRE(x.first->ref_counter == x.second, "refcount", "%s: reference counter is %d, but there are %d handles", when, int(x.first->ref_counter), x.second);
    count("buffers_seen_alive", live.size());
  }

  H *add(std::unique_ptr<H> h) {
    hs.push_back(std::move(h));
    return hs.back().get();
  }
  void seal(H &h) { // remember what a ro-handle shows
    h.bytes = raw(h.ro->data(), h.ro->size());
  }
  std::map<size_t, Val> initial(const fptu::schema *s) {
    std::map<size_t, Val> m;
    if (s) {
      m[0] = zero(G_U32);
      m[1] = Val();
      m[2] = zero(G_U64);
    }
    return m;
  }
  // content of a nested tuple as seen through the loose tokens
  std::map<size_t, Val> nested_model(const fptu::tuple_ro_weak &w) {
    std::map<size_t, Val> m;
    for (size_t i = s1.loose_from; i < s1.f.size(); ++i) {
      const Res x = guarded([&] { return tup_get(w, s1.f[i].tok, s1.f[i].g); });
      if (x.out == ok)
        m[i] = x.val;
    }
    return m;
  }
  void make_nested() {
    fault = -1;
    for (unsigned k = 0; k < 3; ++k) {
      fptu::tuple_rw_managed t(4, 64, nullptr, tag_of(0));
      for (unsigned j = 0, n = unsigned(1 + r(4)); j < n; ++j) {
        const size_t i = s1.loose_from + r(s1.f.size() - s1.loose_from);
        const F &f = s1.f[i];
        if (f.g == G_NESTED) {
          if (!nested.empty())
            tup_set(t, f.tok, f.g, nested[r(nested.size())]);
        } else
          tup_set(t, f.tok, f.g, gen_val(r, f.g, 40));
      }
      t.set_u16(s1.f[7].tok, uint16_t(1 + k));
      const auto w = t.take_weak_optimized().first;
      nested.push_back(raw(w.data(), w.size()));
    }
  }
  Val value(int g) {
    if (g == G_NESTED)
      return nested[r(nested.size())];
    return gen_val(r, g, r(8) ? 60 : 2000);
  }
  size_t pick(bool (*pred)(const H &)) {
    std::vector<size_t> v;
    for (size_t i = 0; i < hs.size(); ++i)
      if (!hs[i]->hollow && pred(*hs[i]))
        v.push_back(i);
    return v.empty() ? size_t(-1) : v[r(v.size())];
  }

  // runs an operation which may fail for lack of memory only if the fault fires;
  // returns whether it succeeded
  template <typename FN> bool attempt(const char *what, FN &&fn) {
    fault_fired = false;
    fault = r.chance(20) ? int(r(3)) : -1;
    try {
      fn();
    } catch (const fptu::insufficient_space &) {
      const bool fired = fault_fired;
      fault = -1;
      REQUIRE(!fired, "fault-disguised", "%s: an allocation failure became insufficient_space", what);
      throw;
    } catch (const std::bad_alloc &) {
      const bool fired = fault_fired;
      fault = -1;
      REQUIRE(fired, "bad-alloc", "%s: std::bad_alloc out of nothing", what);
      count("faults_injected");
      log(strf("%s: allocation failed", what));
      return false;
    } catch (...) {
      const bool fired = fault_fired;
      fault = -1;
      REQUIRE(!fired, "fault-disguised", "%s: an allocation failure became another exception", what);
      throw;
    }
    fault = -1;
    REQUIRE(!fault_fired, "fault-swallowed", "%s: an allocation failure vanished", what);
    return true;
  }
  const fptu::schema *some_schema() {
    switch (r(3)) {
    case 0: return nullptr;
    case 1: return s1.s.get();
    default: return s2.s.get();
    }
  }
  void wrap_rw(H &h, fptu::tuple_rw_fixed &&t) {
    if (h.kind == RWF)
      h.rwf.reset(new fptu::tuple_rw_fixed(std::move(t)));
    else
      h.rwm.reset(new fptu::tuple_rw_managed(std::move(t)));
  }
  std::unique_ptr<H> fresh(Kind k, const H *like, unsigned allot, const fptu::schema *s) {
    std::unique_ptr<H> h(new H);
    h->kind = k;
    h->allot = allot;
    h->schema = s;
    if (like)
      h->m = like->m;
    return h;
  }

  void step() {
    auto any = [](const H &) { return true; };
    auto is_ro = [](const H &h) { return h.kind == RO; };
    auto is_rw = [](const H &h) { return h.kind != RO; };
    const unsigned a = unsigned(r(3));
    if (hs.size() < 2 || (hs.size() < 12 && r.chance(12))) { // create
      const auto s = some_schema();
      auto h = fresh(r(2) ? RWF : RWM, nullptr, a, s);
      h->m = initial(s);
      log(strf("create %s allot=%u schema=%d", kinds[h->kind], a, s == nullptr ? 0 : s == s1.s.get() ? 1 : 2));
      if (attempt("create", [&] {
            const size_t items = r(12), data = r(4) ? r(400) : r(5000);
            if (h->kind == RWF)
              h->rwf.reset(new fptu::tuple_rw_fixed(items, data, s, tag_of(a)));
            else
              h->rwm.reset(new fptu::tuple_rw_managed(items, data, s, tag_of(a)));
          }))
        add(std::move(h));
      return;
    }
    switch (r(20)) {
    case 0: case 1: case 2: case 3: case 4: case 5: { // modify
      const size_t n = pick(is_rw);
      if (n == size_t(-1))
        return;
      H &h = *hs[n];
      const Sch &s = sch(h.schema);
      const size_t i = h.schema ? r(s.f.size()) : s.loose_from + r(s.f.size() - s.loose_from);
      const F &f = s.f[i];
      if (r.chance(15)) {
        log(strf("#%zu erase %zu", n, i));
        try {
          if (attempt("erase", [&] {
                if (h.kind == RWF)
                  h.rwf->erase(f.tok);
                else
                  h.rwm->erase(f.tok);
              })) {
            h.m.erase(i);
            if (f.preplaced)
              h.m[i] = initial(h.schema)[i];
          }
        } catch (const fptu::insufficient_space &) { // erasing may need an index slot for the hole
          REQUIRE(h.kind == RWF, "space", "the autogrowing tuple #%zu complains of space", n);
        }
        return;
      }
      const Val v = value(f.g);
      log(strf("#%zu set %zu (%zu bytes)", n, i, v.size()));
      try {
        if (attempt("set", [&] {
              if (h.kind == RWF)
                tup_set(*h.rwf, f.tok, f.g, v);
              else
                tup_set(*h.rwm, f.tok, f.g, v);
            }))
          h.m[i] = v;
        count("ops_set");
      } catch (const fptu::insufficient_space &) {
        REQUIRE(h.kind == RWF, "space", "the autogrowing tuple #%zu complains of space", n);
        count("ops_set_no_space");
      }
      return;
    }
    case 6: { // optimize
      const size_t n = pick(is_rw);
      if (n != size_t(-1)) {
        log(strf("#%zu optimize", n));
        hs[n]->rw().optimize();
      }
      return;
    }
    case 7: { // purge/destroy
      const size_t n = pick(any);
      if (n == size_t(-1))
        return;
      H &h = *hs[n];
      log(strf("#%zu %s drop", n, kinds[h.kind]));
      if (r(2)) {
        if (h.kind == RO)
          h.ro->purge();
        else
          h.rw().purge();
        h.hollow = true;
      } else
        hs.erase(hs.begin() + ptrdiff_t(n));
      return;
    }
    case 8: { // forget a hollow one
      for (size_t n = 0; n < hs.size(); ++n)
        if (hs[n]->hollow) {
          hs.erase(hs.begin() + ptrdiff_t(n));
          return;
        }
      return;
    }
    case 9: { // rw -> ro by moving
      const size_t n = pick(is_rw);
      if (n == size_t(-1))
        return;
      H &h = *hs[n];
      auto x = fresh(RO, &h, h.allot, h.schema);
      const unsigned how = unsigned(r(3));
      log(strf("#%zu move to ro (%u)", n, how));
      const auto was = borrows;
      if (how == 0)
        x->ro.reset(new fptu::tuple_ro_managed(std::move(h.rw())));
      else if (how == 1) {
        x->ro.reset(new fptu::tuple_ro_managed());
        *x->ro = std::move(h.rw());
      } else
        x->ro.reset(new fptu::tuple_ro_managed(h.rw().move_to_ro(r(2) != 0)));
      REQUIRE(was == borrows, "move-copies", "moving a writable tuple into a read-only one allocates");
      h.hollow = true;
      seal(*x);
      add(std::move(x));
      count("ops_rw2ro");
      return;
    }
    case 10: case 11: { // ro -> rw by moving
      const size_t n = pick(is_ro);
      if (n == size_t(-1))
        return;
      H &h = *hs[n];
      const bool preplaced = h.ro->have_preplaced();
      auto x = fresh(r(2) ? RWF : RWM, &h, h.allot, preplaced ? h.schema : h.schema);
      const bool sole = h.buf()->ref_counter == 1;
      log(strf("#%zu move to %s (refs %d)", n, kinds[x->kind], int(h.buf()->ref_counter)));
      const auto was = borrows;
      if (attempt("ro2rw", [&] {
            if (r(3) == 0) { // assign over an existing one
              fptu::tuple_rw_fixed t(1, 10, nullptr, tag_of(a));
              t = std::move(*h.ro);
              wrap_rw(*x, std::move(t));
            } else if (x->kind == RWF)
              x->rwf.reset(new fptu::tuple_rw_fixed(std::move(*h.ro)));
            else
              x->rwm.reset(new fptu::tuple_rw_managed(std::move(*h.ro)));
          })) {
        (void)sole, (void)was;
        h.hollow = true;
        h.ro->purge();
        // a view of nested data has no schema at all
        x->schema = x->rw().schema();
        REQUIRE(!preplaced || x->schema == h.schema, "schema-lost", "the schema was lost on moving a read-only tuple into a writable one");
        add(std::move(x));
        count("ops_ro2rw");
      }
      return;
    }
    case 12: { // copy ro: shares
      const size_t n = pick(is_ro);
      if (n == size_t(-1))
        return;
      H &h = *hs[n];
      const unsigned how = unsigned(r(3));
      log(strf("#%zu copy ro (%u)", n, how));
      const auto was = borrows;
      if (r.chance(1)) { // a crowd of owners, all but the present ones leave
        const size_t many = r.chance(30) ? 65530 + r(20) : 1 + r(1000);
        std::vector<fptu::tuple_ro_managed> crowd(many, *h.ro);
        while (!crowd.empty() && r.chance(80)) {
          std::swap(crowd[r(crowd.size())], crowd.back());
          crowd.pop_back();
        }
        count("crowds");
      } else if (how == 0) {
        auto x = fresh(RO, &h, h.allot, h.schema);
        x->ro.reset(new fptu::tuple_ro_managed(*h.ro));
        x->bytes = h.bytes;
        add(std::move(x));
      } else { // assign over another one
        std::vector<size_t> v;
        for (size_t i = 0; i < hs.size(); ++i)
          if (hs[i]->kind == RO && (how == 1 || i != n))
            v.push_back(i);
        if (v.empty())
          return;
        const size_t k = v[r(v.size())];
        H &d = *hs[k];
        if (how == 1) {
          log(strf("  -> #%zu = #%zu", k, n));
          *d.ro = *h.ro;
          if (k != n) {
            d.m = h.m, d.bytes = h.bytes, d.allot = h.allot, d.schema = h.schema, d.hollow = false;
          }
        } else {
          log(strf("  -> #%zu = move(#%zu)", k, n));
          *d.ro = std::move(*h.ro);
          d.m = h.m, d.bytes = h.bytes, d.allot = h.allot, d.schema = h.schema, d.hollow = false;
          h.hollow = true;
        }
      }
      REQUIRE(was == borrows, "copy-copies", "sharing a read-only tuple allocates");
      count("ops_share");
      return;
    }
    case 13: { // swap / move rw
      const size_t n = pick(is_rw);
      if (n == size_t(-1))
        return;
      H &h = *hs[n];
      const size_t k = r(hs.size());
      H &d = *hs[k];
      if (d.kind != h.kind)
        return;
      if (r(2)) {
        log(strf("swap #%zu #%zu", n, k));
        h.rw().swap(d.rw());
        std::swap(h.m, d.m), std::swap(h.allot, d.allot), std::swap(h.schema, d.schema), std::swap(h.hollow, d.hollow);
      } else {
        log(strf("#%zu = move(#%zu)", k, n));
        if (h.kind == RWF)
          *d.rwf = std::move(*h.rwf);
        else
          *d.rwm = std::move(*h.rwm);
        if (k != n) {
          d.m = h.m, d.allot = h.allot, d.schema = h.schema, d.hollow = false;
          h.hollow = true;
        }
      }
      return;
    }
    case 14: { // nested view shares the buffer of its master
      const size_t n = pick(is_ro);
      if (n == size_t(-1))
        return;
      H &h = *hs[n];
      std::vector<size_t> v;
      for (auto &x : h.m)
        if (sch(h.schema).f[x.first].g == G_NESTED && x.second.size() > 4)
          v.push_back(x.first);
      if (v.empty())
        return;
      const size_t i = v[r(v.size())];
      log(strf("#%zu nested view of %zu", n, i));
      auto x = fresh(RO, nullptr, h.allot, nullptr);
      const auto was = borrows;
      const auto tok = sch(h.schema).f[i].tok;
      if (r(2))
        x->ro.reset(new fptu::tuple_ro_managed(h.ro->get_nested_managed(tok)));
      else
        x->ro.reset(new fptu::tuple_ro_managed(h.ro->get_nested_weak(tok), *h.ro));
      REQUIRE(was == borrows, "nested-copies", "taking a nested view allocates");
      x->bytes = h.m[i];
      nested_holder hold(x->bytes);
      x->m = nested_model(hold.weak);
      if (hs.size() < 14)
        add(std::move(x));
      else
        *h.ro = *x->ro, h.m = x->m, h.bytes = x->bytes, h.schema = nullptr;
      count("ops_nested_view");
      return;
    }
    case 15: case 16: { // clone anything into a writable one
      const size_t n = pick(any);
      if (n == size_t(-1))
        return;
      H &h = *hs[n];
      auto x = fresh(r(2) ? RWF : RWM, &h, a, h.schema);
      const size_t mi = r(6), md = r(200);
      const unsigned how = unsigned(r(3));
      log(strf("#%zu (%s) clone to %s allot=%u how=%u", n, kinds[h.kind], kinds[x->kind], a, how));
      if (attempt("clone-rw", [&] {
            if (h.kind != RO) {
              if (how == 0)
                wrap_rw(*x, fptu::tuple_rw_fixed::clone(h.rw(), mi, md, tag_of(a)));
              else if (how == 1)
                wrap_rw(*x, fptu::tuple_rw_fixed::clone(h.rw(), tag_of(a)));
              else
                wrap_rw(*x, fptu::tuple_rw_fixed::clone(h.rw().take_weak_asis(), mi, md, h.schema, tag_of(a)));
            } else {
              if (how == 0)
                wrap_rw(*x, fptu::tuple_rw_fixed::clone(*h.ro, mi, md, h.schema, tag_of(a)));
              else if (how == 1)
                wrap_rw(*x, fptu::tuple_rw_fixed::clone(h.ro->take_weak(), mi, md, h.schema, tag_of(a)));
              else
                wrap_rw(*x, fptu::tuple_rw_fixed(h.ro->data(), h.ro->size(), mi, md, h.schema, tag_of(a)));
            }
          })) {
        if (hs.size() < 14)
          add(std::move(x));
        count("ops_clone_rw");
      }
      return;
    }
    default: { // clone anything into a read-only one
      const size_t n = pick(any);
      if (n == size_t(-1))
        return;
      H &h = *hs[n];
      auto x = fresh(RO, &h, a, h.schema);
      const unsigned how = unsigned(r(3));
      log(strf("#%zu (%s) clone to ro allot=%u how=%u", n, kinds[h.kind], a, how));
      if (attempt("clone-ro", [&] {
            if (h.kind != RO) {
              if (how == 0)
                x->ro.reset(new fptu::tuple_ro_managed(h.rw().take_managed_clone_asis(false, tag_of(a))));
              else if (how == 1)
                x->ro.reset(new fptu::tuple_ro_managed(fptu::tuple_ro_managed::clone(h.rw(), tag_of(a))));
              else
                x->ro.reset(new fptu::tuple_ro_managed(h.rw().take_managed_clone(r(2) != 0, false, tag_of(a)).first));
            } else {
              if (how == 0)
                x->ro.reset(new fptu::tuple_ro_managed(fptu::tuple_ro_managed::clone(*h.ro, h.schema, tag_of(a))));
              else if (how == 1)
                x->ro.reset(new fptu::tuple_ro_managed(fptu::tuple_ro_managed::clone(h.ro->take_weak(), h.schema, tag_of(a))));
              else
                x->ro.reset(new fptu::tuple_ro_managed(h.ro->data(), h.ro->size(), h.schema, tag_of(a)));
            }
          })) {
        seal(*x);
        if (hs.size() < 14)
          add(std::move(x));
        count("ops_clone_ro");
      }
      return;
    }
    }
  }
};

void life_case(rng &r, uint64_t) {
  hook_std();
  borrows = repays = 0;
  trouble.clear();
  live.clear();
  {
    Sim s(r);
    s.make_nested();
    s.check("start");
    for (unsigned k = 0, n = unsigned(20 + r(60)); k < n; ++k) {
      s.step();
      s.check(ctx().trace.empty() ? "?" : ctx().trace.back().c_str());
      uint64_t h = s.hs.size() * 131 + live.size();
      for (auto &x : s.hs)
        h = h * 31 + unsigned(x->kind) * 7 + (x->hollow ? 3 : 0) + (x->hollow ? 0 : uint64_t(x->buf()->ref_counter) * 1009 + x->m.size() * 65537);
      state(h);
    }
    while (!s.hs.empty()) {
      s.hs.erase(s.hs.begin() + ptrdiff_t(r(s.hs.size())));
      s.check("destruction");
    }
  }
  REQUIRE(live.empty() && borrows == repays && trouble.empty(), "final-balance", "%llu borrowed, %llu repaid, %zu still alive %s", (unsigned long long)borrows, (unsigned long long)repays, live.size(),
          trouble.c_str());
  count("borrows", borrows);
}
} // namespace

int main(int argc, char **argv) {
  std::map<std::string, case_fn> s;
  s["life"] = life_case;
  return run_main(argc, argv, s);
}

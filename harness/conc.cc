// Threads sharing read-only tuples, buffers and a schema; monitors: ThreadSanitizer,
// a counting allocator with poisoning, content checks in every thread.
#include "fpt.h"
#include "fast_positive/tuples/legacy.h"
#include <atomic>
#include <mutex>
#include <thread>
using namespace vt;

namespace {
std::atomic<long> alive, borrows, repays;
std::atomic<bool> broken;
std::atomic<uint64_t> jitter_seed;
thread_local uint64_t tls_jitter = 0;
void jitter(unsigned one_of) {
  if (!tls_jitter)
    tls_jitter = jitter_seed.fetch_add(0x9E3779B97F4A7C15ull) | 1;
  tls_jitter = rng::mix(tls_jitter + 1) | 1;
  if (tls_jitter / 2 % one_of == 0)
    std::this_thread::yield();
}
constexpr uint32_t ALIVE = 0x600DB0F5, DEAD = 0xDEADB0F5;
struct Tag { // precedes every buffer
  std::atomic<uint32_t> mark;
  size_t gross;
  char pad[64 - sizeof(std::atomic<uint32_t>) - sizeof(size_t)];
};
hippeus_buffer_t *c_borrow(hippeus_allot_t *allot, std::size_t wanna, bool, hippeus_actor_t) {
  jitter(3);
  const size_t gross = ((wanna + 7) & ~size_t(7)) + hippeus::buffer_solid::space_overhead();
  char *p = static_cast<char *>(malloc(gross + sizeof(Tag)));
  auto t = new (p) Tag;
  t->mark = ALIVE;
  t->gross = gross;
  ++alive, ++borrows;
  return new (p + sizeof(Tag)) hippeus::buffer_solid(hippeus::buffer_tag(allot, false), gross);
}
void c_repay(hippeus_allot_t *, hippeus_buffer_t *b, hippeus_actor_t) {
  jitter(3);
  Tag *t = reinterpret_cast<Tag *>(reinterpret_cast<char *>(b) - sizeof(Tag));
  uint32_t expected = ALIVE;
  if (!t->mark.compare_exchange_strong(expected, DEAD))
    violation("repaid-twice", strf("a buffer was repaid with the mark %08x", expected));
  memset(static_cast<void *>(b), 0x5A, t->gross); // whoever still reads it, will notice (and TSan too)
  --alive, ++repays;
  free(t);
}
bool c_validate(const hippeus_allot_t *, bool, bool) { return true; }
hippeus_allot_t allot = {4096, 0, c_borrow, c_repay, c_validate};
hippeus::buffer_tag tag() { return hippeus::buffer_tag(&allot, false); }

struct F {
  int g;
  bool pre;
  std::string name;
  fptu::token tok;
};
using Model = std::map<size_t, Val>;
struct Shared { // what threads exchange: always by a copy or a move under the lock of the slot
  std::mutex lock;
  fptu::tuple_ro_managed tuple;
  std::shared_ptr<const Model> model;
};
struct Env {
  std::unique_ptr<fptu::schema> schema;
  std::vector<F> f;
  Val nested;
  std::vector<Shared> slots{6};
  // a tuple copied by all threads with no lock at all: copying only reads it
  fptu::tuple_ro_managed common;
  std::shared_ptr<const Model> common_model;
};
struct Stat {
  uint64_t ops = 0, checks = 0, handovers = 0, conversions = 0, inplace = 0, nested = 0, lookups = 0, legacy = 0;
  uint64_t trail = 0;
};

template <typename T> void verify(const Env &e, const T &t, const Model &m, Stat &st, const char *where) {
  for (size_t i = 0; i < e.f.size(); ++i) {
    const Res got = guarded([&] { return tup_get(t, e.f[i].tok, e.f[i].g); });
    Res want;
    auto it = m.find(i);
    if (it == m.end())
      want.out = absent;
    else
      want.val = it->second;
    ++st.checks;
    if (!(got == want))
      violation("concurrent-content", strf("%s: field %zu is %s instead of %s", where, i, got.str().c_str(), want.str().c_str()));
  }
}
fptu::tuple_rw_managed build(const Env &e, rng &r, Model &m) {
  fptu::tuple_rw_managed t(r(8), r(300), e.schema.get(), tag());
  m.clear();
  for (size_t i = 0; i < e.f.size(); ++i) {
    if (e.f[i].pre)
      m[i] = zero(e.f[i].g);
    if (r(3)) {
      const Val v = e.f[i].g == G_NESTED ? e.nested : gen_val(r, e.f[i].g, 50);
      tup_set(t, e.f[i].tok, e.f[i].g, v);
      m[i] = v;
    }
  }
  return t;
}

void legacy_round(rng &r, Stat &st) {
  ++st.legacy;
  alignas(8) char space[256];
  fptu_rw *pt = fptu_init(space, sizeof(space), 4);
  if (!pt)
    violation("legacy", "fptu_init failed");
  const uint32_t a = uint32_t(r.next());
  fptu_clear_error();
  if (fptu_upsert_uint32(pt, 1, a) != FPTU_OK || fptu_last_error_code() != FPTU_OK)
    violation("legacy-error", "upsert failed");
  int err = 0;
  const uint32_t got = fptu_get_uint32(fptu_take_noshrink(pt), 1, &err);
  if (got != a || err != FPTU_OK)
    violation("legacy-value", "another value");
  // make errors of several kinds: the state is per thread
  const char *msg_before = fptu_last_error_msg();
  (void)msg_before;
  err = fptu_update_uint64(pt, unsigned(2 + r(5)), 42);
  jitter(2);
  if (err != FPTU_ENOFIELD || fptu_last_error_code() != FPTU_ENOFIELD)
    violation("legacy-error", strf("error %d/%d instead of ENOFIELD", err, fptu_last_error_code()));
  Val big(1 + r(200) + 300, 'x');
  const int rc = fptu_upsert_string(pt, 3, big.data(), big.size());
  jitter(2);
  if (rc != FPTU_ENOSPACE || fptu_last_error_code() != FPTU_ENOSPACE)
    violation("legacy-error", strf("error %d/%d instead of ENOSPACE", rc, fptu_last_error_code()));
  char name[40];
  const int odd = int(0x700000 + r(1000));
  snprintf(name, sizeof(name), "invalid(fptu_type)%i", odd);
  const char *const shown = fptu_type_name(fptu_type(odd));
  jitter(2);
  if (strncmp(shown, name, 31) != 0)
    violation("legacy-type-name", strf("%s instead of %s", shown, name));
  const Val txt = gen_bytes(r, 3 + 4 * r(3));
  if (fptu_upsert_string(pt, 2, txt.data(), txt.size()) == FPTU_OK && txt.find('\0') == Val::npos) {
    const char *const c = fptu_get_cstr(fptu_take_noshrink(pt), 2, &err);
    jitter(2);
    if (txt != c)
      violation("legacy-cstr", "another string");
  }
}

void worker(Env &e, uint64_t seed, unsigned rounds, Stat &st) {
  rng r(seed);
  std::vector<std::pair<fptu::tuple_ro_managed, std::shared_ptr<const Model>>> own;
  for (unsigned k = 0; k < rounds; ++k) {
    ++st.ops;
    const unsigned op = unsigned(r(12));
    st.trail = st.trail * 13 + op;
    switch (op) {
    case 0: case 1: { // copy the common one
      own.emplace_back(e.common, e.common_model);
      break;
    }
    case 2: { // publish a new one
      std::shared_ptr<Model> m(new Model);
      fptu::tuple_ro_managed t(build(e, r, *m));
      Shared &s = e.slots[r(e.slots.size())];
      std::unique_lock<std::mutex> guard(s.lock);
      s.tuple.swap(t);
      s.model = m;
      guard.unlock(); // the former one is dropped without the lock
      break;
    }
    case 3: case 4: { // take a copy
      Shared &s = e.slots[r(e.slots.size())];
      std::lock_guard<std::mutex> guard(s.lock);
      if (s.tuple) {
        own.emplace_back(s.tuple, s.model);
        ++st.handovers;
      }
      break;
    }
    case 5: { // take it away
      Shared &s = e.slots[r(e.slots.size())];
      std::lock_guard<std::mutex> guard(s.lock);
      if (s.tuple) {
        own.emplace_back(std::move(s.tuple), s.model);
        ++st.handovers;
      }
      break;
    }
    case 6: { // drop
      if (!own.empty()) {
        std::swap(own[r(own.size())], own.back());
        jitter(2);
        own.pop_back();
      }
      break;
    }
    case 7: case 8: { // convert to a writable one, modify, publish
      if (own.empty())
        break;
      std::swap(own[r(own.size())], own.back());
      auto x = std::move(own.back());
      own.pop_back();
      const hippeus::buffer *const b = x.first.get_buffer();
      const Model before = *x.second;
      fptu::tuple_rw_managed t(std::move(x.first));
      st.inplace += t.get_buffer() == b;
      ++st.conversions;
      verify(e, t, before, st, "converted");
      std::shared_ptr<Model> m(new Model(before));
      for (unsigned j = 0; j < 3; ++j) {
        const size_t i = r(e.f.size());
        const Val v = e.f[i].g == G_NESTED ? e.nested : gen_val(r, e.f[i].g, 50);
        tup_set(t, e.f[i].tok, e.f[i].g, v);
        (*m)[i] = v;
      }
      verify(e, t, *m, st, "modified");
      fptu::tuple_ro_managed ro(std::move(t));
      Shared &s = e.slots[r(e.slots.size())];
      std::lock_guard<std::mutex> guard(s.lock);
      s.tuple = std::move(ro);
      s.model = m;
      break;
    }
    case 9: { // nested views share the buffer
      if (own.empty())
        break;
      auto &x = own[r(own.size())];
      for (size_t i = 0; i < e.f.size(); ++i)
        if (e.f[i].g == G_NESTED && x.second->count(i)) {
          fptu::tuple_ro_managed v = x.first.get_nested_managed(e.f[i].tok);
          if (r(3) == 0)
            x.first.purge();
          jitter(2);
          ++st.checks;
          if (raw(v.data(), v.size()) != e.nested)
            violation("concurrent-nested", "another nested tuple");
          if (!x.first) {
            std::swap(x, own.back());
            own.pop_back();
          }
          ++st.nested;
          break;
        }
      break;
    }
    case 10: { // the schema is only read
      for (size_t i = 0; i < e.f.size(); ++i) {
        ++st.lookups;
        const fptu::token t = e.schema->get_token(fptu::string_view(e.f[i].name.data(), e.f[i].name.size()));
        const auto n = e.schema->get_name(e.f[i].tok);
        if (!(t == e.f[i].tok) || Val(n.data(), n.size()) != e.f[i].name)
          violation("concurrent-schema", "lookup gives something else");
      }
      break;
    }
    default:
      legacy_round(r, st);
    }
    if (own.size() > 6)
      own.erase(own.begin());
    if (!own.empty() && r(2)) {
      auto &x = own[r(own.size())];
      verify(e, x.first, *x.second, st, "shared");
      if (x.first.validate(e.schema.get(), false))
        violation("concurrent-valid", "a shared tuple isn't valid");
    }
  }
}

void threads_case(rng &r, uint64_t) {
  alive = 0;
  borrows = repays = 0;
  jitter_seed = r.next();
  Stat total;
  unsigned nthreads = unsigned(2 + r(5));
  {
    Env e;
    e.schema = fptu::schema::create();
    static const int gs[] = {G_U32, G_TEXT, G_U64, G_TEXT, G_U64, G_NESTED, G_VARBIN, G_U16, G_B160};
    for (size_t i = 0; i < std::size(gs); ++i) {
      const bool pre = i < 3;
      const std::string nm = strf("field%zu", i);
      e.f.push_back({gs[i], pre, nm,
                     pre ? e.schema->define_preplaced(std::string(nm), genus(gs[i]), false, false, nullptr) : e.schema->define_loose(std::string(nm), genus(gs[i]), false, true, false)});
    }
    {
      fptu::tuple_rw_managed n(2, 64, nullptr, tag());
      n.set_u64(e.f[4].tok, 42);
      n.set_string(e.f[3].tok, fptu::string_view("nested", 6));
      const auto w = n.take_weak_asis();
      e.nested = raw(w.data(), w.size());
    }
    std::shared_ptr<Model> m(new Model);
    e.common = fptu::tuple_ro_managed(build(e, r, *m));
    e.common_model = m;
    std::vector<std::thread> th;
    std::vector<Stat> st(nthreads);
    const unsigned rounds = unsigned(60 + r(120));
    for (unsigned i = 0; i < nthreads; ++i) {
      const uint64_t seed = r.next();
      th.emplace_back([&e, &st, i, seed, rounds] { worker(e, seed, rounds, st[i]); });
    }
    for (auto &t : th)
      t.join();
    for (auto &s : st) {
      total.ops += s.ops, total.checks += s.checks, total.handovers += s.handovers, total.conversions += s.conversions, total.inplace += s.inplace, total.nested += s.nested,
          total.lookups += s.lookups, total.legacy += s.legacy;
      state(rng::mix(s.trail));
    }
    verify(e, e.common, *e.common_model, total, "at the end");
    REQUIRE(e.common.get_buffer()->ref_counter == 1, "refcount", "%d references left instead of 1", int(e.common.get_buffer()->ref_counter));
  }
  REQUIRE(alive == 0 && borrows == repays, "final-balance", "%ld borrowed, %ld repaid", borrows.load(), repays.load());
  log(strf("%u threads, %llu operations", nthreads, (unsigned long long)total.ops));
  count("thread_ops", total.ops);
  count("oracle_checks", total.checks);
  count("handovers", total.handovers);
  count("conversions_to_rw", total.conversions);
  count("conversions_in_place", total.inplace);
  count("nested_views", total.nested);
  count("schema_lookups", total.lookups);
  count("legacy_rounds", total.legacy);
  count("buffers", uint64_t(borrows.load()));
}
} // namespace

int main(int argc, char **argv) {
  std::map<std::string, case_fn> s;
  s["threads"] = threads_case;
  return run_main(argc, argv, s);
}

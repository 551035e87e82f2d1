// Out of memory at any allocation: malloc itself is interposed, the N-th
// allocation made inside a library call fails. The call must either succeed or
// throw std::bad_alloc with the content kept; nothing may leak.
#include "fpt.h"
#include "fast_positive/tuples/legacy.h"
#include <dlfcn.h>
#include <malloc.h>
using namespace vt;

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}
namespace {
thread_local int armed = -1; // fails when reaches zero
thread_local bool inside, fired;
constexpr size_t slots = 1 << 16;
void *table[slots]; // blocks allocated inside of library calls
size_t live, total;
size_t home(const void *p) { return size_t(rng::mix(uintptr_t(p))) % slots; }
void enlist(void *p) {
  if (!p)
    return;
  ++live, ++total;
  size_t i = home(p);
  while (table[i])
    i = (i + 1) % slots;
  table[i] = p;
}
bool delist(void *p) {
  size_t i = home(p);
  while (table[i] && table[i] != p)
    i = (i + 1) % slots;
  if (!table[i])
    return false;
  --live;
  for (size_t j = i;;) { // backward shift
    table[i] = nullptr;
    for (;;) {
      j = (j + 1) % slots;
      if (!table[j])
        return true;
      const size_t h = home(table[j]);
      if (i <= j ? (i < h && h <= j) : (i < h || h <= j))
        continue;
      break;
    }
    table[i] = table[j];
    i = j;
  }
}
bool fail() {
  if (!inside || armed < 0)
    return false;
  if (armed-- > 0)
    return false;
  fired = true;
  return true;
}
} // namespace
extern "C" {
void *malloc(size_t n) {
  if (fail())
    return nullptr;
  void *p = __libc_malloc(n);
  if (inside)
    enlist(p);
  return p;
}
void *calloc(size_t n, size_t m) {
  if (fail())
    return nullptr;
  void *p = __libc_calloc(n, m);
  if (inside)
    enlist(p);
  return p;
}
void *realloc(void *old, size_t n) {
  if (fail())
    return nullptr;
  const bool tracked = old && live && delist(old);
  void *p = __libc_realloc(old, n);
  if (tracked || inside)
    enlist(p);
  return p;
}
void free(void *p) {
  if (p && live)
    delist(p);
  __libc_free(p);
}
}

namespace {
enum { DONE, NOMEM };
// runs the library call with the given allocation failing
template <typename F> int call(const char *what, int nth, F &&f) {
  log(strf("%s nth=%d", what, nth));
  armed = nth, fired = false, inside = true;
  int rc = DONE;
  std::string other;
  try {
    f();
    inside = false;
  } catch (const fptu::insufficient_space &) {
    inside = false;
    armed = -1;
    other = "insufficient space";
  } catch (const std::bad_alloc &) {
    inside = false;
    rc = NOMEM;
  } catch (const std::exception &e) {
    inside = false;
    armed = -1;
    other = e.what();
  }
  armed = -1;
  REQUIRE(other.empty(), "nomem-exception", "%s: %s", what, other.c_str());
  REQUIRE(rc == DONE || fired, "nomem-spurious", "%s is out of memory although nothing failed", what);
  if (rc == NOMEM)
    count("nomem_refused");
  if (fired && rc == DONE)
    count("nomem_survived");
  if (!fired)
    count("nomem_plain");
  return rc;
}

typedef std::map<unsigned, std::string> Map;
fptu::token text(unsigned i) { return fptu::token(fptu::genus::text, i, false, true, false); }
template <typename T> void compare(const T &t, const Map &m, const char *how) {
  size_t n = 0;
  for (unsigned i = 0; i < 12; ++i) {
    auto it = m.find(i);
    REQUIRE(t.is_present(text(i)) == (it != m.end()), "nomem-content", "%s: presence of %u", how, i);
    if (it != m.end()) {
      const auto v = t.get_string(text(i));
      REQUIRE(v.size() == it->second.size() && !memcmp(v.data(), it->second.data(), v.size()), "nomem-content", "%s: value of %u", how, i);
      ++n;
    }
  }
  REQUIRE(n == m.size(), "nomem-content", "%s", how);
}

void nomem_case(rng &r, uint64_t) {
  REQUIRE(live == 0, "nomem-leak", "%zu blocks are left by the previous history", live);
  {
    std::unique_ptr<fptu::tuple_rw_managed> t;
    Map m;
    auto tag = [&] { return r.chance(50) ? hippeus::buffer_tag() : fptu::defaults::allot_tag; };
    auto nth = [&] { return r.chance(15) ? -1 : r.chance(60) ? 0 : int(r(4)); };
    std::vector<uint32_t> image;
    auto create = [&] {
      const auto tg = tag();
      const size_t items = r(10), bytes = r(200);
      alignas(fptu::tuple_rw_managed) static char place[sizeof(fptu::tuple_rw_managed)];
      t.reset();
      fptu::tuple_rw_managed *p = nullptr;
      int rc = call("create", nth(), [&] { p = new (place) fptu::tuple_rw_managed(items, bytes, nullptr, tg); });
      if (rc == NOMEM) {
        p = new (place) fptu::tuple_rw_managed(items, bytes, nullptr, tg);
      }
      REQUIRE(bool(*p), "nomem-hollow", "a created tuple is hollow");
      t.reset(new fptu::tuple_rw_managed(std::move(*p)));
      p->~tuple_rw_managed();
      m.clear();
    };
    create();
    for (int step = int(5 + r(40)); step; --step) {
      switch (r(9)) {
      case 0: case 1: case 2: case 3: {
        const unsigned i = unsigned(r(12));
        const std::string v(1 + r(r.chance(20) ? 3000 : 60), char('a' + r(26)));
        if (call("set", nth(), [&] { t->set_string(text(i), fptu::string_view(v.data(), v.size())); }) == DONE)
          m[i] = v;
        break;
      }
      case 4: {
        const unsigned i = unsigned(r(12));
        bool gone = false;
        if (call("erase", nth(), [&] { gone = t->erase(text(i)); }) == DONE)
          REQUIRE(gone == (m.erase(i) > 0), "nomem-erase", "%u", i);
        break;
      }
      case 5: call("optimize", nth(), [&] { t->optimize(); }); break;
      case 6: { // clones, and their conversions
        const auto tg = tag();
        const unsigned kind = unsigned(r(4));
        const auto w = t->take_weak_asis();
        image.assign(static_cast<const uint32_t *>(w.data()), static_cast<const uint32_t *>(w.data()) + w.size() / 4);
        const int n = nth();
        const Map &mm = m;
        bool seen = false;
        int rc = call("clone", n, [&] {
          // the comparison itself must not be counted as the library's work
          auto verify = [&](const auto &x) { inside = false; const int a = armed; armed = -1; compare(x, mm, "clone"); seen = true; armed = a; inside = true; };
          if (kind == 0) {
            auto c = fptu::tuple_rw_fixed::clone(*t, size_t(3), size_t(50), tg);
            verify(c);
          } else if (kind == 1) {
            fptu::tuple_rw_fixed c(image.data(), image.size() * 4, size_t(3), size_t(50), nullptr, tg);
            verify(c);
          } else if (kind == 2) {
            auto c = t->take_managed_clone_asis(false);
            verify(c);
            fptu::tuple_rw_fixed back(std::move(c));
            verify(back);
          } else {
            fptu::tuple_ro_managed c(image.data(), image.size() * 4, nullptr);
            fptu::tuple_ro_managed shared(c);
            fptu::tuple_rw_managed back(std::move(c));
            verify(back);
            verify(shared);
          }
        });
        REQUIRE(seen || rc == NOMEM, "nomem-clone", "%u", kind);
        break;
      }
      case 7: { // validation
        const auto w = t->take_weak_asis();
        image.assign(static_cast<const uint32_t *>(w.data()), static_cast<const uint32_t *>(w.data()) + w.size() / 4);
        const char *trouble = "?";
        if (call("validate", nth(), [&] { trouble = fptu::tuple_ro_weak::validate(image.data(), image.size() * 4, nullptr, false); }) == DONE)
          REQUIRE(!trouble, "nomem-validate", "%s", trouble);
        break;
      }
      default:
        if (r.chance(20))
          create();
        else { // the C API
          fptu_rw *p = nullptr;
          call("fptu_alloc", nth(), [&] { p = fptu_alloc(4, 100); });
          REQUIRE(p || fired, "nomem-alloc", "fptu_alloc");
          if (p)
            free(p);
        }
      }
      compare(*t, m, "after");
      const char *tr = t->validate();
      REQUIRE(!tr, "nomem-validate", "%s", tr);
      uint64_t h = 0;
      for (auto &i : m)
        h = rng::mix(h + i.first * 1000003 + i.second.size());
      state(h);
    }
  }
  REQUIRE(live == 0, "nomem-leak", "%zu blocks are left", live);
}
} // namespace

int main(int argc, char **argv) {
  std::map<std::string, case_fn> s;
  s["nomem"] = nomem_case;
  return run_main(argc, argv, s);
}

// Model-based monitor of writable tuples (schema-bound and schema-less).
#include "world.h"
using namespace vt;


// A tuple with a released field: entries of the index which hold no field must not be offered by iterators.
static void holes_probe(rng &r) {
  fptu::tuple_rw_fixed tuple(16, 1000, nullptr), *const t = &tuple;
  const unsigned n = 3 + unsigned(r.next() % 5), gone = unsigned(r.next() % (n - 1));
  auto tok = [](unsigned id) { return fptu::token(fptu::genus::text, id, false, true, false); };
  for (unsigned i = 0; i < n; ++i)
    t->set_string(tok(i), fptu::string_view("some text", 9));
  REQUIRE(t->erase(tok(gone)), "erase", "field %u", gone);
  unsigned seen = 0, holes = 0;
  for (auto it = t->cbegin_loose(); it != t->cend_loose(); ++it)
    if (it.field_type() == fptu::genus::hole)
      ++holes;
    else {
      REQUIRE(it.field_type() == fptu::genus::text && it.field_id() != gone, "iter", "a released field is still visited");
      ++seen;
    }
  REQUIRE(seen == n - 1, "iter", "%u fields visited of %u", seen, n - 1);
  count("probes");
  if (holes)
    finding("iter-visits-holes", "an erased field is still visited as an entry of type hole");
}

int main(int argc, char **argv) {
  std::map<std::string, Profile> base;
  base["all"];
  {
    auto &p = base["c01"];
    p.oracles = O_CONTENT;
  }
  {
    auto &p = base["c02"];
    p.oracles = O_STRUCT;
    p.w_erase = 20;
  }
  { // little room, so that most operations meet a refusal
    auto &p = base["c03"];
    p.oracles = O_CONTENT | O_STRUCT | O_ATOMIC;
    p.pc_tight = 100;
    p.pc_managed = 0;
    p.value_cap = 80;
    p.w_negative = 8;
  }
  {
    auto &p = base["c04"];
    p.oracles = O_CONTENT | O_JUNK;
    p.w_optimize = 20;
    p.w_erase = 25;
  }
  {
    auto &p = base["c05"];
    p.oracles = O_CONTENT;
    p.w_roundtrip = p.w_clone = p.w_move = 15;
  }
  {
    auto &p = base["c09"];
    p.oracles = O_CONTENT;
    p.nil_bias = 45;
    p.pre_percent = 60;
  }
  {
    auto &p = base["c10"];
    p.oracles = O_CONTENT | O_ITER;
    p.coll_percent = 70;
    p.w_insert = 40;
    p.w_erase_it = p.w_modify_it = p.w_erase_range = 12;
  }
  {
    auto &p = base["c14"];
    p.oracles = O_CONTENT | O_STRUCT;
    p.pc_managed = 100;
    p.pc_tight = 90;
    p.w_reset = 0;
  }
  std::map<std::string, case_fn> s;
  for (auto &b : base)
    for (const char *v : {"", "mid", "large", "huge", "many", "plenty", "long"}) {
      Profile p = b.second;
      variant(p, v);
      s[b.first + (*v ? "." : "") + v] = [p](rng &r, uint64_t) {
        World w(r, p);
        w.run();
      };
    }
  s["holes"] = [](rng &r, uint64_t) { holes_probe(r); };
  return run_main(argc, argv, s);
}

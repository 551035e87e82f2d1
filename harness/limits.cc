// Extremes of the format: exactly full tuples, and one unit more.
#include "fpt.h"
using namespace vt;

static void full_case(rng &r, uint64_t idx) {
  const size_t items = r.chance(40) ? 8191 : r(8191);
  const size_t bytes = r.chance(50) ? 65534 * 4 : r.range(200000, 65534 * 4);
  log(strf("items=%zu bytes=%zu", items, bytes));
  std::unique_ptr<fptu::tuple_rw_fixed> pt;
  Res c = guarded([&] { pt.reset(new fptu::tuple_rw_fixed(items, bytes, nullptr)); return Val(); });
  REQUIRE(c.out == ok, "limits-create", "creation within the limits threw %s", c.str().c_str());
  auto &t = *pt;
  fptu::token tx(genus(G_TEXT), 1, true, true, false), b8(genus(G_U8), 2, true, true, false), vb(genus(G_VARBIN), 3, true, true, false);
  size_t n8 = 0, nt = 0;
  size_t sum = 0;
  // data: texts of random size until the tail is exactly full
  while (t.tail_space_units() > 0 && t.head_space() > 0) {
    size_t u = std::min<size_t>(t.tail_space_units(), 1 + r(20000));
    if (t.head_space() == 1)
      u = std::min<size_t>(t.tail_space_units(), 32000);
    size_t len = u < 60 ? u * 4 - 1 : u * 4 - 3;
    if (u >= 60 && len < 254)
      len = 254, u = 65;
    if (u > t.tail_space_units())
      break;
    std::string s(len, char('a' + nt % 26));
    t.insert_string(tx, s);
    sum += len;
    nt++;
  }
  while (t.head_space() > 0) {
    t.insert_u8(b8, uint8_t(n8++));
    if (t.index_size() >= 8191)
      break;
  }
  log(strf("texts=%zu u8s=%zu head=%zu tail=%zu", nt, n8, t.head_space(), t.tail_space_units()));
  state(rng::mix(nt * 10007 + n8 * 3 + t.brutto_size()));
  count(t.brutto_size() == 65535 * 4 ? "exactly_maximal" : "less_than_maximal");
  const char *tr = t.validate();
  REQUIRE(!tr, "limits-validate", "full tuple: %s", tr);
  auto w = t.take_weak_asis();
  REQUIRE(w.size() == t.brutto_size(), "limits-size", "size");
  tr = w.validate(nullptr);
  REQUIRE(!tr, "limits-validate-ro", "full serialized tuple of %zu bytes: %s", w.size(), tr);
  Image im = decode(w.data(), w.size(), nullptr);
  REQUIRE(im.error.empty(), "limits-decode", "%s", im.error.c_str());
  REQUIRE(im.loose.size() == nt + n8, "limits-count", "decoded %zu of %zu", im.loose.size(), nt + n8);
  size_t got = 0, cnt = 0;
  auto col = t.collection(tx);
  for (const auto &i : col)
    got += i.get_string().size(), ++cnt;
  REQUIRE(got == sum && cnt == nt, "limits-content", "texts");
  // one more is refused with nothing changed
  const uint64_t h = hash_bytes(w.data(), w.size());
  const size_t hs = t.head_space(), ts = t.tail_space_units();
  Res a = guarded([&] { t.insert_u32(fptu::token(genus(G_U32), 9, true, true, false), 7); return Val(); });
  if (!(hs >= 1 && ts >= 1 && t.index_size() < 8191)) {
    REQUIRE(a.out == space, "limits-overfull", "insertion into a full tuple gave %s", a.str().c_str());
    auto w2 = t.take_weak_asis();
    REQUIRE(hash_bytes(w2.data(), w2.size()) == h, "limits-changed", "a refused insertion changed the tuple");
  }
  // round trip of the extreme image
  auto w3 = t.take_weak_asis();
  fptu::tuple_ro_managed m(w3.data(), w3.size(), nullptr);
  REQUIRE(m.size() == w3.size() && !memcmp(m.data(), w3.data(), w3.size()), "limits-roundtrip", "copy differs");
  fptu::tuple_rw_fixed t2(m.data(), m.size(), size_t(0), size_t(0), nullptr);
  auto w4 = t2.take_weak_asis();
  REQUIRE(w4.size() == w3.size() && !memcmp(w4.data(), w3.data(), w3.size()), "limits-roundtrip", "rw copy differs");
}

// single values of every length near the boundaries of the encodings
static void length_case(rng &r, uint64_t idx) {
  static const size_t maxtext = 131325;
  size_t len;
  switch (idx % 5) {
  case 0: len = idx / 5 % 600; break;
  case 1: len = r.range(65500, 65560); break;
  case 2: len = r.range(131300, maxtext + 20); break;
  case 3: len = r(maxtext); break;
  default: len = r.range(262100, 262160); break;
  }
  fptu::tuple_rw_fixed t(8, 65534 * 4 - 64, nullptr);
  fptu::token tx(genus(G_TEXT), 1, false, true, false), vb(genus(G_VARBIN), 3, false, true, false), pr(genus(G_PROPERTY), 4, false, true, false);
  const Val v = gen_bytes(r, len);
  log(strf("len=%zu", len));
  state(len);
  Res a = guarded([&] { t.set_string(tx, to_sv(v)); return Val(); });
  if (len > maxtext)
    REQUIRE(a.out == toolong, "limits-text", "text of %zu bytes gave %s", len, a.str().c_str());
  else {
    REQUIRE(a.out == ok, "limits-text", "text of %zu bytes gave %s", len, a.str().c_str());
    REQUIRE(sv(t.get_string(tx)) == v, "limits-text", "text of %zu bytes reads back differently", len);
    REQUIRE(t.erase(tx), "limits-text", "erase");
  }
  a = guarded([&] { t.set_varbinary(vb, to_sv(v)); return Val(); });
  if (len + 4 <= 65534 * 4 - 64) {
    REQUIRE(a.out == ok, "limits-varbin", "varbin of %zu bytes gave %s", len, a.str().c_str());
    REQUIRE(sv(t.get_varbinary(vb)) == v, "limits-varbin", "varbin of %zu bytes reads back differently", len);
    const char *tr = t.take_weak_asis().validate(nullptr);
    REQUIRE(!tr, "limits-varbin", "validate: %s", tr);
    REQUIRE(t.erase(vb), "limits-varbin", "erase");
  } else
    REQUIRE(a.out == toolong || a.out == space || a.out == toolarge, "limits-varbin", "varbin of %zu bytes gave %s", len, a.str().c_str());
  a = guarded([&] { t.set_property(pr, fptu::property_pair(to_sv(v), 7)); return Val(); });
  if (len > 255)
    REQUIRE(a.out == toolong, "limits-property", "property of %zu bytes gave %s", len, a.str().c_str());
  else {
    REQUIRE(a.out == ok, "limits-property", "property of %zu bytes gave %s", len, a.str().c_str());
    REQUIRE(prop_of(t.get_property(pr)) == Val(1, 7) + v, "limits-property", "property of %zu bytes", len);
  }
  const char *tr = t.validate();
  REQUIRE(!tr, "limits-validate", "%s", tr);
}

// Autogrowing tuples, growing and cloning near the limits of the format: whatever fits must be accepted and kept.
static void growth_case(rng &r, uint64_t) {
  std::unique_ptr<fptu::schema> sch;
  fptu::token tx(genus(G_TEXT), 1, true, true, false), n16(genus(G_U16), 2, true, true, false), pre;
  size_t pre_units = 0;
  if (r.chance(35)) {
    sch = fptu::schema::create();
    pre = sch->define_preplaced("pre", genus(G_U64), false);
    for (size_t i = r(100); i; --i)
      sch->define_preplaced("p" + std::to_string(i), fptu::genus::bin512, false);
    pre_units = sch->preplaced_units();
    tx = sch->define_collection("texts", genus(G_TEXT), true, false);
    n16 = sch->define_collection("numbers", genus(G_U16), true, false);
  }
  const size_t room = 65534 - pre_units;
  const size_t items = r.chance(30) ? r.range(4000, 8191) : r.chance(50) ? r(8192) : r(40);
  const size_t units = r.chance(60) ? r.range(52000, room) : r(room + 1);
  const size_t bytes = (units + items <= room ? units : room - items) * 4;
  const auto tag = r.chance(35) ? hippeus::buffer_tag() : fptu::defaults::allot_tag;
  log(strf("create items=%zu bytes=%zu pre=%zu %s", items, bytes, pre_units, tag ? "" : "w/o buffer"));
  fptu::tuple_rw_managed t(items, bytes, sch.get(), tag);
  if (!tag)
    count("tuples_without_buffer");
  std::map<std::pair<size_t, char>, size_t> texts;
  size_t used = pre_units, fields = 0;
  std::map<uint16_t, size_t> nums;
  const uint64_t mark = r.next();
  if (pre_units)
    t.set_u64(pre, mark);
  auto brutto = [](size_t len) { return (len + (len < 254 ? 1 : 3) + 3) / 4; };
  auto add_text = [&](size_t u) {
    size_t len = u < 64 ? u * 4 - 1 - r(4) : u * 4 - 3 - r(4);
    if (u == 64) len = 253;
    len = std::max<size_t>(len, 1);
    if (len > 131325) len = 131325;
    u = brutto(len);
    const char c = char('a' + r(26));
    const std::string v(len, c);
    Res a = guarded([&] { t.insert_string(tx, v); return Val(); });
    const bool fits = used + fields + u + 1 <= 65534 && fields < 8191;
    REQUIRE((a.out == ok) == fits, "growth-verdict", "text of %zu bytes, %zu units and %zu fields used: %s", len, used, fields, a.str().c_str());
    if (fits)
      ++texts[{len, c}], used += u, ++fields;
    else
      count("growth_refused");
    return fits;
  };
  auto add_num = [&]() {
    const uint16_t v = uint16_t(r.next());
    Res a = guarded([&] { t.insert_u16(n16, v); return Val(); });
    const bool fits = used + fields + 1 <= 65534 && fields < 8191;
    REQUIRE((a.out == ok) == fits, "growth-verdict", "number with %zu units and %zu fields used: %s", used, fields, a.str().c_str());
    if (fits)
      ++nums[v], ++fields;
    else
      count("growth_refused");
    return fits;
  };
  auto check = [&](const fptu::tuple_rw_fixed &x, const char *how) {
    REQUIRE(x.tail_space_bytes() <= 262140 && x.head_space() <= 8191, "growth-space", "%s: head %zu, tail %zu bytes", how, x.head_space(), x.tail_space_bytes());
    const char *tr = x.validate();
    REQUIRE(!tr, "growth-validate", "%s: %s", how, tr);
    REQUIRE(x.index_size() - x.junk_units() <= fields && x.index_size() >= fields, "growth-index", "%s: %zu entries for %zu fields", how, x.index_size(), fields);
    const auto w = x.take_weak_asis();
    auto mt = texts;
    size_t n = 0;
    for (const auto &i : w.collection(tx)) {
      const auto v = i.get_string();
      ++n;
      auto it = mt.find({v.size(), v.size() ? v.data()[0] : 'a'});
      REQUIRE(it != mt.end() && it->second > 0, "growth-content", "%s: foreign text of %zu bytes", how, v.size());
      --it->second;
      for (size_t k = 0; k < v.size(); k += 997)
        REQUIRE(v.data()[k] == it->first.second, "growth-content", "%s: text damaged at %zu", how, k);
      if (v.size())
        REQUIRE(v.data()[v.size() - 1] == it->first.second, "growth-content", "%s: text damaged at its end", how);
    }
    auto mn = nums;
    for (const auto &i : w.collection(n16)) {
      ++n;
      REQUIRE(mn[i.get_u16()]-- > 0, "growth-content", "%s: foreign number", how);
    }
    REQUIRE(n == fields, "growth-content", "%s: %zu fields of %zu", how, n, fields);
    if (pre_units)
      REQUIRE(w.get_u64(pre) == mark, "growth-content", "%s: preplaced", how);
    count("growth_checked");
  };
  // bring it to the edge: both the index and the data nearly exhausted
  const bool whole = r.chance(60);
  while (t.tail_space_units() > 2 && t.head_space() > 1 && whole)
    if (!add_text(std::min<size_t>(t.tail_space_units() - r(2), 1 + r(16000))))
      break;
  const size_t keep = r(3);
  while (t.head_space() > keep && fields < 8191 && used + fields < 65534)
    if (!add_num())
      break;
  check(t, "filled");
  for (int step = int(2 + r(8)); step; --step) {
    state(rng::mix(used * 65537 + fields * 31 + t.head_space()));
    switch (r(7)) {
    case 0:
    case 1: log("number"); add_num(); break;
    case 2: log("small text"); add_text(1 + r(4)); break;
    case 3: log("large text"); add_text(1 + r(30000)); break;
    case 4: { // exactly what is left, or one more
      const size_t left = 65534 - used - fields;
      log(strf("left %zu", left));
      if (left > 2)
        add_text(std::min<size_t>(left - 1 + r(2), 32000));
      break;
    }
    case 5: { // erase some text
      auto col = t.collection(tx);
      auto it = col.begin();
      if (it == col.end())
        break;
      auto i2 = it;
      const auto v = (*i2).get_string();
      const size_t len = v.size();
      const char c = len ? v.data()[0] : 'a';
      log(strf("erase %zu", len));
      const size_t u = brutto(len);
      REQUIRE(t.erase(it), "growth-erase", "text of %zu bytes", len);
      for (auto m = texts.begin(); m != texts.end(); ++m)
        if (m->first.first == len && (!len || m->first.second == c) && m->second) {
          --m->second;
          break;
        }
      used -= u, --fields;
      count("growth_erased");
      break;
    }
    default: {
      const size_t mi = r.chance(50) ? r(8192) : r(40), mb = r.chance(50) ? r(262137) : r(4000);
      log(strf("clone +%zu +%zu", mi, mb));
      const auto t2 = r.chance(50) ? fptu::tuple_rw_fixed::clone(t, mi, mb, r.chance(50) ? tag : fptu::defaults::allot_tag) : fptu::tuple_rw_fixed::clone(t);
      check(t2, "clone");
      break;
    }
    }
    check(t, "grown");
  }
  t.reset();
  texts.clear(), nums.clear();
  used = pre_units, fields = 0;
  if (pre_units)
    t.set_u64(pre, mark);
  check(t, "reset");
  add_text(1 + r(1000));
  add_num();
  check(t, "reused");
}

int main(int argc, char **argv) {
  std::map<std::string, case_fn> s;
  s["full"] = full_case;
  s["growth"] = growth_case;
  s["length"] = length_case;
  return run_main(argc, argv, s);
}

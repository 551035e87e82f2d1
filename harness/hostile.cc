// Untrusted and foreign serialized tuples: an independent encoder makes well-formed
// images the library never produced itself, a mutator spoils them, and the
// monitors judge validation, reading, copying and modifying.
#include "world.h"
using namespace vt;

struct Encoder {
  struct Chunk {
    Val bytes; // whole units
    int ref;   // >=0: index entry, <0: slot -1-ref
  };
  static Val payload(int g, const Val &v) {
    Val b;
    switch (g) {
    case G_TEXT:
      if (v.size() < 254)
        b += char(v.size());
      else {
        const size_t excess = v.size() - 254;
        const uint8_t prefix = uint8_t(254 + (excess & 1));
        const uint16_t suffix = uint16_t(excess / 2);
        b += char(prefix);
        b += char(suffix & 255);
        b += char(suffix >> 8);
      }
      b += v;
      break;
    case G_VARBIN: {
      const uint16_t brutto = uint16_t(1 + (v.size() + 3) / 4), tail = uint16_t(v.size() & 3);
      b += raw_of(brutto) + raw_of(tail) + v;
      break;
    }
    case G_NESTED: b = v; break;
    case G_PROPERTY: b = Val(1, char(v.size() - 1)) + v; break;
    default: b = v;
    }
    b.resize((b.size() + 3) / 4 * 4, 0);
    if (!stretchy(g) && b.size() < size_t(fixed_units[g]) * 4)
      b.resize(size_t(fixed_units[g]) * 4, 0);
    return b;
  }
};

struct Foreign : World {
  explicit Foreign(rng &rr, const Profile &p) : World(rr, p) {}
  bool sorted = false, adjacent_holes = false;
  size_t n_holes = 0;
  void fill() {
    for (size_t i = 0; i < defs.size(); ++i) {
      auto &d = defs[i];
      if (d.pre && !stretchy(d.g)) {
        if (r.chance(70))
          vals[i][0] = new_val(d);
        continue;
      }
      vals[i].clear();
      size_t n = r.chance(25) ? 0 : d.coll ? r(5) : 1;
      while (n--) {
        Val v = new_val(d);
        if (!d.disc && is_empty_val(d.g, v))
          continue; // the library itself never stores these
        vals[i].push_back(v);
      }
    }
  }
  std::vector<uint32_t> encode(bool wild) {
    struct Ent {
      uint16_t gid;
      int g;
      Val v;
      bool hole;
      unsigned hole_units;
      int chunk;
    };
    std::vector<Ent> ents;
    std::vector<Encoder::Chunk> chunks;
    for (size_t i = 0; i < defs.size(); ++i)
      if (!defs[i].pre)
        for (auto &v : vals[i])
          ents.push_back({uint16_t(defs[i].g << 11 | defs[i].id), defs[i].g, v, false, 0, -1});
    const size_t holes = r.chance(50) ? 0 : r(4);
    for (size_t k = 0; k < holes; ++k)
      ents.push_back({0, G_HOLE, Val(), true, unsigned(r.chance(30) ? 0 : 1 + r(12)), -1});
    for (size_t k = ents.size(); k > 1; --k)
      std::swap(ents[k - 1], ents[r(k)]);
    for (auto &e : ents)
      if (e.hole)
        e.gid = uint16_t(G_HOLE << 11 | e.hole_units);
    sorted = holes == 0 && r.chance(25);
    if (sorted)
      std::stable_sort(ents.begin(), ents.end(), [](const Ent &a, const Ent &b) { return a.gid < b.gid; });
    for (size_t k = 0; k < ents.size(); ++k) {
      auto &e = ents[k];
      if (e.hole) {
        if (e.hole_units)
          chunks.push_back({Val(e.hole_units * 4, char(r(256))), int(k)});
      } else if (!inplaced(e.g)) {
        if (wild && stretchy(e.g) && is_empty_val(e.g, e.v) && e.g != G_NESTED && r.chance(30))
          continue; // no payload: the same as absent
        if (e.g == G_NESTED && e.v.size() < 4)
          continue;
        chunks.push_back({Encoder::payload(e.g, e.v), int(k)});
      }
    }
    std::vector<uint8_t> pre((layout.bytes + 3) / 4 * 4, 0);
    size_t slot = 0;
    std::vector<std::pair<size_t, Val>> stretchy_slots;
    for (size_t i = 0; i < defs.size(); ++i)
      if (defs[i].pre) {
        const size_t off = defs[i].tok.preplaced_offset();
        if (!stretchy(defs[i].g))
          memcpy(pre.data() + off, vals[i][0].data(), vals[i][0].size());
        else if (!vals[i].empty()) {
          chunks.push_back({Encoder::payload(defs[i].g, vals[i][0]), -1 - int(off)});
        }
        ++slot;
      }
    // random placement; by default no two holes adjoin and none is the last
    auto is_hole = [&](const Encoder::Chunk &c) { return c.ref >= 0 && ents[size_t(c.ref)].hole; };
    for (size_t k = chunks.size(); k > 1; --k)
      std::swap(chunks[k - 1], chunks[r(k)]);
    if (!wild) {
      std::vector<Encoder::Chunk> H, D;
      for (auto &c : chunks)
        (is_hole(c) ? H : D).push_back(c);
      std::vector<Encoder::Chunk> out;
      for (auto &d : D) {
        if (!H.empty() && r.chance(60)) {
          out.push_back(H.back());
          H.pop_back();
        }
        out.push_back(d);
      }
      for (auto &h : H) { // no room: make it a hole of the index only
        auto &e = ents[size_t(h.ref)];
        e.hole_units = 0;
        e.gid = uint16_t(G_HOLE << 11);
      }
      chunks = out;
    }
    const size_t n = ents.size(), pivot = 1 + n;
    std::vector<uint32_t> img(pivot + pre.size() / 4, 0);
    if (!pre.empty())
      memcpy(&img[pivot], pre.data(), pre.size());
    for (size_t k = 0; k < n; ++k) {
      uint32_t x = uint32_t(ents[k].gid) << 16;
      if (inplaced(ents[k].g))
        x |= ents[k].v.size() == 1 ? uint8_t(ents[k].v[0]) : rd16(ents[k].v.data());
      img[1 + k] = x;
    }
    for (auto &c : chunks) {
      const size_t at = img.size();
      img.resize(at + c.bytes.size() / 4);
      memcpy(&img[at], c.bytes.data(), c.bytes.size());
      if (c.ref >= 0)
        img[1 + size_t(c.ref)] |= uint16_t(at - (1 + size_t(c.ref)));
      else {
        const size_t off = size_t(-1 - c.ref);
        const uint16_t rel = uint16_t(at - (pivot + off / 4));
        memcpy(reinterpret_cast<char *>(&img[pivot]) + off, &rel, 2);
      }
    }
    img[0] = uint32_t(img.size()) | uint32_t((n << 3) | (layout.bytes ? 2 : 0) | (sorted ? 1 : 0)) << 16;
    n_holes = holes;
    return img;
  }
};

using buf_t = std::unique_ptr<uint8_t[]>;
static buf_t exact(const void *p, size_t n) {
  buf_t b(new uint8_t[n ? n : 1]);
  if (n)
    memcpy(b.get(), p, n);
  return b;
}

// well-formed foreign images: accepted, readable, and modifiable
static void foreign_case(rng &r, uint64_t) {
  Profile p;
  p.pc_tight = 50;
  Foreign f(r, p);
  f.make_schema();
  if (f.defs.empty())
    return;
  f.fill();
  auto img = f.encode(false);
  const size_t bytes = img.size() * 4;
  log(strf("foreign image %zu bytes %s: ", bytes, f.sorted ? "sorted" : "") + hex(img.data(), bytes, 160));
  buf_t b = exact(img.data(), bytes);
  state(hash_bytes(b.get(), bytes));
  const char *tr = fptu::tuple_ro_weak::validate(b.get(), bytes, f.schema.get(), false);
  REQUIRE(!tr, "wellformed-rejected", "a well-formed tuple is rejected: %s [%s]", tr, hex(b.get(), bytes, 400).c_str());
  tr = fptu::tuple_ro_weak::validate(b.get(), bytes, f.schema.get(), true);
  if (f.n_holes == 0)
    REQUIRE(!tr, "wellformed-rejected", "a hole-less tuple is rejected: %s [%s]", tr, hex(b.get(), bytes, 400).c_str());
  else
    REQUIRE(tr, "holes-accepted", "holes are not allowed, but the tuple is accepted [%s]", hex(b.get(), bytes, 400).c_str());
  if (r.chance(50))
    f.fx.reset(new fptu::tuple_rw_fixed(b.get(), bytes, size_t(r(10)), size_t(r(400)), f.schema.get()));
  else
    f.mg.reset(new fptu::tuple_rw_managed(fptu::tuple_rw_fixed(b.get(), bytes, size_t(r(10)), size_t(r(400)), f.schema.get())));
  fptu::tuple_ro_weak w(b.get(), bytes, f.schema.get(), fptu::enforce_validation);
  f.check_reads(w, "foreign");
  f.check_iter(w, w.cbegin(f.schema.get()), w.cend(f.schema.get()), "foreign");
  f.check_loose_iter(w, "foreign");
  b.reset();
  const size_t n = r(12);
  f.observe();
  for (size_t i = 0; i < n; ++i) {
    f.step();
    f.observe();
  }
}

static uint64_t sink;
template <typename A> static void touch(const A &acc, int g) {
  Res a = guarded([&] { return acc_get(acc, g); });
  REQUIRE(a.out == ok || a.out == absent, "hostile-exception", "reading an accepted tuple gave %s", a.str().c_str());
  const Val &v = a.val;
  for (unsigned char c : v)
    sink += c;
}

// the accepted image is used in all ways; sanitizers watch
static void exercise(rng &r, Foreign &f, const uint8_t *p, size_t bytes, const fptu::schema *schema) {
  fptu::tuple_ro_weak w(p, bytes, schema, fptu::enforce_validation);
  const uint8_t *const lo = p, *const hi = p + bytes;
  for (auto &d : f.defs) {
    if (d.pre && !schema)
      continue;
    Res a = guarded([&] { return tup_get(w, d.tok, d.g); });
    sink += a.val.size();
    sink += w.is_present(d.tok);
    if (stretchy(d.g) && !d.coll && a.out == ok && !a.val.empty() && (d.g == G_TEXT || d.g == G_VARBIN)) {
      const auto s = d.g == G_TEXT ? w.get_string(d.tok) : w.get_varbinary(d.tok);
      REQUIRE(s.empty() || a.val == "TODO: call external string-pool helper" || (reinterpret_cast<const uint8_t *>(s.data()) >= lo && reinterpret_cast<const uint8_t *>(s.data() + s.size()) <= hi), "value-outside",
              "value of %s is outside of the tuple", d.name.c_str());
    }
    if (d.coll)
      for (const auto &it : w.collection(d.tok))
        touch(it, d.g);
  }
  if (schema || !(rd16(p + 2) & 2))
    for (auto it = w.cbegin(schema), e = w.cend(schema); it != e; ++it) {
      const int g = int(it.field_type());
      if (g == G_HOLE || g == G_APP64 || g == G_APP128)
        continue;
      touch(*it, g);
    }
  for (auto it = w.cbegin_loose(); it != w.cend_loose(); ++it) {
    const int g = int(it.field_type());
    if (g == G_HOLE || g == G_APP64 || g == G_APP128)
      continue;
    touch(*it, g);
  }
  fptu::tuple_ro_managed m(p, bytes, schema);
  fptu::tuple_rw_fixed t(p, bytes, size_t(r(6)), size_t(r(200)), schema);
  count("hostile_modified");
  const size_t n = 1 + r(10);
  for (size_t i = 0; i < n; ++i) {
    auto &d = f.defs[r(f.defs.size())];
    if (d.pre && !schema)
      continue;
    Res a = guarded([&] {
      switch (r(6)) {
      case 0: t.compactify(); log("compactify"); break;
      case 1: t.optimize(); log("optimize"); break;
      case 2:
      case 3:
        log("erase " + d.name);
        t.erase(d.tok);
        break;
      default: {
        const Val v = f.new_val(d);
        log((d.coll ? "insert " : "set ") + d.name + " = " + hex(v, 16));
        if (d.coll)
          tup_insert(t, d.tok, d.g, v);
        else
          tup_set(t, d.tok, d.g, v);
      }
      }
      return Val();
    });
    REQUIRE(a.out == ok || a.out == space, "hostile-exception", "modifying an accepted tuple gave %s", a.str().c_str());
    auto w2 = t.take_weak_asis();
    sink += hash_bytes(w2.data(), w2.size());
  }
  fptu::tuple_ro_managed ro = t.move_to_ro(r.chance(50));
  sink += hash_bytes(ro.data(), ro.size());
}

// what the library decides about an image must agree with the independent decoder
static void judge(rng &r, Foreign &f, const uint8_t *p, size_t bytes, const fptu::schema *schema, bool compare) {
  const char *tr = fptu::tuple_ro_weak::validate(p, bytes, schema, false);
  const char *tr2 = fptu::tuple_ro_weak::validate(p, bytes, schema, true);
  REQUIRE(fptu::tuple_ro_weak::validate(nullptr, bytes, schema, r.chance(50)) != nullptr, "null-image", "nothing was accepted as a tuple of %zu bytes", bytes);
  count(tr ? "hostile_rejected" : "hostile_accepted");
  REQUIRE(!(tr && !tr2), "holes-monotonic", "rejected [%s] with holes allowed but accepted without", tr ? tr : "");
  bool thrown = false;
  try {
    fptu::tuple_ro_weak w(p, bytes, schema, fptu::enforce_validation);
    sink += w.size();
  } catch (const std::exception &) {
    thrown = true;
  }
  REQUIRE(thrown == (tr != nullptr), "ctor-vs-validate", "validate() says %s but the constructor %s", tr ? tr : "fine", thrown ? "throws" : "accepts");
  if (compare) {
    Image im = decode(p, bytes, schema ? &f.layout : nullptr);
    // what else the header promises
    bool ascending = true;
    if (im.error.empty() && bytes >= 4)
      for (size_t i = 2; i <= size_t(rd16(p + 2) >> 3); ++i)
        ascending &= rd16(p + i * 4 - 2) <= rd16(p + i * 4 + 2);
    if (im.error.empty()) {
      if (bytes < 4)
        im.error = "no header";
      else if (im.preplaced_flag != (schema && f.layout.bytes))
        im.error = "preplaced flag does not match the schema";
      else if (im.sorted_flag && !ascending)
        im.error = "the index is not sorted";
    }
    if (!tr)
      REQUIRE(im.error.empty(), "malformed-accepted", "accepted, though %s [%s]", im.error.c_str(), hex(p, bytes, 400).c_str());
    else
      REQUIRE(!im.error.empty(), "wellformed-rejected", "rejected as '%s', but the decoder finds nothing wrong [%s]", tr, hex(p, bytes, 400).c_str());
    if (!tr)
      REQUIRE((tr2 == nullptr) == (im.holes == 0), "holes-verdict", "%zu holes, but validation without holes says %s [%s]", size_t(im.holes), tr2 ? tr2 : "fine",
              hex(p, bytes, 400).c_str());
    if (!tr) {
      // values read are the bytes of the image
      fptu::tuple_ro_weak w(p, bytes, schema, fptu::enforce_validation);
      std::map<std::pair<int, unsigned>, std::vector<Val>> exp;
      for (auto &l : im.loose)
        if (l.g != G_APP64 && l.g != G_APP128 && (l.has_payload || inplaced(l.g)))
          exp[{l.g, l.id}].push_back(l.v);
      for (auto &e : exp) {
        const int g = e.first.first;
        fptu::token tk(genus(g), e.first.second, true, true, false);
        std::vector<Val> got;
        for (const auto &it : w.collection(tk)) {
          Res a = guarded([&] { return acc_get(it, g); });
          log(strf("item %s", a.str().c_str()));
          if (g == G_TEXT && a.out == ok && a.val == "TODO: call external string-pool helper")
            a.val.clear(); // zero length with junk behind: reserved for string pools
          if (a.out != absent) // payload-less
            got.push_back(a.out == ok ? a.val : Val("exception"));
        }
        auto norm = [&](std::vector<Val> v) {
          for (auto &x : v) {
            if (g == G_PROPERTY && x.empty())
              x = Val(1, 0);
            if (g == G_NESTED && x.size() == 0)
              x = Val();
            if (g == G_D64)
              x = of_decimal(cast<fptu::decimal64>(x));
          }
          std::sort(v.begin(), v.end());
          return v;
        };
        REQUIRE(norm(got) == norm(e.second), "hostile-content", "%s:%u has other values (%zu) than its bytes (%zu) [%s]", genus_names[g], e.first.second, got.size(), e.second.size(), hex(p, bytes, 300).c_str());
      }
    }
  }
  if (!tr)
    exercise(r, f, p, bytes, schema);
}

static void mutate(rng &r, std::vector<uint8_t> &b) {
  static const uint16_t edges[] = {0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 63, 255, 256, 2047, 2048, 0x7fff, 0x8000, 0xf800, 0xf801, 0xfffe, 0xffff};
  if (b.size() < 4)
    return;
  const unsigned units = unsigned(b.size() / 4);
  switch (r(10)) {
  case 0: b[r(b.size())] ^= uint8_t(1u << r(8)); break;
  case 1: b[r(b.size())] = uint8_t(r(256)); break;
  case 2: { // header or descriptor: 16-bit field
    const size_t n = std::min<size_t>(units, 1 + (rd16(&b[2]) >> 3));
    const size_t at = r(std::max<size_t>(n, 1)) * 4 + (r.chance(50) ? 2 : 0);
    uint16_t v = r.chance(60) ? edges[r(std::size(edges))] : uint16_t(rd16(&b[at]) + uint16_t(r(9)) - 4);
    memcpy(&b[at], &v, 2);
    break;
  }
  case 3: { // any 16-bit field
    const size_t at = r(b.size() / 2) * 2;
    uint16_t v = r.chance(60) ? edges[r(std::size(edges))] : uint16_t(rd16(&b[at]) + uint16_t(r(9)) - 4);
    memcpy(&b[at], &v, 2);
    break;
  }
  case 4: { // truncate or extend, header fixed up or not
    if (r.chance(50) && units > 1)
      b.resize((units - 1 - r(std::min(units - 1, 3u))) * 4);
    else
      b.resize(b.size() + 4 * (1 + r(3)), uint8_t(r(256)));
    if (r.chance(80)) {
      uint16_t u = uint16_t(b.size() / 4);
      memcpy(&b[0], &u, 2);
    }
    break;
  }
  case 5: { // swap descriptors
    const size_t n = rd16(&b[2]) >> 3;
    if (n >= 2 && n < units) {
      size_t i = 1 + r(n), j = 1 + r(n);
      uint32_t x = rd32(&b[i * 4]), y = rd32(&b[j * 4]);
      memcpy(&b[i * 4], &y, 4);
      memcpy(&b[j * 4], &x, 4);
    }
    break;
  }
  case 6: { // change the type of a field, keep the rest
    const size_t n = rd16(&b[2]) >> 3;
    if (n >= 1 && n < units) {
      size_t i = 1 + r(n);
      uint16_t gid = uint16_t((rd16(&b[i * 4 + 2]) & 2047) | r(32) << 11);
      memcpy(&b[i * 4 + 2], &gid, 2);
    }
    break;
  }
  case 7: { // change the index size, keep the units
    const size_t n = rd16(&b[2]) >> 3;
    uint16_t lf = uint16_t((n + r(5) - 2) << 3 | (rd16(&b[2]) & 7));
    memcpy(&b[2], &lf, 2);
    break;
  }
  case 8: { // flags
    uint16_t lf = uint16_t(rd16(&b[2]) ^ (1u << r(3)));
    memcpy(&b[2], &lf, 2);
    break;
  }
  default: { // insert or remove a unit in the middle
    const size_t at = (1 + r(units)) * 4;
    if (r.chance(50) || at + 4 > b.size())
      b.insert(b.begin() + ptrdiff_t(std::min(at, b.size())), 4, uint8_t(r(256)));
    else
      b.erase(b.begin() + ptrdiff_t(at), b.begin() + ptrdiff_t(at + 4));
    if (b.size() >= 4 && r.chance(80)) {
      uint16_t u = uint16_t(b.size() / 4);
      memcpy(&b[0], &u, 2);
    }
  }
  }
}

static void hostile_case_(rng &r, bool compare) {
  Profile p;
  p.value_cap = r.chance(5) ? 3000 : 40;
  Foreign f(r, p);
  f.make_schema();
  if (f.defs.empty())
    return;
  f.fill();
  // reserved bits are outside of the comparison
  auto unreserved = [](const std::vector<uint8_t> &b) { return b.size() < 4 || !(rd16(&b[2]) & 4); };
  for (unsigned round = 0; round < 12; ++round) {
    auto img = f.encode(r.chance(30));
    std::vector<uint8_t> b(reinterpret_cast<uint8_t *>(img.data()), reinterpret_cast<uint8_t *>(img.data() + img.size()));
    if (r.chance(6)) { // plain noise with a plausible header
      b.resize(4 * (1 + r(30)));
      for (auto &c : b)
        c = uint8_t(r.chance(40) ? r(256) : r(4));
      uint16_t u = uint16_t(b.size() / 4), lf = uint16_t(r(u + 1) << 3 | (f.layout.bytes ? 2 : 0));
      memcpy(&b[0], &u, 2);
      memcpy(&b[2], &lf, 2);
    }
    const size_t n = r(4);
    for (size_t i = 0; i < n; ++i)
      mutate(r, b);
    size_t bytes = b.size();
    if (r.chance(4))
      bytes = r(bytes + 1);
    b.resize(bytes);
    buf_t e = exact(b.data(), bytes);
    log(strf("hostile %zu bytes ", bytes) + hex(e.get(), bytes, 200));
    state(hash_bytes(e.get(), bytes));
    count("hostile_images");
    const fptu::schema *s = r.chance(90) ? f.schema.get() : nullptr;
    judge(r, f, e.get(), bytes, s, compare && unreserved(b));
  }
}

// Payload covered by chunks edge to edge, in any order of descriptors, and slightly spoiled covers
static void tiling_case(rng &r, uint64_t) {
  Profile p;
  Foreign f(r, p);
  f.make_schema();
  for (unsigned round = 0; round < 30; ++round) {
    struct Tile {
      size_t at, units;
    };
    const bool with_schema = f.schema && r.chance(40);
    const size_t pre = with_schema ? (f.layout.bytes + 3) / 4 : 0;
    std::vector<Tile> tiles;
    size_t total = pre;
    const bool huge = r.chance(2);
    for (size_t n = huge ? 20 + r(40) : r(9); n > 0; --n) {
      const size_t u = huge ? std::min<size_t>(1 + r(2047), 65400 - total) : 1 + r(r.chance(80) ? 4 : 17);
      if (!u)
        break;
      tiles.push_back({total, u});
      total += u;
    }
    const unsigned spoil = tiles.empty() ? 0 : unsigned(r(10));
    for (unsigned k = spoil ? 1 + unsigned(r(2)) : 0; k > 0 && !tiles.empty(); --k) {
      const size_t i = r(tiles.size()), j = r(tiles.size());
      switch (r.chance(50) ? spoil : 1 + r(9)) {
      case 1: { // anywhere
        const size_t at = pre + r(total - pre);
        tiles.push_back({at, 1 + r(total - at)});
        break;
      }
      case 2: tiles.erase(tiles.begin() + ptrdiff_t(i)); break;
      case 3: tiles[i].at += r.chance(50) ? 1 : size_t(-1); break;
      case 4: tiles[i].units += r.chance(50) ? 1 : size_t(-1); break;
      case 5: tiles.push_back(tiles[i]); break;
      case 6: { // the end of one tile up to the begin or the end of another
        const size_t from = tiles[i].at + r(tiles[i].units + 1), to = tiles[j].at + (r.chance(50) ? 0 : tiles[j].units);
        if (from < to)
          tiles.push_back({from, to - from});
        break;
      }
      case 7: { // from an edge of one tile into the middle of another
        const size_t from = tiles[i].at + (r.chance(50) ? 0 : tiles[i].units), to = tiles[j].at + r(tiles[j].units + 1);
        if (from < to)
          tiles.push_back({from, to - from});
        break;
      }
      case 8: // one tile stretched over a part of the next one
        tiles[i].units += 1 + r(4);
        break;
      case 9: // two tiles exchange their edges
        if (tiles[i].units > 1) {
          tiles.push_back({tiles[i].at + 1, tiles[i].units - 1});
          tiles[i].units = r.chance(50) ? 1 : tiles[i].units;
        }
        break;
      }
      if (i < tiles.size() && !tiles[i].units)
        tiles.erase(tiles.begin() + ptrdiff_t(i));
    }
    for (size_t k = tiles.size(); k > 1; --k)
      std::swap(tiles[k - 1], tiles[r(k)]);
    const size_t n = tiles.size(), pivot = 1 + n;
    std::vector<uint32_t> img(pivot + total, 0);
    const unsigned holes_pc = r.chance(30) ? 100 : r.chance(30) ? 0 : 40;
    for (size_t k = 0; k < n; ++k) {
      const size_t u = tiles[k].units, at = pivot + tiles[k].at;
      uint16_t gid;
      if (r.chance(holes_pc) && u < 2048)
        gid = uint16_t(G_HOLE << 11 | u);
      else {
        int g = G_VARBIN;
        if (r.chance(70))
          switch (u) {
          case 1: g = r.chance(50) ? G_U32 : G_F32; break;
          case 2: g = r.chance(50) ? G_U64 : G_T64; break;
          case 3: g = G_B96; break;
          case 4: g = G_B128; break;
          case 5: g = G_B160; break;
          case 6: g = G_B192; break;
          case 8: g = G_B256; break;
          case 12: g = G_B384; break;
          case 16: g = G_B512; break;
          }
        gid = uint16_t(g << 11 | r(2047));
        if (g == G_VARBIN && at < img.size())
          img[at] = uint32_t(u);
      }
      img[1 + k] = uint32_t(gid) << 16 | uint16_t(at - (1 + k));
    }
    img[0] = uint32_t(img.size()) | uint32_t((n << 3) | (pre ? 2 : 0)) << 16;
    const size_t bytes = img.size() * 4;
    buf_t e = exact(img.data(), bytes);
    log(strf("tiling %zu bytes ", bytes) + hex(e.get(), bytes, 200));
    state(hash_bytes(e.get(), bytes));
    count("tilings");
    const uint64_t was = ctx().counters["hostile_accepted"];
    judge(r, f, e.get(), bytes, with_schema ? f.schema.get() : nullptr, true);
    count(ctx().counters["hostile_accepted"] != was ? "tilings_accepted" : "tilings_rejected");
  }
}

int main(int argc, char **argv) {
  std::map<std::string, case_fn> s;
  s["foreign"] = foreign_case;
  s["safety"] = [](rng &r, uint64_t) { hostile_case_(r, false); };
  s["verdict"] = [](rng &r, uint64_t) { hostile_case_(r, true); };
  s["tiling"] = tiling_case;
  return run_main(argc, argv, s);
}

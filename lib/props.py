"""Source of properties.jsonl and MANIFEST.json: run `python3 lib/props.py`."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from suites import SUITES

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, technique, note, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=observe, hook_needed=hook),
                  _technique=technique, _note=note))


NOTE = ("Exploration: the real library, built from /repo's tree with sanitizers and as shipped, is driven by seeded random workloads; "
        "no claim beyond the executions observed (their number and diversity are in the evidence). Trusts the harness' independent model, "
        "the compiler's sanitizer runtimes and the determinism of the build.")
MODEL = "runtime monitoring: model-based online checker over random API histories, under ASan/UBSan, with the library's own assertions, and on the release build"

prop("C01", "A writable tuple behaves as a typed map of its fields",
     "After any sequence of set, insert, erase, modify and reset calls on a writable tuple (with or without a schema, preplaced or loose "
     "fields, single or collection), reading any field through any read interface returns exactly the value last written to it, bit for bit, and no "
     "other field is affected. Reading an absent field gives the type's natural zero/empty value, or a 'field absent' exception for fields declared "
     "to distinguish absence from zero; presence queries agree with it. Misuse (a wrong type, a collection where none is allowed or vice versa) is "
     "refused with the corresponding exception and changes nothing.",
     ["histories", "inputs"], "every finite history of calls, every supported field type, every value, every tuple capacity",
     "The unit tests perform a few fixed scenarios per type; interactions of resizing, holes, reuse of space and preplaced/loose mixes are unbounded.",
     ["src/rw.cxx", "src/gear.cxx", "src/ro.cxx", "fast_positive/tuples/details/rw.h", "fast_positive/tuples/details/getter.h", "fast_positive/tuples/details/field.h", "fast_positive/tuples.h"],
     [("space allocator of tuples", "src/gear.cxx"), ("typed accessors", "fast_positive/tuples/details/rw.h")],
     ["get_*/set_*/insert_*/erase of tuple_rw_fixed and tuple_rw_managed, operator[], collection()"], MODEL, NOTE)
prop("C02", "Every reachable tuple is well-formed and accounts for all of its space",
     "After every successful or refused operation the tuple and its serialized form satisfy the published format: all payload chunks and holes lie inside the tuple, "
     "do not overlap, cover the payload completely, and the library's own validation accepts them. The reported sizes (index, payload, total, net, junk, free "
     "space at both ends, capacity, number of fields) equal those computed independently from the serialized bytes, and limits of the format (size, number "
     "of fields, length of values) are never exceeded.",
     ["histories", "inputs"], "every history of calls, including those that fill a tuple up to the limits of the format",
     "Tests call the validation on a few hand-made states; fragmentation patterns and limit boundaries are not enumerated.",
     ["src/gear.cxx", "src/rw.cxx", "src/audit.cxx", "fast_positive/tuples/details/rw.h"],
     [("hole bookkeeping", "src/gear.cxx"), ("audit", "src/audit.cxx")],
     ["validate(), take_weak_asis(), *_size(), *_space(), junk_*()"],
     "runtime monitoring: independent decoder of the serialized form run after every operation of random histories, under ASan/UBSan and on the release build", NOTE,
     state=[("junk counters", "number and volume of holes", "fast_positive/tuples/details/rw.h")])
prop("C03", "Operations that do not fit fail cleanly, those that fit succeed",
     "When a fixed-capacity tuple has no room for a change, the call throws the insufficient-space exception and every field keeps its previous value, the tuple "
     "stays well-formed and usable. Whenever the free index slot and contiguous free tail space reported by the tuple are enough for the new value, the operation is not "
     "refused. Removing a loose field never fails for lack of space.",
     ["histories", "inputs"], "every history on every capacity, i.e. every point at which space runs out",
     "Tests exhaust the space at one or two points; the refusal can come from about a dozen branches depending on the fragmentation at hand.",
     ["src/gear.cxx", "src/rw.cxx", "src/except.cxx"], [("allocation with exceptions before changes", "src/gear.cxx")],
     ["set_*/insert_*/erase on tuple_rw_fixed with small capacities"],
     "runtime monitoring: exhaustion-driven random histories with an atomicity monitor (model state before = observed state after a refusal)", NOTE)
prop("C04", "Compactification, optimization and sorting preserve content",
     "Compactifying, optimizing or sorting the index of a tuple, or taking an optimized view or copy of it, never changes any field's value, presence or the multiset of "
     "collection items. After compactification no junk is left: the size of the tuple is exactly what its content needs and validation which disallows holes accepts it.",
     ["histories", "inputs"], "every fragmentation state reachable by any history, every size of index",
     "Tests compactify a few small tuples; the moves depend on the relative order of chunks in memory and in the index.",
     ["src/gear.cxx", "src/rw.cxx"], [("two-step compactification and index sort", "src/gear.cxx")],
     ["compactify(), optimize(), sort_index(), take_weak_optimized(), take_managed_clone_optimized(), move_to_ro()"], MODEL, NOTE)
prop("C05", "Serialization round-trips and copies are faithful and independent",
     "A tuple rebuilt from its serialized bytes (read-only view, managed read-only copy, writable copy with or without extra room), cloned, moved between "
     "read-only and writable forms, or shared, has exactly the same fields and values as the original. Copies are independent: changing, purging or destroying "
     "the source or its buffer never alters the copy, and a moved-from tuple is empty. Nested tuples stored in a field are read back as the same bytes. A copy for a given schema is made exactly when the content conforms to that schema. "
     "Creating or copying by a scale (explicit or from fptu::defaults) gives at least the room of that scale, the requested schema and the requested kind of storage, for every schema; creating or copying for given numbers of fields and bytes gives at least that room, "
     "and a request beyond the limits of the format is refused with an exception. Two tuple objects compare equal exactly when they refer to the same tuple in the same place.",
     ["histories", "inputs"], "every tuple reachable by any history, every conversion between the forms",
     "Tests convert a few small tuples.",
     ["src/ro.cxx", "src/rw.cxx", "src/managed.cxx", "fast_positive/tuples.h"], [("create_from_ro / create_from_buffer / move", "src/rw.cxx"), ("managed tuples", "src/managed.cxx")],
     ["constructors from bytes, clone(), move_to_ro(), take_*(), copy/move of tuple_ro_managed"], MODEL, NOTE)
prop("C09", "NIL and absence are handled consistently",
     "A field declared to distinguish absence reads as absent until a value is stored and after it is erased, and storing a zero or empty value makes it present; in a field not so declared "
     "zero/empty and absence are the same, so storing a zero or empty value leaves it absent, taking no space in the loose index. For preplaced fixed-size fields of the distinguishing kind "
     "the type's designated NIL pattern means absence, and every other value of the type is storable and readable.",
     ["histories", "inputs"], "every field type, every value including NaN, infinities, extreme integers and the NIL patterns",
     "Tests cover two or three types with two or three values.",
     ["fast_positive/tuples/details/meta.h", "fast_positive/tuples/details/rw.h", "src/rw.cxx", "src/schema.cxx"],
     [("NIL patterns per type", "fast_positive/tuples/details/meta.h")],
     ["set_*, erase, is_present, get_*, [].exist()"], MODEL, NOTE)
prop("C10", "Iteration visits every stored item exactly once",
     "Iterating over a collection yields exactly the multiset of its items, and iterating over a tuple (all fields, or loose fields only, forwards, backwards, by pre- or "
     "post-increment, by distance and subscript) yields every present field exactly once with its own token, type and value. Erasing or modifying the item under an iterator "
     "affects that item only; erasing a range removes exactly the items of the range and reports their number.",
     ["histories", "inputs"], "every tuple reachable by any history, fragmented ones included",
     "Tests iterate over a few tuples without fragmentation.",
     ["fast_positive/tuples/details/ro.h", "fast_positive/tuples/details/rw.h", "src/ro.cxx", "src/rw.cxx", "src/schema.cxx"],
     [("collection and field iterators", "fast_positive/tuples/details/ro.h")],
     ["collection(), begin()/end(), cbegin_loose()/cend_loose(), erase(iterator), erase(range)"], MODEL, NOTE)
prop("C14", "Autogrowing tuples accept everything the format allows",
     "Any set, insert or erase on an autogrowing managed tuple succeeds as long as the result is within the limits of the format (size and number of fields), however small the initial "
     "capacity was; growth preserves all other content and the hole accounting. Beyond the limits the call fails with an exception and leaves the tuple unchanged.",
     ["histories", "inputs"], "every history and initial capacity",
     "The tests grow one tuple along one path.",
     ["src/autogrowth.cxx", "src/managed.cxx", "src/rw.cxx"], [("space deficit management", "src/autogrowth.cxx")],
     ["set_*/insert_*/erase of tuple_rw_managed"], MODEL, NOTE)

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")).read())

if __name__ == "__main__":
    top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(top, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
    checks = []
    for p in P:
        if p["id"] in SUITES:
            checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"],
                               thorough_cmd="python3 check.py %s thorough" % p["id"],
                               evidence_file="evidence/%s.json" % p["id"], technique=p["_technique"],
                               level="exploration", level_note=p["_note"]))
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
             not_applicable=[dict(property=p["id"], reason="not claimed (yet)") for p in P if p["id"] not in SUITES],
             notes="No hooks were needed in /repo: the monitors observe the public API, the serialized bytes, the allocator call-backs and the sanitizers.")
    with open(os.path.join(top, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    assert set(SUITES) <= {p["id"] for p in P}, set(SUITES) - {p["id"] for p in P}
    for p in P:
        assert len(p["title"]) <= 80, p["id"]

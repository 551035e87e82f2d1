"""Which monitored workloads decide which property."""


def run(flavor, driver, suite, quick, thorough, **kw):
    return dict(flavor=flavor, driver=driver, suite=suite, quick=quick, thorough=thorough, **kw)


MODEL_RULE = ("random histories of API calls on a random schema (or none) with random capacities; every call is mirrored in an "
              "independent typed-map model and the monitors compare after each call; distinct_nontrivial counts distinct "
              "(schema shape, field values) states the monitors saw")
SUITES = {}
SUITES["C01"] = dict(rule=MODEL_RULE, require={"oracle_checks": 1000, "ops_set": 100, "ops_erase": 50},
                     runs=[run("asan", "model", "c01", 8000, 120000), run("rel", "model", "c01.plenty", 250, 6000), run("rel", "model", "c01", 16000, 400000),
                           run("rel", "model", "c01.mid", 3000, 60000), run("rel", "model", "c01.large", 800, 20000),
                           run("rel", "model", "c01.long", 300, 8000),
                           run("dbg", "model", "c01", 2400, 60000), run("rel", "limits", "length", 1500, 30000)])
SUITES["C02"] = dict(rule=MODEL_RULE, require={"oracle_checks": 1000},
                     runs=[run("asan", "model", "c02", 6000, 120000), run("rel", "model", "c02.plenty", 250, 6000), run("rel", "model", "c02", 12000, 400000),
                           run("rel", "model", "c02.mid", 4000, 100000), run("rel", "model", "c02.large", 800, 20000),
                           run("rel", "model", "c02.huge", 200, 4000), run("rel", "model", "c02.many", 150, 3000),
                           run("rel", "model", "c02.long", 300, 8000),
                           run("dbg", "model", "c02", 2000, 40000), run("rel", "limits", "full", 160, 3000)])
SUITES["C03"] = dict(rule=MODEL_RULE, require={"oracle_checks": 1000, "ops_set_failed": 100, "ops_insert_failed": 50},
                     runs=[run("asan", "model", "c03", 8000, 120000), run("rel", "model", "c03.plenty", 250, 6000), run("rel", "model", "c03", 24000, 500000),
                           run("rel", "model", "c03.long", 300, 8000), run("dbg", "model", "c03", 2000, 40000),
                           run("rel", "limits", "full", 80, 2000), run("rel", "limits", "growth", 100, 2000)])
SUITES["C04"] = dict(rule=MODEL_RULE, require={"oracle_checks": 1000, "compactions_with_junk": 200},
                     runs=[run("asan", "model", "c04", 6000, 120000), run("rel", "model", "c04.plenty", 250, 6000), run("rel", "model", "c04", 16000, 400000),
                           run("rel", "model", "c04.mid", 3000, 60000), run("rel", "model", "c04.large", 500, 15000),
                           run("rel", "model", "c04.many", 100, 2000), run("dbg", "model", "c04", 2000, 40000)])
SUITES["C05"] = dict(rule=MODEL_RULE, require={"oracle_checks": 1000, "ops_roundtrip": 500, "ops_clone": 300, "ops_move": 300, "reserves_beyond_limit": 10, "tuples_without_buffer": 300, "alien_conforms": 100, "ops_scaled": 500, "alien_refused": 500, "absurd_refused": 200, "overlay_present": 500},
                     runs=[run("asan", "model", "c05", 7000, 120000), run("rel", "model", "c05.plenty", 250, 6000), run("rel", "model", "c05", 12000, 300000),
                           run("rel", "model", "c05.mid", 2000, 40000), run("rel", "model", "c05.large", 600, 15000),
                           run("rel", "model", "c05.many", 100, 2000), run("dbg", "model", "c05", 2000, 40000),
                           run("rel", "limits", "growth", 100, 2000)])
SUITES["C09"] = dict(rule=MODEL_RULE, require={"oracle_checks": 1000},
                     runs=[run("asan", "model", "c09", 7000, 120000), run("rel", "model", "c09", 24000, 500000),
                           run("dbg", "model", "c09", 2000, 40000)])
SUITES["C10"] = dict(rule=MODEL_RULE, require={"oracle_checks": 1000, "ops_erase_it": 200, "ops_modify_it": 200, "ops_erase_range": 200, "ops_erase_managed": 200, "ops_erase_many": 10, "far_fields": 100},
                     runs=[run("asan", "model", "c10", 5000, 100000), run("rel", "model", "c10.plenty", 400, 10000), run("rel", "model", "c10", 12000, 300000),
                           run("rel", "model", "c10.many", 60, 1500), run("rel", "model", "c10.long", 200, 5000),
                           run("dbg", "model", "c10", 1600, 30000), run("rel", "model", "holes", 20, 200)])
SUITES["C14"] = dict(rule=MODEL_RULE, require={"oracle_checks": 1000, "growth_checked": 1000, "growth_refused": 50, "ops_erase_managed": 200, "ops_erase_grows": 5, "tuples_without_buffer": 100},
                     runs=[run("asan", "model", "c14", 6000, 120000), run("rel", "model", "c14.plenty", 250, 6000), run("rel", "model", "c14", 12000, 300000),
                           run("rel", "model", "c14.mid", 2000, 60000), run("rel", "model", "c14.large", 600, 15000),
                           run("rel", "model", "c14.huge", 400, 8000), run("rel", "model", "c14.many", 150, 3000),
                           run("dbg", "model", "c14", 2000, 40000), run("dbg", "model", "c14.huge", 80, 2000),
                           run("rel", "limits", "growth", 600, 20000), run("asan", "limits", "growth", 120, 4000), run("dbg", "limits", "growth", 16, 400)])
HOSTILE_RULE = ("images made by an independent encoder of the format (random schema, random order of chunks and descriptors, holes), then mutated at bit, byte, field and "
                "unit level or replaced with noise; distinct_nontrivial counts distinct images judged")
SUITES["C06"] = dict(rule=HOSTILE_RULE, require={"oracle_checks": 1000, "hostile_accepted": 1000, "hostile_rejected": 1000, "hostile_modified": 1000},
                     runs=[run("asan", "hostile", "safety", 12000, 400000), run("rel", "hostile", "safety", 30000, 1000000),
                           run("asan", "hostile", "foreign", 1500, 60000)])
SUITES["C07"] = dict(rule=HOSTILE_RULE, require={"oracle_checks": 1000, "hostile_accepted": 1000, "hostile_rejected": 1000, "tilings_accepted": 1000, "tilings_rejected": 1000},
                     runs=[run("rel", "hostile", "tiling", 8000, 300000), run("asan", "hostile", "tiling", 800, 30000), run("asan", "hostile", "verdict", 6000, 200000), run("rel", "hostile", "verdict", 40000, 1000000),
                           run("rel", "hostile", "foreign", 10000, 300000), run("rel", "limits", "full", 60, 2000),
                           run("asan", "model", "c02", 1500, 40000), run("rel", "model", "c02.large", 300, 8000)])
SUITES["C08"] = dict(rule="random numeric fields of every scalar genus and values around every type's limits, set/inserted/read through every generic numeric entry point and compared with exact "
                          "128-bit/long double arithmetic; distinct_nontrivial counts distinct (field kind, value) states", require={"oracle_checks": 1000, "grid_cells": 1000},
                     runs=[run("rel", "numeric", "grid", 1000, 4000), run("asan", "numeric", "grid", 250, 2000), run("asan", "numeric", "numeric", 6000, 200000), run("rel", "numeric", "numeric", 60000, 2000000),
                           run("asan", "numeric", "int128", 3000, 100000), run("rel", "numeric", "int128", 30000, 1000000)])
SUITES["C11"] = dict(rule="random definitions, imports and lookups of fields, each mirrored in an independent model of names, tokens and layout; tuples made by every schema; "
                          "distinct_nontrivial counts distinct schema shapes", require={"oracle_checks": 1000, "estimates": 300, "holes_refused": 300, "imports": 1000, "preplaced_limit": 200, "misaligned": 500, "misaligned_refused": 100, "preplaced_limit_refused": 500},
                     runs=[run("asan", "schema", "schema", 1000, 40000), run("rel", "schema", "schema", 5000, 200000), run("dbg", "schema", "schema", 300, 10000),
                           run("asan", "schema", "statics", 500, 20000), run("rel", "schema", "statics", 4000, 100000)])
SUITES["C12"] = dict(rule="index arrays of every size placed at every kind of page offset incl. against inaccessible pages, surrounded by matching and almost matching items; every implementation the CPU "
                          "supports against a plain loop; distinct_nontrivial counts distinct (size, offset, pattern)", require={"oracle_checks": 100000, "found": 10000, "not_found": 1000},
                     runs=[run("rel", "scan", "sweep", 600, 30000), run("asan", "scan", "sweep", 300, 3000), run("rel", "scan", "random", 3000, 200000), run("asan", "scan", "random", 600, 20000)])
SUITES["C13"] = dict(rule="random histories of making, copying, moving, sharing, converting and dropping buffers, read-only and read-write tuples with counting allocators that can be made to fail at any allocation; "
                          "distinct_nontrivial counts distinct (owners, references, contents) states", require={"oracle_checks": 1000, "faults_injected": 100, "ops_share": 50, "ops_ro2rw": 50, "ops_nested_view": 50, "nomem_refused": 3000, "crowds": 20},
                     runs=[run("asan", "buffers", "life", 2500, 80000), run("rel", "buffers", "life", 16000, 400000), run("dbg", "buffers", "life", 700, 15000),
                           run("rel", "conc", "threads", 300, 8000), run("rel", "nomem", "nomem", 20000, 600000), run("dbg", "nomem", "nomem", 1500, 40000)])
SUITES["C15"] = dict(rule="2..6 threads with random operations and injected yields share read-only tuples, nested views, buffers, a schema and the per-thread error state of the C API; "
                          "distinct_nontrivial counts distinct joint trails of operations", require={"oracle_checks": 1000, "thread_ops": 10000, "handovers": 500, "conversions_in_place": 100, "conversions_to_rw": 300, "legacy_rounds": 300, "schema_lookups": 1000},
                     runs=[run("tsan", "conc", "threads", 2400, 60000), run("rel", "conc", "threads", 12000, 300000), run("asan", "conc", "threads", 600, 20000)])
LEGACY_RULE = ("random histories of the C-compatible API (init/alloc/fetch/upsert/insert/update/erase/shrink/clear, good and bad columns, too small buffers, corrupted input) mirrored in an independent multimap; "
               "distinct_nontrivial counts distinct contents")
SUITES["C16"] = dict(rule=LEGACY_RULE, require={"oracle_checks": 10000, "written": 1000, "refused": 1000, "fetched": 500, "fetched_with_junk": 30, "bad_columns": 300, "wrong_kind": 300, "filled": 100, "shrunk_with_junk": 100, "edges": 500, "edges_max": 50, "helpers": 500},
                     runs=[run("asan", "legacy", "history", 6000, 200000), run("rel", "legacy", "history", 50000, 1500000), run("dbg", "legacy", "history", 2000, 40000)])
SUITES["C17"] = dict(rule="random values and their variations (one bit, last byte, prefix, extension) compared through every comparison function against a plain byte loop; distinct_nontrivial counts distinct (value, verdict)",
                     require={"oracle_checks": 10000, "compared": 1000, "compared_absent": 1000},
                     runs=[run("asan", "legacy", "compare", 3000, 100000), run("rel", "legacy", "compare", 30000, 1000000)])
SUITES["C18"] = dict(rule=LEGACY_RULE, require={"oracle_checks": 10000, "filters": 10000, "erased": 1000, "erased_several": 100, "erased_many": 20, "dead_seen": 100},
                     runs=[run("asan", "legacy", "select", 6000, 200000), run("rel", "legacy", "select", 50000, 1500000), run("dbg", "legacy", "select", 2000, 40000)])
SUITES["C19"] = dict(rule="doubles of uniformly random bits, subnormals, powers of two and ten and their neighbours, integers, short decimals, runs of ones, extremes; integers around powers of ten and two plus blocks of consecutive ones; "
                          "distinct_nontrivial counts distinct (sampled) numbers", require={"oracle_checks": 1000000, "converted": 100000, "decimal_form": 10000, "exponential_form": 10000, "integers": 100000, "fractions": 10000, "exhaustive_blocks": 100},
                     runs=[run("asan", "erthink", "d2a", 160, 8000), run("rel", "erthink", "d2a", 1000, 100000), run("dbg", "erthink", "d2a", 40, 1000), run("alt", "erthink", "d2a", 100, 20000), run("alt", "erthink", "u2a", 60, 10000),
                           run("asan", "erthink", "u2a", 100, 2000), run("rel", "erthink", "u2a", 500, 70000), run("asan", "erthink", "fraction", 100, 4000), run("rel", "erthink", "fraction", 400, 20000)])
SUITES["C20"] = dict(rule="operands with single bits, runs, extremes and random ones through every function against plain loops; distinct_nontrivial counts distinct operands",
                     require={"oracle_checks": 1000000, "carry_chains": 10000, "byte_groups": 10000},
                     runs=[run("asan", "erthink", "ops", 200, 10000), run("rel", "erthink", "ops", 2000, 100000), run("dbg", "erthink", "ops", 60, 2000), run("alt", "erthink", "ops", 300, 30000),
                           run("asan", "util", "bytes", 600, 20000), run("rel", "util", "bytes", 3000, 100000), run("dbg", "util", "bytes", 200, 5000)])
SUITES["C21"] = dict(rule="random histories of allocations and releases on arenas of several sizes, alignments and modes, with contents checked; containers on top; distinct_nontrivial counts distinct histories",
                     require={"oracle_checks": 100000, "arena_exhausted": 100, "heap_chunks": 100, "heap_refused": 30, "arena_reused": 100, "container_copies": 30, "lifo_histories": 50, "arena_resets": 10},
                     runs=[run("asan", "erthink", "arena", 4000, 200000), run("rel", "erthink", "arena", 20000, 1000000), run("dbg", "erthink", "arena", 2000, 60000)])
SUITES["C22"] = dict(rule="random moments incl. midnights, ends of years and februaries, ties of rounding and extremes, against integer arithmetic and a calendar counted day by day; distinct_nontrivial counts distinct moments",
                     require={"oracle_checks": 100000, "datetimes": 10000, "clock_reads": 100},
                     runs=[run("asan", "util", "datetime", 120, 6000), run("rel", "util", "datetime", 1200, 60000), run("dbg", "util", "datetime", 40, 2000)])
SUITES["C23"] = dict(rule="groups of random strings and their one-byte variations in exact-size blocks, all pairs compared by every operator; distinct_nontrivial counts distinct strings",
                     require={"oracle_checks": 100000, "pairs": 10000, "formatted": 1000, "assignments": 1000, "hash_differs": 10000},
                     runs=[run("asan", "util", "strings", 3000, 200000), run("rel", "util", "strings", 20000, 1000000), run("dbg", "util", "strings", 1000, 20000)])
SUITES["C24"] = dict(rule="guards with random signatures under every single-bit and random byte damages; guarded blocks and buffers of random sizes with one byte next to them damaged; distinct_nontrivial counts distinct guards and placements",
                     require={"oracle_checks": 1000000, "guard_caught": 1000, "guard_clean": 300, "buffer_caught": 1000, "headers_caught": 1000, "weak_buffers": 300, "polluted": 10000},
                     runs=[run("asan", "util", "guards", 300, 20000), run("rel", "util", "guards", 2000, 100000), run("dbg", "util", "guards", 100, 3000), run("rel", "util", "memory", 300, 20000)])
SUITES["C25"] = dict(rule="random histories of API calls executed twice over memory that held different garbage, images compared after every call; distinct_nontrivial counts distinct states",
                     require={"oracle_checks": 100000, "images_compared": 100000, "legacy_images": 20000, "padding_bytes": 100000, "ops_scaled": 500, "ops_clone": 300, "ops_set_failed": 100},
                     runs=[run("rel", "twin", "twin", 12000, 400000), run("rel", "twin", "twin.mid", 1500, 40000), run("rel", "twin", "twin.large", 300, 8000), run("rel", "twin", "twin.plenty", 150, 4000),
                           run("rel", "twin", "twin.long", 200, 6000), run("rel", "twin", "legacy", 20000, 1000000)])

# where a quick run takes little time, it does more (the counts above are relative to each other)
for _id, _k in dict(C02=5, C03=2, C04=3, C05=3, C10=2, C12=2, C14=2, C17=10, C18=2, C21=5, C22=10, C23=5, C24=3, C25=6).items():
    for _r in SUITES[_id]["runs"]:
        _r["quick"] = min(_r["quick"] * _k, _r["thorough"])

# further properties (exec'ed by props.py)
HOSTILE = "runtime monitoring: ASan/UBSan and exact-size buffers over mutated and independently encoded images, with an independent decoder as the oracle"
prop("C06", "Untrusted bytes are handled memory-safely",
     "Given any byte sequence, validation never reads outside of it, never crashes and always terminates. If a serialized tuple passes validation, then everything that may be done with it "
     "(reading and iterating every field through a schema or without it, copying, making it writable, modifying, compactifying, re-serializing) never accesses memory outside of the tuple and the buffers made for it, never "
     "crashes, and fails only with the documented exceptions. Constructors that validate reject exactly what validation rejects.",
     ["inputs", "histories"], "every byte sequence of every length, with every schema, followed by any sequence of operations",
     "Tests check a few hand-made broken headers.",
     ["src/audit.cxx", "src/ro.cxx", "src/gear.cxx", "fast_positive/tuples/details/field.h"],
     [("audit_tuple()", "src/audit.cxx"), ("lite checkup", "src/audit.cxx")],
     ["tuple_ro_weak::validate(), constructors from bytes, reads and writes afterwards"], HOSTILE, NOTE)
prop("C07", "Validation accepts exactly the well-formed tuples",
     "Validation accepts a byte sequence if and only if it is a well-formed tuple for the given schema: the header matches the length, the preplaced area matches the schema, every payload chunk and hole "
     "lies within the tuple, no two overlap, none of the payload belongs to nobody, lengths of variable-size values are consistent, and a tuple marked as sorted is sorted. When holes are not allowed it "
     "additionally rejects exactly the tuples having holes. Well-formed tuples made by another implementation of the format are accepted, read back with the values they encode and can be modified.",
     ["inputs"], "every byte sequence and schema; every well-formed tuple regardless of the order of its chunks and descriptors",
     "Tests validate what the library itself made and a few hand-made headers.",
     ["src/audit.cxx", "fast_positive/tuples/details/field.h", "src/ro.cxx"],
     [("audit_tuple()", "src/audit.cxx"), ("payload map of the validator", "src/audit.cxx")],
     ["tuple_ro_weak::validate() with and without holes allowed, enforce_validation constructors"], HOSTILE, NOTE)
prop("C08", "Numbers are stored exactly or refused",
     "Every generic numeric operation (setting, inserting, assigning and reading a field as integer, unsigned, float, number or 128-bit integer) on a field of any numeric type either stores and returns exactly the "
     "given mathematical value (rounded only where a floating-point field of that precision inherently rounds) or throws value_out_of_range, type_mismatch or the like and leaves the tuple unchanged. No value is "
     "ever silently truncated, wrapped, sign-changed or turned into another one.",
     ["inputs"], "every value of every supported arithmetic type into and out of every numeric field type, preplaced and loose, in fixed-size and autogrowing tuples",
     "Tests try a few values per type.",
     ["fast_positive/tuples/details/rw.h", "fast_positive/tuples/details/ro.h", "fast_positive/tuples/details/getter.h", "src/rw.cxx", "src/ro.cxx", "src/autogrowth.cxx"],
     [("numeric range checks", "fast_positive/tuples/details/rw.h"), ("generic getters", "fast_positive/tuples/details/getter.h")],
     ["get/set/insert _integer _unsigned _float _number _int128 _uint128"], MODEL, NOTE)
prop("C11", "Schema: names, tokens and layout are consistent",
     "A schema maps field names to tokens one to one: every defined field is found by its name (and only by it) with the type, placement and flags it was defined with, the name of a token is the one it was defined with, "
     "iterating gives exactly the defined fields in order. Preplaced fields never overlap, are aligned (imported ones of a fixed size may lie at any offset), lie within the schema's fixed area and have the given initial value in every tuple made by the schema. "
     "Invalid, duplicate, misaligned or overflowing definitions are refused and change nothing. Importing a token from elsewhere, in any order, keeps all that. Tokens defined at compile time act exactly as the equal ones defined at run time.",
     ["inputs", "histories"], "every sequence of definitions, imports and lookups, up to the limits of the format",
     "Tests define a few fixed schemas.",
     ["src/schema.cxx", "fast_positive/tuples/schema.h", "fast_positive/tuples/token.h", "fast_positive/tuples/details/meta.h"],
     [("define_preplaced/define_loose/import_definition", "src/schema.cxx"), ("by_loose/by_offset", "src/schema.cxx")],
     ["schema::create/define_*/import_definition/get_token/get_name/tokens", "static tokens"], MODEL, NOTE)
prop("C12", "Index search finds the first match and nothing else",
     "The search for a field in the index of loose items, in every implementation selectable at run time (portable, unrolled, SSE2, AVX, AVX2 and the dispatched one), returns exactly the first item "
     "whose type and identifier are the wanted ones, or nothing if there is none, for every number of items, position, content and placement in memory, and never touches memory which may be inaccessible "
     "(i.e. pages that hold none of the items).",
     ["inputs"], "every array of items of every size and alignment, with every searched value",
     "Tests search small arrays at one placement; only the implementation selected for the current CPU is exercised elsewhere.",
     ["src/scan_portable.cxx", "src/scan_SSE2.cxx", "src/scan_AVX.cxx", "src/scan_AVX2.cxx", "src/scan_ifunc.cxx", "fast_positive/tuples/details/scan.h"],
     [("fptu_scan dispatch", "src/scan_ifunc.cxx")],
     ["fptu::details::fptu_scan and implementations, used by every loose field lookup"],
     "runtime monitoring: guard pages, ASan and a plain-loop oracle over exhaustive small placements and random large ones", NOTE)
prop("C13", "Buffers live exactly as long as they are used",
     "Every buffer behind a managed tuple is released exactly once, to the allocator it came from, when and only when the last tuple, view or buffer handle referring to it is gone; nothing is leaked and nothing is read "
     "after the release, however tuples are copied, moved, swapped, assigned (also to themselves), shared, converted between read-only and read-write forms or made from parts of other ones. A shared buffer is never modified: "
     "writing through one owner never changes what another owner reads. When an allocation fails at any point, the operation throws std::bad_alloc (or the like), the source objects stay intact and nothing is leaked.",
     ["histories", "fault_sequences"], "every history of ownership operations, every point of an allocation failure",
     "Tests make and drop a few tuples with the default allocator which never fails.",
     ["src/managed.cxx", "src/1Hippeus/buffer.cxx", "src/1Hippeus/allot.cxx", "fast_positive/tuples/1Hippeus/buffer.h", "fast_positive/tuples.h", "src/rw.cxx", "src/autogrowth.cxx"],
     [("reference counting of buffers", "src/1Hippeus/buffer.cxx"), ("managed tuples", "src/managed.cxx")],
     ["constructors, assignments, take_*, clone_*, release_* of tuple_ro_managed, tuple_rw_managed, tuple_rw_fixed; hippeus::buffer; calls of allocators"],
     "runtime monitoring: counting and fault-injecting allocators with content oracles over random ownership histories, under ASan/UBSan/LSan", NOTE)
prop("C15", "Sharing read-only data between threads is safe",
     "Any number of threads may concurrently read, copy, convert and drop read-only managed tuples which share buffers, look up fields in a shared schema and use tuples of their own without any synchronization: there are no data races, "
     "every thread sees exactly the published content, every buffer is released exactly once, and conversion to the read-write form in place happens only when nobody else owns the buffer. The error state and other "
     "transient results of the C-compatible API are per thread.",
     ["schedules", "histories"], "every interleaving of any number of threads sharing immutable tuples and handing ownership over",
     "The unit tests are single-threaded.",
     ["src/1Hippeus/buffer.cxx", "fast_positive/tuples/1Hippeus/buffer.h", "src/managed.cxx", "src/compat_common.cxx", "src/compat_field.cxx", "src/schema.cxx"],
     [("atomic reference counter", "src/1Hippeus/buffer.cxx"), ("thread-local error state", "src/compat_common.cxx")],
     ["tuple_ro_managed copies in several threads, tuple_rw_managed(tuple_ro_managed&&), fptu_last_error_*"],
     "runtime monitoring: ThreadSanitizer and content/ownership monitors over randomized multi-threaded schedules with injected delays", NOTE)
prop("C16", "The C-compatible API is a faithful tuple with documented error codes",
     "Through the C-compatible API (fptu_init/alloc/fetch, upsert, insert, update, erase, shrink, clear, get_*, field_*) a tuple is a multimap from (column, type) to values: upsert sets the first value or adds one, "
     "insert adds one, update changes the first one or fails with FPTU_ENOFIELD, and reads return exactly the stored values (a returned string stays valid until the next string is requested by the same thread). "
     "Functions never throw; a failure returns the documented code (ENOSPACE, ENOFIELD, EINVAL), is recorded as the thread's last error and changes nothing. A buffer of the size given by fptu_space() or fptu_*get_buffer_size*() "
     "accommodates the promised number of items and bytes, insertions are refused only for lack of space, shrinking frees exactly the junk reported, and a fetched tuple has the content and junk of the original. "
     "Column numbers beyond the limit and values of another type are refused; corrupted input is rejected or safe.",
     ["histories", "inputs"], "every history of calls of the C-compatible API, every column number, type, value and buffer size",
     "Tests go through fixed scenarios, mostly a single column and type at once.",
     ["src/compat_rw.cxx", "src/compat_ro.cxx", "src/compat_field.cxx", "src/compat_common.cxx", "fast_positive/tuples/legacy.h", "fast_positive/tuples/details/legacy_compat.h", "src/rw.cxx", "src/gear.cxx"],
     [("C-compatible wrappers", "src/compat_rw.cxx"), ("error state", "src/compat_common.cxx")],
     ["fptu_* functions and fptu_last_error_code/msg"], MODEL, NOTE)
prop("C17", "Comparisons of binary values give the lexicographic order",
     "The comparison functions of the C-compatible API (fptu_cmp_binary, fptu_cmp_opaque, fptu_cmp_opaque_iov, fptu_cmp_96/128/160/256) give the lexicographic order of unsigned bytes, a proper prefix being less; the result is antisymmetric and "
     "transitive, equal exactly for equal bytes. An absent fixed-size field or a null value is incomparable; an absent opaque field equals only the empty value.",
     ["inputs"], "every pair of byte strings and every field",
     "Tests compare a few values.",
     ["src/compat_ro.cxx", "src/compat_common.cxx", "fast_positive/tuples/details/legacy_compat.h"],
     [("fptu_cmp_binary", "src/compat_common.cxx")], ["fptu_cmp_* functions"],
     "runtime monitoring: oracle comparison with a plain byte loop and algebraic laws over random and near-equal values, under ASan/UBSan", NOTE)
prop("C18", "Selecting, counting and erasing by column and type are exact",
     "In the C-compatible API, lookup, iteration (fptu_first/fptu_next and the variants with an external filter), counting and erasing by column and type or by column and a mask of types act on exactly the matching live fields: "
     "each once, in the order of the index, never an erased one; erasing by type removes the first match, erasing by mask removes all of them, both return the number of removed fields and leave all the others intact. "
     "Descriptions of a field (type, column, bytes) are those it was stored with; an erased one is reported as dead with a negative column and no bytes. Emptiness is reported exactly when no field is left.",
     ["histories", "inputs"], "every history leading to any mix of live and erased fields, every column and mask",
     "Tests use a few fixed columns and masks.",
     ["src/compat_common.cxx", "src/compat_rw.cxx", "src/compat_ro.cxx", "src/compat_field.cxx", "src/gear.cxx"],
     [("fptu_first/fptu_next/match()", "src/compat_common.cxx"), ("fptu_erase", "src/compat_common.cxx")],
     ["fptu_lookup_*, fptu_first*, fptu_next*, fptu_field_count_*, fptu_erase*, fptu_field_*"], MODEL, NOTE)
PLAIN = "runtime monitoring: exact-size guarded buffers and ASan/UBSan around the real functions, with independent plain implementations as the oracle"
prop("C19", "Numbers as text read back exactly",
     "Every finite double printed by d2a_accurate, d2a_fast, output_double or shodan_printer is a well-formed decimal number which reads back (strtod) as exactly the same double, signed zero included, "
     "takes no more than the stated number of characters and is written strictly within the given buffer; NaN and infinities are printed as such. The accurate form has at most 17 significant digits and is the "
     "shortest one (and the nearest to the value) for at least 99% of doubles. shodan_printer uses the decimal form exactly within its exponent limits, always with a dot and digits at both sides of it. "
     "Fractions of fixed-point values are printed exactly enough to be restored. u2a and i2a print every 32- and 64-bit integer exactly as its shortest decimal notation.",
     ["inputs"], "every 64-bit pattern of a double, every integer, every fraction",
     "Tests check random samples of round-trip of the default printer, a few integers, and nothing about bounds of buffers.",
     ["fast_positive/erthink/erthink_d2a.h", "fast_positive/erthink/erthink_u2a.h", "fast_positive/erthink/erthink_misc.h"],
     [("grisu::convert/make_digits, printers", "fast_positive/erthink/erthink_d2a.h"), ("u2a/i2a", "fast_positive/erthink/erthink_u2a.h")],
     ["erthink::d2a_accurate/d2a_fast/output_double, grisu::shodan_printer, grisu::fractional_printer, u2a, i2a"], PLAIN, NOTE)
prop("C20", "Bit and byte arithmetic is exact",
     "Byte-order conversions (bswap, h2le, h2be, le2h, be2h) of every width and sign are exact permutations of bytes and their own inverses; counting of leading zeros (built-in and fallback), 32x32 and 64x64 "
     "multiplications, additions with carry in chains of any length, absolute values, checks for all-zeros and all-ones, rounding to alignments, sizes by powers of two and tagged pointers give "
     "exactly the mathematical results for every operand, without undefined behaviour.",
     ["inputs"], "every operand of every supported width",
     "Tests try single bits and a few constants.",
     ["fast_positive/erthink/erthink_bswap.h", "fast_positive/erthink/erthink_endian.h", "fast_positive/erthink/erthink_clz.h", "fast_positive/erthink/erthink_mul.h", "fast_positive/erthink/erthink_carryadd.h",
      "fast_positive/erthink/erthink_misc.h", "fast_positive/erthink/erthink_casting.h", "fast_positive/tuples/details/utils.h", "fast_positive/tuples/details/tagged_pointer.h", "src/1Hippeus/utils.cxx"],
     [("clz, fallback_clz", "fast_positive/erthink/erthink_clz.h"), ("is_zero/is_allones", "fast_positive/tuples/details/utils.h")],
     ["erthink::bswap/h2be/clz/mul_64x64_128/add64carry_*/branchless_abs/bit_cast, fptu::utils, fptu::tagged_pointer, hippeus::log2size"], PLAIN, NOTE)
prop("C21", "An arena never hands out memory twice nor beyond its bounds",
     "allocation_arena/short_alloc give chunks which are aligned, don't overlap any chunk in use, lie either wholly inside the arena or (only if outliving is allowed) in the heap, and leave everything else untouched. "
     "What fits into the rest of the arena is taken from it; what doesn't, including sizes that overflow, comes from the heap or is refused by an exception that changes nothing. Chunks released in the reverse order give "
     "all the room back, everything taken from the heap is returned to it, and containers using it behave as ordinary ones, also when copied, moved and assigned.",
     ["histories", "inputs"], "every sequence of allocations and releases of any sizes, every arena size and alignment",
     "Tests run one short sequence.",
     ["fast_positive/erthink/erthink_short_alloc.h"],
     [("allocation_arena::allocate/deallocate", "fast_positive/erthink/erthink_short_alloc.h")],
     ["erthink::allocation_arena, erthink::short_alloc"], PLAIN, NOTE)
prop("C22", "Date-times convert, order and print exactly",
     "A date-time made from seconds, milliseconds, microseconds, nanoseconds, 100-nanosecond ticks, time_t, timespec or timeval is the 32.32 fixed-point value of that moment rounded down, and converting its fraction back "
     "gives units rounded down; date-times are ordered as the moments they denote. The text form is the UTC calendar date and time rounded to the nearest nanosecond with a proper carry, for every value up to the year 2106. "
     "The current time lies between the readings of the system clock before and after the call (of its coarse variant only when the requested accuracy permits) and has exactly the requested number of low bits cleared.",
     ["inputs"], "every 64-bit date-time, every number of units",
     "Tests convert a few values.",
     ["fast_positive/tuples/types/datetime.h", "src/time.cxx", "src/debug.cxx"],
     [("conversions", "fast_positive/tuples/types/datetime.h"), ("fptu_now", "src/time.cxx"), ("to_string(datetime)", "src/debug.cxx")],
     ["fptu::datetime_t, std::to_string(fptu::datetime_t), fptu_now, fptu_now_fine, fptu_now_coarse"], PLAIN, NOTE)
prop("C23", "String views and formatting are exact",
     "fptu::string_view denotes exactly the given bytes (zero bytes and bytes above 127 included) without ever reading beyond them; comparison is a strict total order (absent before empty, then shorter before longer, then by unsigned bytes), "
     "the same for all operators and for std::string on either side; equal views have equal hashes, so ordered and unordered containers find exactly what was put in; conversions to and from std::string and "
     "std::string_view keep the bytes; at() beyond the end throws std::out_of_range. fptu::format gives what snprintf with enough room would give for results of any length and fptu::hexadecimal is the exact lower-case dump.",
     ["inputs"], "every sequence of bytes and every pair of them, every length of a formatted result",
     "Tests cover a few literals.",
     ["fast_positive/tuples/string_view.h", "src/misc.cxx"],
     [("string_view::compare, hash_value", "fast_positive/tuples/string_view.h"), ("format_va, hexadecimal", "src/misc.cxx")],
     ["fptu::string_view, std::hash<fptu::string_view>, fptu::format, fptu::hexadecimal"], PLAIN, NOTE)
prop("C24", "Memory guards notice damage and nothing else",
     "A guard set up with a signature is accepted with that signature and rejected after any damage of its bytes, with any other signature or after being drowned (except for a chance of 2^-32). hipagut_allocator and buffers put guards right "
     "before and after the memory they give out: writing anything inside is fine, any changed byte within the guards next to it makes releasing/checking fail with an error, and restoring the byte makes it valid again. A buffer whose header is damaged, has no host or no references is refused, and one handed back to its allocator no longer looks alive. "
     "pollute() changes only and all of the given bytes and is undone by repeating, is_zeroed() is true exactly for non-empty zeros, at any alignment and length; probing pages never changes their contents.",
     ["inputs", "fault_sequences"], "every damage of a guard, every size and alignment",
     "Tests check a handful of guards and never damage the ones of buffers.",
     ["src/1Hippeus/hipagut.cxx", "fast_positive/tuples/1Hippeus/hipagut.h", "fast_positive/tuples/1Hippeus/hipagut_allocator.h", "src/1Hippeus/buffer.cxx", "src/1Hippeus/utils.cxx"],
     [("hipagut_setup/hipagut_probe", "src/1Hippeus/hipagut.cxx"), ("buffer::check/ensure", "src/1Hippeus/buffer.cxx")],
     ["hipagut_setup/hipagut_probe/hipagut_drown, hippeus::hipagut_allocator, hippeus::buffer::check/ensure, hippeus::pollute/is_zeroed"],
     "runtime monitoring: damage injected into guards and around guarded memory, byte-exact oracles, under ASan/UBSan where accesses are byte-exact", NOTE)
prop("C25", "A serialized tuple depends on nothing but its history",
     "The serialized form of a tuple (taken as is or compacted, in managed, caller-supplied or plain memory, through the C++ or the legacy C API) is determined by the schema and the calls made on it: the same calls give the same bytes and the same outcomes "
     "whatever the memory held before and wherever it lies, so that nothing of uninitialized memory leaves the process with a tuple. The bytes that only fill the preplaced area, a text or a binary value up to a whole 4-byte unit are zeros.",
     ["histories", "configurations"], "every history of calls over every previous content of memory",
     "Tests run once over whatever the memory holds and compare values, not bytes.",
     ["fast_positive/tuples/details/rw.h", "src/rw.cxx", "src/gear.cxx", "fast_positive/tuples/details/field.h", "src/autogrowth.cxx", "src/compat_rw.cxx"],
     [("tuple_rw::tuple_rw, tuple_rw::reset", "fast_positive/tuples/details/rw.h"), ("stretchy_value_*::store", "fast_positive/tuples/details/field.h")],
     ["tuple_rw_fixed/tuple_rw_managed::take_*, fptu_take, fptu_take_noshrink"],
     "runtime monitoring: every history is executed twice over memory filled with different garbage by an interposed malloc (or in two prefilled spaces for the C API), the images after every call are compared byte by byte", NOTE)

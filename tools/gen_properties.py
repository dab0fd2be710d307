#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one line per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe_at, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=observe_at, hook_needed=hook)))

p("C01", "No input and no call sequence crashes the library",
  "For every byte slice (valid, truncated, corrupt or adversarial) and every sequence of public calls with any arguments, each call returns normally with a value, None or an NtHiveError. It never panics, overflows arithmetic or the stack, reads or writes outside the given slice, or executes undefined behaviour. This includes headers with a wrong signature, cells of size zero, nil or far out-of-range offsets in any offset field, cyclic key graphs, and value data of unexpected length.",
  ["inputs", "histories"], "all byte strings x all sequences of public API calls and arguments",
  "The unit tests read exactly one well-formed 156 KiB hive; no test ever feeds a damaged byte, so none of the error branches is executed.",
  ["src/hive.rs", "src/key_node.rs", "src/key_value.rs", "src/big_data.rs", "src/leaf.rs", "src/index_root.rs", "src/key_values_list.rs", "src/helpers.rs"],
  [("checked sub-ranging of every structure", "src/helpers.rs byte_subrange"), ("cell bounds/size checks before any access", "src/hive.rs cell_range_from_data_offset"), ("forbid(unsafe_code) and checked arithmetic", "src/lib.rs, iterator nth implementations")],
  ["return of every public call; panic hook; signal of the process; ASan/Miri reports"])
p("C02", "Every call does bounded work; subkey lookup is logarithmic",
  "Every single public call terminates, on every input including cyclic and self-referencing hives, after an amount of work bounded by the size of the structures it inspects; an iterator yields at most as many items as the on-disk count of its list(s) declares. Finding one subkey by name in a list of n subkeys inspects O(log n) entries, whether they are held in one leaf or spread over an index root.",
  ["inputs", "histories"], "all byte strings, all list sizes up to the 16-bit maximum, all looked-up names",
  "The largest list the tests search has 512 entries in one fixed shape and nothing counts accesses, so a linear or unbounded search passes; no cyclic hive is ever tried.",
  ["src/key_node.rs", "src/index_root.rs", "src/leaf.rs", "src/hive.rs", "src/key_values_list.rs", "src/big_data.rs"],
  [("binary search over leaf and index-root items", "src/key_node.rs binary_search_subkey_in_index_root / binary_search_subkey_in_leaf"), ("item ranges that only advance", "src/leaf.rs, src/index_root.rs, src/key_values_list.rs Iterator::next"), ("nesting and node-count limit of the recursive traversal", "src/key_node.rs clear_volatile_subkeys")],
  ["number of accesses to the caller-supplied byte slice during one call; number of items yielded"])
p("C03", "Enumeration yields exactly the tree that is stored",
  "For every well-formed hive, walking from the root key through the subkey and value iterators yields exactly the stored keys and values: each one once, none missing or invented, in on-disk list order, with its exact name bytes and name encoding, class name, data type code and data size. This holds for every subkey list form (index leaf, fast leaf, hash leaf, index root over any mix of them), every list length, every cell placement and every supported minor version; a key without subkeys, values or class name reports None for it.",
  ["inputs", "configurations"], "all well-formed hives: all trees, list forms, partitions, list lengths, cell layouts and name encodings",
  "Tests enumerate one 512-key list of one form and check only its names; class names, mixed index roots, li leaves, values iteration and other layouts are never exercised.",
  ["src/subkeys_list.rs", "src/leaf.rs", "src/index_root.rs", "src/key_values_list.rs", "src/key_node.rs", "src/key_value.rs", "src/hive.rs"],
  [("signature-directed dispatch and item sizes", "src/subkeys_list.rs SubKeyNodes::new, src/leaf.rs LeafType::item_size"), ("cell resolution", "src/hive.rs cell_range_from_data_offset"), ("two-level iteration of index roots", "src/index_root.rs IndexRootKeyNodes::next")],
  ["items returned by KeyNode::subkeys, KeyNode::values, names, class names, types and sizes of each"])
p("C04", "Subkey lookup agrees with enumeration",
  "For every key of a hive whose subkey lists are sorted the way Windows sorts them, looking up a subkey by name returns the enumerated subkey whose name matches case-insensitively if there is one, and None otherwise. The result does not depend on the list form, on how an index root is partitioned, on the position of the name in the list, on its letter case or storage encoding, or on the name hints or hashes stored beside the entries.",
  ["inputs", "configurations"], "all sorted subkey lists x all looked-up names, present or absent",
  "Tests look up 512 ASCII names in one list; absent names next to or between entries, other partitions, index roots with single or many leaves, and non-ASCII ordering are not sampled.",
  ["src/key_node.rs", "src/index_root.rs", "src/leaf.rs", "src/string.rs"],
  [("binary search with first/last probe per index-root leaf", "src/key_node.rs binary_search_subkey_in_index_root"), ("binary search inside a leaf", "src/key_node.rs binary_search_subkey_in_leaf"), ("UTF-16 uppercase ordering", "src/string.rs cmp_iter")],
  ["result of KeyNode::subkey versus the sequence from KeyNode::subkeys"])
p("C05", "Subpath traversal equals stepwise subkey lookup",
  "For every key and every path string, following the path gives the same result as looking up each backslash-separated non-empty component in turn: leading, trailing and repeated backslashes are ignored, a path without components yields the key itself, a missing component yields None, and an error met on the way is returned as an error. Only the backslash separates components.",
  ["inputs"], "all hives x all start keys x all path strings",
  "Tests try a dozen literal paths of ASCII names at most two levels deep.",
  ["src/key_node.rs"],
  [("component loop over split('\\\\')", "src/key_node.rs subpath")],
  ["result of KeyNode::subpath versus a fold of KeyNode::subkey"])
p("C06", "Value lookup returns the first matching value or says why not",
  "Looking up a value by name returns the first value in list order whose name matches case-insensitively, and None if every value was readable and none matches. If a value entry or its name cannot be read before a match is found, the lookup returns that error; it never returns a value whose name does not match the requested one.",
  ["inputs"], "all value lists (any length, order, encodings, duplicates, corrupt entries) x all looked-up names",
  "Tests look up a few present ASCII names in intact lists; no corrupt entry, duplicate, empty (default) or non-Latin1 name is tried.",
  ["src/key_node.rs", "src/key_values_list.rs", "src/key_value.rs"],
  [("linear search over KeyValues", "src/key_node.rs value")],
  ["result of KeyNode::value versus the sequence from KeyNode::values"])
p("C07", "Name comparison is Windows' case-insensitive UTF-16 total order",
  "Comparing two names, or a name and a string in either direction, compares their UTF-16 code units lexicographically after mapping each unit of the Basic Multilingual Plane to its one-to-one uppercase equivalent in the Unicode character database (version 13); nothing else is folded. The result depends only on the code units, not on whether a name is stored as Latin1 or UTF-16; equality, ordering and all mixed name/string comparisons agree with each other and form a total order.",
  ["inputs"], "all pairs and triples of names in both encodings and strings; all 65536 code units",
  "Tests compare about ten literals; the uppercase table has over 1100 rows of which the tests touch fewer than ten.",
  ["src/string.rs"],
  [("BMP uppercase table and binary search in it", "src/string.rs BMP_UPPERCASE_TABLE, utf16_code_unit_to_uppercase"), ("code-unit comparison", "src/string.rs cmp_iter and the PartialEq/PartialOrd impls")],
  ["Ord/PartialOrd/PartialEq results of NtHiveNameString and str"])
p("C08", "Names decode losslessly to text",
  "Converting a name to text maps each Latin1 byte to the Unicode character of the same number and decodes UTF-16LE names including surrogate pairs: the checked conversion returns the exact text, or None exactly when the name contains an unpaired surrogate; the lossy conversion and Display give the same text with each unpaired surrogate replaced by U+FFFD. A byte left over after the last whole code unit is ignored. Length is the stored byte count and emptiness means length zero.",
  ["inputs"], "all name byte strings in both encodings",
  "Tests check only len/is_empty of \"Hello\" and never call the conversions on non-ASCII or malformed UTF-16.",
  ["src/string.rs"],
  [("decode_utf16 / byte as char", "src/string.rs to_string_checked, to_string_lossy, Display::fmt, len, is_empty")],
  ["results of to_string_checked, to_string_lossy, Display, len, is_empty"])
p("C09", "Raw value data is returned exactly in every storage form",
  "For every value of a well-formed hive, the raw data returned is byte-for-byte the stored data with exactly the stored size, whether it is held inside the value record (at most 4 bytes), in one cell (up to 16344 bytes, or of any size in hives of minor version 3 and older, which have no big data) or in a big-data structure of several segments (larger data in newer hives). Concatenating the pieces of segmented data in order gives the whole data, every piece but the last being full; padding beyond the size is never returned.",
  ["inputs"], "all data sizes and contents, all three storage forms, all segment placements",
  "Tests cover three sizes around 16344 with constant fill bytes, so swapped, repeated or shifted segments and any size above two segments go unnoticed.",
  ["src/key_value.rs", "src/big_data.rs"],
  [("three-way storage decision", "src/key_value.rs data"), ("segment iteration with bytes_left", "src/big_data.rs BigDataSlices::next"), ("concatenation", "src/key_value.rs into_vec")],
  ["KeyValue::data, KeyValueData::into_vec, BigDataSlices items, KeyValue::data_size"],
  [("bytes_left", "data bytes not yet returned", "src/big_data.rs BigDataSlices")])
p("C10", "String and integer accessors are type-checked and exact",
  "The string, DWORD and QWORD accessors succeed only for their own registry types (REG_SZ or REG_EXPAND_SZ; REG_DWORD or REG_DWORD_BIG_ENDIAN; REG_QWORD) and, for the integers, only for exactly 4 or 8 data bytes; otherwise they return an error. A successful result is the UTF-16LE text up to the first NUL or the end (unpaired surrogates replaced by U+FFFD) or the integer in the declared byte order, independent of how the data is stored, including text spanning big-data segments. Unknown type codes are reported as an error, known ones as the matching type.",
  ["inputs"], "all type codes x all data contents and lengths x all storage forms",
  "Tests read one good value per type; wrong lengths, wrong types, invalid UTF-16, embedded NULs and characters across segment boundaries are not tried.",
  ["src/key_value.rs", "src/big_data.rs"],
  [("type and length checks", "src/key_value.rs string_data, dword_data, qword_data, data_type"), ("lossy UTF-16 decoding over segments", "src/key_value.rs utf16le_to_string_lossy")],
  ["results of string_data, dword_data, qword_data, data_type"])
p("C11", "Multi-string iteration yields the stored lines in order, then stops",
  "For every REG_MULTI_SZ value the iterator yields, in order, exactly the NUL-terminated strings stored up to the first empty string or the end of the data, accepting a missing final terminator; from then on it yields None forever. The lines do not depend on whether or where the data is split into big-data segments, and unpaired surrogates are replaced by U+FFFD; other value types are rejected with an error.",
  ["inputs", "histories"], "all multi-string data contents, lengths and segmentations x all call histories of the iterator",
  "Tests iterate two lists of two lines; data after the empty string, missing terminators, boundary-crossing terminators or surrogate pairs, and three or more segments are not tried.",
  ["src/key_value.rs", "src/big_data.rs"],
  [("character iterator re-seeded per segment", "src/key_value.rs RegMultiSZStrings::next")],
  ["sequence returned by KeyValue::multi_string_data, including calls after None"],
  [("char_iter / big_iter", "position within the current segment and remaining segments", "src/key_value.rs RegMultiSZStrings")])
p("C12", "Header validation accepts exactly the supported, intact headers",
  "Opening with validation succeeds exactly when the input holds a full 4096-byte base block with the hive signature, equal sequence numbers, version 1.x with minor at least 3, primary file type, memory format, a data size that is a multiple of 4096 and no larger than the bytes present, clustering factor 1, and a stored checksum equal to the XOR-32 of the preceding bytes with 0 mapped to 1 and all-ones mapped to all-ones minus 1. In particular every single-bit corruption of the first 512 bytes is rejected; an error names a condition that is actually violated. Opening without validation only requires the 4096 bytes, and validating later gives the same verdict. The version numbers reported are those of the header, and the named minor versions stand for the numbers 0 to 6.",
  ["inputs", "fault_sequences"], "all base blocks; all single- and multi-bit corruptions of the first 512 bytes",
  "Tests open one valid header; no rejection branch, no checksum corner (0, all-ones) and no other version is executed.",
  ["src/hive.rs"],
  [("validate_* chain", "src/hive.rs validate"), ("checksum rule", "src/hive.rs validate_checksum")],
  ["results of Hive::new, Hive::without_validation, Hive::validate, major_version, minor_version"])
p("C13", "Clearing volatile subkey counts touches nothing else and misses no key",
  "After clear_volatile_subkeys succeeds on a well-formed hive, the volatile subkey count of the root and of every key reachable through subkey lists is zero, whatever list forms hold them and however deep (down to the 512 levels Windows allows); every other byte of the buffer is unchanged, and all names, values and lookups read as before. Running it again changes nothing. If it fails on a damaged hive it returns an error, and only volatile subkey counts of keys reachable from the root were written.",
  ["inputs", "fault_sequences"], "all well-formed and damaged hives, all tree shapes and list forms",
  "The only test calls it once and checks is_ok(); the test hive has no nonzero volatile count, so doing nothing, skipping keys or writing elsewhere all pass.",
  ["src/hive.rs", "src/key_node.rs", "src/subkeys_list.rs", "src/leaf.rs", "src/index_root.rs"],
  [("recursive mutable traversal", "src/key_node.rs KeyNodeMut::clear_volatile_subkeys"), ("mutable subkey iterators", "src/index_root.rs IndexRootKeyNodesMut::next, src/leaf.rs LeafKeyNodesMut::next")],
  ["byte-wise difference of the buffer before and after; return value"])
p("C14", "Iterators obey the Iterator, ExactSize and Fused contracts",
  "For every iterator the library returns, in every state reached by any mix of calls, count, last, nth and collecting agree with what repeated next calls would yield, size hints are correct bounds, the exact length (where offered) equals the number of items still to come, and once an iterator has returned None every further call returns None. Cloning gives an independent iterator continuing from the same position, and an error item does not derail the items after it.",
  ["inputs", "histories"], "all lists (intact or with faulty items) x all sequences of next/nth/count/last/len/size_hint/clone, with any nth argument",
  "Tests only ever call next in order; the hand-written count, last, nth and size_hint implementations are never called by a test.",
  ["src/leaf.rs", "src/index_root.rs", "src/key_values_list.rs", "src/big_data.rs", "src/subkeys_list.rs", "src/key_value.rs"],
  [("hand-written nth/last/count/size_hint", "src/leaf.rs, src/key_values_list.rs, src/big_data.rs, src/index_root.rs"), ("FusedIterator/ExactSizeIterator promises", "impl blocks of the same files")],
  ["results of Iterator/ExactSizeIterator calls on SubKeyNodes, LeafKeyNodes, IndexRootKeyNodes, KeyValues, BigDataSlices, RegMultiSZStrings"])
p("C15", "Damaged structures are rejected and never leak unrelated bytes",
  "Every name, class name and data slice returned lies wholly inside the payload of the single allocated, 8-byte-size-aligned, in-bounds cell (or value record) that the hive's offsets designate for it, at the designated position and length. If the designated cell is unallocated, misaligned, too small or out of bounds, if a structure's signature is wrong, or if a count, length or size exceeds its container, the call that needs it returns an error instead of data, and items that do not depend on the damaged structure are still returned unchanged.",
  ["inputs", "fault_sequences"], "all hives x all corruptions of offset, size, count, length and signature fields",
  "No test contains a damaged structure; bounds checks could be dropped or loosened without any test noticing.",
  ["src/hive.rs", "src/helpers.rs", "src/key_node.rs", "src/key_value.rs", "src/leaf.rs", "src/index_root.rs", "src/subkeys_list.rs", "src/key_values_list.rs", "src/big_data.rs"],
  [("cell header checks", "src/hive.rs cell_range_from_data_offset"), ("byte_subrange before each access", "src/helpers.rs"), ("signature checks", "validate_signature in key_node, key_value, subkeys_list, big_data")],
  ["pointer range of every returned slice relative to the input; Ok/Err of every call"])
p("C16", "Errors pinpoint the fault precisely",
  "When a hive has one damaged field, the error returned by a call that needs it names the kind of damage, the exact absolute file offset of the offending structure or field, and the actual and required quantities, so that a user can find the faulty byte. The same error is reported through every access path that meets the damage, and its message contains those numbers.",
  ["inputs", "fault_sequences"], "all single-field damages of well-formed hives x all access paths",
  "No test looks at any error value.",
  ["src/error.rs", "src/hive.rs", "src/key_node.rs", "src/key_value.rs", "src/big_data.rs", "src/leaf.rs", "src/index_root.rs", "src/key_values_list.rs", "src/subkeys_list.rs"],
  [("absolute offsets", "src/hive.rs offset_of_field, offset_of_data_offset"), ("error construction", "ok_or_else closures at each check"), ("messages", "src/error.rs")],
  ["NtHiveError variant and fields, Display text"])
p("C17", "Reading is pure, repeatable, zero-copy and thread-safe",
  "Read calls never modify the input bytes and have no hidden state: the same query gives the same answer regardless of which queries ran before, how often, from which clone, in which order or concurrently from how many threads sharing one hive. Names, class names and raw data pieces are borrowed from the input buffer itself, and no read operation except those returning owned strings or vectors allocates heap memory.",
  ["inputs", "histories", "schedules"], "all hives x all orders, repetitions and thread interleavings of read calls",
  "Tests run each query once in one fixed order on one thread and never look at addresses or allocations.",
  ["src/hive.rs", "src/key_node.rs", "src/key_value.rs", "src/string.rs", "src/subkeys_list.rs"],
  [("shared-reference API without interior mutability", "src/hive.rs Hive, all &self methods"), ("borrowed slices", "src/string.rs NtHiveNameString, src/key_value.rs KeyValueData::Small, src/big_data.rs BigDataSlices")],
  ["query transcripts per order/thread, buffer digest before/after, addresses of returned slices, allocator calls, ThreadSanitizer/Miri reports"])
p("C18", "Same results on every platform, build and feature set",
  "The observable results of every operation are identical on little- and big-endian and on 32- and 64-bit targets, in builds with and without optimisation, with the std, alloc-only and core-only feature sets (for the operations each offers), for every byte-slice type accepted and for any memory alignment of the input. The core-only build works without a heap allocator.",
  ["configurations", "inputs"], "target endianness x pointer width x optimisation x feature set x buffer type x buffer alignment, over valid and damaged hives",
  "Tests run in one configuration: 64-bit little-endian, all features, unoptimised, one buffer type, allocator-aligned.",
  ["src/lib.rs", "src/hive.rs", "src/key_node.rs", "src/key_value.rs", "src/key_values_list.rs", "src/big_data.rs", "src/string.rs", "Cargo.toml"],
  [("explicit little-endian unaligned fields", "zerocopy U16/U32/U64<LittleEndian> headers with repr(packed)"), ("checked conversion of u32 quantities to usize", "src/key_values_list.rs, src/hive.rs"), ("feature gates", "src/lib.rs, #[cfg(feature = \"alloc\")] items")],
  ["transcript of one workload per configuration"])
p("C19", "Key and value identity",
  "Two key handles, or two value handles, compare equal exactly when they denote the same record of the same opened hive, no matter by which route (iteration, lookup by any spelling, subpath, clone) each was obtained. Handles to different records with identical names and contents, or to the same record through two separately opened hives, are unequal.",
  ["inputs", "histories"], "all pairs of handles obtainable from all hives",
  "One test compares two pairs of keys; values and separately opened hives are never compared.",
  ["src/key_node.rs", "src/key_value.rs"],
  [("hive pointer and range comparison", "src/key_node.rs PartialEq for KeyNode, src/key_value.rs PartialEq for KeyValue")],
  ["== on KeyNode and KeyValue"])
p("C20", "The readhive program dumps every key below the root and never crashes",
  "For every well-formed hive file whose values have known types and type-conforming data, readhive exits successfully after printing the root name and then, in order and indented by depth, every key below the root with its class name and all its values with name, type, size and decoded data. For every other file it terminates normally, never by a panic, crash or endless loop: with an error message and failure status if anything it needs is unreadable or the key structure is cyclic. Trees nested beyond the 512 levels of Windows, or listing one key several times, may be refused or printed.",
  ["inputs"], "all files given to the example program (except directed acyclic key graphs with exponentially many paths)",
  "The example is built but never run by any test.",
  ["examples/readhive.rs"],
  [("recursive dump", "examples/readhive.rs process_subkey"), ("error propagation", "examples/readhive.rs main")],
  ["stdout, stderr and exit status of the program"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

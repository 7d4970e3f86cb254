# Registry of checks: property -> harness, bounds (quick, thorough) and manifest texts.
THREAD_HOOKS = ["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "--param=tsan-instrument-func-entry-exit=0"]
VARIANTS = {
    "threads": {"flags": ["-O1"], "libflags": THREAD_HOOKS, "ldflags": ["-rdynamic", "-ldl"], "extra": [("c25_jobs.cpp", THREAD_HOOKS), ("sched_rt.cpp", ["-O2", "-fno-builtin"])]},
    "asan": {"flags": ["-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]},
    "ubsan": {"flags": ["-O1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]},
    "smallvector": {"flags": ["-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"], "defines": {"FASTGLTF_USE_CUSTOM_SMALLVECTOR": 1, "FASTGLTF_DISABLE_CUSTOM_MEMORY_POOL": 1}},
    "float64": {"flags": ["-O1", "-D_GLIBCXX_ASSERTIONS"], "defines": {"FASTGLTF_USE_64BIT_FLOAT": 1}},
    "default": {"flags": ["-O1", "-D_GLIBCXX_ASSERTIONS", "-std=c++20"], "defines": {"FASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES": 0, "FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES": 0}},
    "cpp23": {"flags": ["-O2", "-D_GLIBCXX_ASSERTIONS", "-std=c++23"]},
    "plain": {"flags": ["-O2", "-D_GLIBCXX_ASSERTIONS"]},
}
STATELESS = "stateless explicit-state model checking of the real code: exhaustive bounded enumeration of choice sequences in lockstep with a reference model"
TRUST = ("Exhaustive within the stated bounds; trusts the reference model written in the harness, the compiler, simdjson and AddressSanitizer. "
         "Nothing is claimed for values outside the enumerated alphabet or beyond the bounds.")
EXPLICIT = "explicit-state model checking of the real code: all operation sequences up to a depth in lockstep with a reference model, identical states merged"
CHECKS = {
    "C01": dict(harness="c01_base64.cpp", level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "decoder x {allocating, in-place} x payload length 1..200 x 4 patterns; lengths <=64 and multiples of 16: x every symbol at every position; symbol quadruples (all 64^4 alone, 64x64x13x13 inside a SIMD lane); data URIs 1..200 bytes with and without allocation callback",
        "as quick with payload length 1..700 and all 64^4 quadruples in every placement"]),
    "C02": dict(variants=["asan", "cpp23"], harness="c02_uri.cpp", level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "all strings of up to 5 tokens from a 17 token alphabet through 6 constructors; all copy/move/assign histories of 2 URIs of depth 4 over 15/8 seed strings",
        "strings of up to 6 tokens; histories of depth 5 over 15 seeds"]),
    "C04": dict(variants=["asan","plain"], harness="c04_malformed.cpp", level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "malformed departures of the core, extension and physics documents: singles (AddressSanitizer build, 4 configurations), singles x serialisations and all pairs (plain build); of three small documents every prefix, every token deletion/doubling/swap, every replacement and insertion of 33 tokens at every position, double deletions within 12 tokens",
        "as quick with pairs under AddressSanitizer too and all double deletions"]),
    "C05": dict(variants=["plain"], harness="c05_ext.cpp", level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "extension document: every single departure x 3 serialisations with all extensions on; with none on; with each one of 32 alone and with all but it; all pairs within an array element; required lists of one and two names x enabled sets; list sizes 0..23",
        "as quick with 3 valid alternatives per pair member and list sizes 0..99"]),
    "C06": dict(harness="c06_phys.cpp", level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "physics document: every single departure x 3 serialisations; x 4 enabled sets; all pairs within an object tree (4 valid, 2 malformed alternatives each); list sizes 0..23",
        "as quick with 6 valid and 3 malformed alternatives and list sizes 0..99"]),
    "C07": dict(variants=["plain"], harness="c07_categories.cpp", level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "all 2^n subsets of the categories x 4 documents x {JSON, GLB}",
        "same"]),
    "C03": dict(variants=["asan"], harness="c03_core.cpp", level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "core reference document (every member set): every single departure (absent, boundary, alternative values, wrong types; ~1800 alternatives) x 3 serialisations; all pairs of departures within each array element (absent, 2 valid, 1 malformed each); departures x parser options; all root member rotations x adjacent swaps; all section lengths 0..39; inner arrays 0..39",
        "as quick with 3 valid and 2 malformed alternatives per pair member, section lengths 0..129, inner arrays 0..299"]),
    "C18": dict(variants=["asan","plain"], harness="c18_smallvector.cpp", lib=False, level="model_checking", technique=EXPLICIT, note=TRUST, bounds=[
        "all sequences of 4 operations (3 under AddressSanitizer; 22 operations with arguments 0..6, two vectors) for 10 element type / inline capacity / allocator combinations, equal states merged",
        "sequences of 6 operations (4 under AddressSanitizer)"]),
    "C19": dict(variants=["asan", "cpp23"], harness="c19_values.cpp", lib=False, level="model_checking", technique=EXPLICIT, note=TRUST, bounds=[
        "all sequences of 5 operations (6 for bounds arrays and Expected) over two objects of 5 optional, 5 fixed-size vector, 2 expected types and the bounds array, equal states merged; all value sequences of 3 for updateBoundsToInclude; all sub-spans of 0..6 elements",
        "sequences of 7 (8) operations; value sequences of 4"]),
    "C23": dict(variants=["plain", "cpp23"], harness="c23_math.cpp", lib=False, level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "vectors: all of {-2,0,1,3}^N (3..4 values for 6 other component types), pairs included; matrices: all 27 shapes of products x all basis and dense pairs x 3 component types; determinant/inverse: all 2x2 over 5 values, 3x3 over {-1,0,1} (first row 4 values), 4x4 over {0,1} (first row {-1,0,2}), affine 4x4 over {-1,0,1}; ~650 rotations, all pairs of them; decomposition: rotations x 7^3 scales x 2 translations",
        "5 vector values, 4x4 over {-1,0,1}, ~2400 rotations"]),
    "C24": dict(variants=["plain", "cpp23"], harness="c24_scene.cpp", level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "all acyclic node graphs of 1..4 nodes (shared children included) x numberings x child orders x root lists of 0..2 nodes x 4 transform assignments x 3 initial transforms x 3 call forms; chains and fans of up to 1000 nodes; parsed nodes: 11 transforms x {TRS with every subset of members, matrix, decomposed}",
        "also all graphs of 5 nodes"]),
    "C15": dict(variants=["asan", "cpp23"], harness="c15_accessors.cpp", level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "43 destination element types x 8 component types x normalized x {no buffer view, 3 view offsets x 3 accessor offsets x 4 strides x 3 data sources} x counts {0,1,2,5} x 12 access styles with exactly sized sources and guarded destinations; all values of the 8/16 bit types x 8 destination types; 1200..8000 float values; copyComponentsFromAccessor for all types and layouts",
        "one more stride"]),
    "C08": dict(harness="c08_glb.cpp", level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "7 JSON chunks x {no, empty, 4, 8 byte binary chunk}: every truncation and extension by up to 11 bytes, length field left or adjusted; every header and chunk field at ~50 boundary values and ~150 bit and letter case variations, alone, and at the boundary values in pairs; all sequences of up to 3 chunks of 6 kinds; every byte replaced by 16 values, header bytes by all; chunk sizes 0..69 x 0..19; type detection on all strings of up to 5 bytes over 13 symbols x 3 tails; through a source that reports every access outside the data",
        "strings of 6 bytes, chunk sizes 0..259 x 0..69"]),
    "C09": dict(variants=["asan","plain"], harness="c09_getters.cpp", level="model_checking", technique=EXPLICIT, note=TRUST, bounds=[
        "all sequences of 3 operations (4 for one size; reads of 7 sizes, padded reads with 3 paddings, reset, move, move-assignment, self-move) x 4 getter kinds x 14 file sizes around padding and page boundaries; 3 documents x {JSON, GLB} x 3 load functions x 40 sizes and truncations through every getter kind, twice; paths which are not files, descriptor leaks; reads which fail, end early or are short and openings which fail",
        "sequences of 4 operations"]),
    "C20": dict(variants=["plain","asan"], harness="c20_sources.cpp", level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "buffers and images, alone and in pairs: data URIs (6 lengths x 9 MIME types, 10 malformed ones), files (17 spellings of names x present with 8 sizes, missing, directory), remote URIs, buffer views, none x 4 load options x {no callback, mapping, mapping refused, no unmap} x decode callback x 5 MIME types of the image; every file load with reads failing, ending early (at 3 positions), delivering single bytes and with the opening failing; binary chunk of 5 sizes x 8 buffer layouts",
        "same"]),
    "C11": dict(variants=["plain","asan"], harness="c11_history.cpp", level="model_checking", technique=EXPLICIT, note=TRUST, bounds=[
        "all histories of 3 operations: loads of 19 documents (JSON, GLB with and without binary chunk, failing early and late, external files, every option) x {callbacks as before, none, all, allocation refused}, 4 parser moves/replacements, 5 asset moves/destructions; every asset alive re-read and compared after every operation; memory accounted for after every history; 8 of the documents also under AddressSanitizer",
        "histories of 4 operations, all documents under AddressSanitizer"]),
    "C16": dict(variants=["asan", "cpp23"], harness="c16_sparse.cpp", level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "all subsets of up to 6 indices x 3 index types x base/no base x strides and offsets x 12 access styles x 10 element types; all iterator operation sequences of depth 6 over 4 elements; all access orders of 3 elements; counts of 255..70000 around the ranges of the index types",
        "subsets of up to 9 indices, iterator sequences of depth 7 over 5 elements"]),
    "C12": dict(variants=["plain"], harness="c12_roundtrip.cpp", level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "every valid document among the single departures of the core, extension and physics documents x {compact, pretty, GLB} x {fresh, used exporter}, all pairs within an array element (2..4 valid alternatives each), all subsets of the sections, all section lengths 0..23: exported text interpreted by the reference model, loaded again, exported again",
        "as quick with more alternatives, every form for pairs, lengths 0..59"]),
    "C13": dict(variants=["plain"], harness="c13_wellformed.cpp", level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "assets built by a program: every optional part of every kind of object alone (next to 0..2 other elements) and in all pairs and (up to 16 parts per kind) triples, all pairs of sections with 0..2 elements, x {compact, pretty, GLB}; all strings of up to 2 of 20 tokens in each of 27 string positions (3 in all at once); escapeString on all strings of up to 4 tokens and all pairs of 7-bit characters; prettyPrintJson on all JSON texts of up to 4 values in 4 contexts",
        "as quick; up to 60 parts in triples, strings of 3/4 tokens, escapeString on 5, prettyPrintJson up to 5 values"]),
    "C14": dict(variants=["plain"], harness="c14_files.cpp", level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "two resources with all pairs of 25 names (separators, parent and absolute paths, reserved and control characters, duplicates); three with related names, one external; 3 forms x 5 folder settings x 5 targets x relative/absolute x 4 sizes x 3x3 source kinds x 5 MIME types; every call that opens, writes, closes or creates a directory failing, cut short or cut short then failing, exporter reused afterwards; obstacles in the way",
        "same"]),
    "C21": dict(variants=["plain"], harness="c21_extras.cpp", level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "parsing: every object of the core, extension and physics documents x 6 contents x first/last member x 18 category selections x {all, no} extensions x {JSON, GLB}; all pairs; all subsets of sections of up to 6 elements; extras in every object without a category; all sequences of 3 loads by one parser. Writing: none, all, each, each pair of objects of the documents x 7 texts x {compact, pretty, GLB}; every optional part of every built object x all subsets of up to 3 objects; parse-write-parse",
        "as quick; pairs with every category selection, subsets of 9 elements, 4 extension sets"]),
    "C22": dict(variants=["asan"], harness="c22_indices.cpp", level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "every mode (and none) x vertex counts 0..40, around 85, 127, 255, 512 and around 21845, 32767, 65535, 131071 x other attributes x other buffers x {JSON, GLB}; all pairs of primitives (7 modes x 10 counts x with/without indices, same or other mesh); 4 category selections x up to 3 meshes; positions which do not exist and counts beyond 2^32; export round trip of the results",
        "as quick; counts 0..300, up to 5 meshes"]),
    "C17": dict(variants=["asan"], harness="c17_validate.cpp", level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "every index member of an asset in which all occur (~150) x every in-range value and 18 values outside; all pairs of index members x 3 values; ~1500 changes which break or keep a rule, alone, in pairs (a quarter of the pairs of the large families), next to a dangling index, next to a shortened or emptied section; all triples of shortened sections, all subsets of 14 emptied sections; all selections of up to two categories and their complements; the core, extension and physics documents with every departure; assets of every two optional parts",
        "as quick; all ordered pairs of changes, 5 values per index, all subsets of 19 sections"]),
    "C25": dict(variants=["threads"], harness="c25_threads.cpp", level="model_checking", technique="stateless model checking of the real code under a controlled scheduler: all thread schedules up to a preemption bound, with happens-before race detection", note=TRUST + " Threads run one at a time on a sequentially consistent machine; weaker memory orders are covered as data races. The code of libstdc++, libc and simdjson that is not in headers is not instrumented.", bounds=[
        "all pairs of 12 jobs (load, validate and export JSON, GLB and three documents with every member; base64; export JSON, GLB; files; URIs and helpers; reading and exporting a shared asset) with every pair of preemptions (single ones with the large documents) at synchronisation operations and accesses to static data that is ever written, each thread first, every execution from a cold start in its own process; 4 triples of jobs with every single preemption; every pair of unordered conflicting accesses is reported",
        "one more preemption each, 6 triples"]),
    "C26": dict(variants=["float64", "smallvector", "default"], builds=True, harness="c26_configs.cpp", level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "three builds (64-bit numbers; own SmallVector without memory pool, under AddressSanitizer; C++20 without the optional extensions): every single departure of the core, extension and physics documents with all and no extensions; the round trip of every valid one in three forms; every section with 0..23 elements; two of 12 inner arrays with 14 lengths each; every number replaced by 12 values which need double precision; all histories of 3 parser and asset operations with 8 documents",
        "as quick with 3 serialisations, sections of up to 69 elements, histories of 4 operations"]),
    "C27": dict(variants=["asan", "cpp23"], harness="c27_helpers.cpp", level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "attribute look-up in all lists of up to 5 of 7 names (9 functions); names of all sets of up to 3 extension bits and their complements; all error values in pairs; sizes of all types; component types 0..65535 and 6 x 65536 numbers up to 2^64; type names: all strings of up to 4 of 16 characters, all single edits; clz, popcount, byteswap, uabs of all 8 and 16 bit numbers and all runs of bits of 32 and 64 bits; alignment of 0..16383 to 1..4096; hashes of all strings of up to 139 bytes which differ from one of 3 patterns in one byte; flag operators on all pairs of 14..28 masks; prefixes of all strings of up to 5 characters",
        "as quick, strings of up to 299 bytes"]),
    "C10": dict(variants=["ubsan"], harness="c10_bytes.cpp", level="model_checking", technique=STATELESS, note=TRUST, bounds=[
        "core, extension and physics documents: every value replaced by each of ~75 JSON values, removed, doubled x 2 option sets; pairs within each array element (9 values each); three small documents and three GLBs: every byte replaced by all 256 values, deleted, every byte inserted, every prefix, pairs of edits with 24 characters; nesting up to 3000 levels of 9 kinds, numbers of up to 400 digits, strings around buffer sizes; each followed by validation and every export of what was loaded, under AddressSanitizer and UndefinedBehaviorSanitizer",
        "as quick with 16 values in pairs, pairs of byte edits in every small document"]),
}

#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept here because JSON lines are unpleasant to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a["observe_at"] = observe
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

prop("C01", "Base64 decoding equals RFC 4648 on every path and stays in bounds",
     "Decoding a well-formed, padded base64 payload yields exactly the encoded bytes, whichever of the decoders (scalar, SSE4, AVX2, run-time dispatched, in-place or allocating, behind a data URI or through a buffer-allocation callback) is used. No decoder reads outside the encoded text or writes outside the exactly sized output.",
     ["inputs", "configurations"], "every payload length, every symbol at every position, every decoder",
     "The tests decode two fixed strings and one large generated one; tail handling of each SIMD width depends on the exact length.",
     ["src/base64.cpp", "include/fastgltf/base64.hpp", "src/fastgltf.cpp"],
     [("SIMD main loop + scalar tail", "src/base64.cpp:*_decode_inplace"), ("padding and output size", "include/fastgltf/base64.hpp:getPadding"), ("data URI decoding", "src/fastgltf.cpp:Parser::decodeDataUri")],
     ["fastgltf::base64::*", "Asset::buffers[].data"])
prop("C02", "URIs are split, percent-decoded, copied and moved per RFC 3986",
     "For every string, a URI exposes the scheme, user info, host, port, path, query, fragment, validity and local/data classification that RFC 3986 assigns, with percent-encoded characters decoded component by component and invalid encodings left alone. Copying, moving and re-assigning URIs in any order preserves exactly these values, and every component refers to the URI's own text.",
     ["inputs", "histories"], "all strings over a token alphabet of delimiters up to a length; all copy/move/assign histories of two URIs up to a depth",
     "The tests parse about ten hand-written URIs and copy or move once.",
     ["src/fastgltf.cpp", "include/fastgltf/types.hpp"],
     [("single pass split into views", "src/fastgltf.cpp:URIView::parse"), ("view re-basing", "src/fastgltf.cpp:URI::readjustViews"), ("percent decoding", "src/fastgltf.cpp:URI::decodePercents")],
     ["URI/URIView accessors"])
prop("C03", "Parsing core glTF JSON preserves every property the document states",
     "For every valid glTF 2.0 document, the parsed asset contains, in order, exactly the buffers, buffer views, accessors, images, samplers, textures, materials, meshes, skins, nodes, scenes, cameras, animations and asset info the document states: every number, string, enum and index has the stated value, every absent property has its specification default. Member order and the presence of unknown members, extras or unknown extensions do not change the result.",
     ["inputs", "configurations"], "every single and pairwise departure from a rich reference document within an alphabet of alternatives per member (value, boundary value, absent), member orders, array sizes across internal capacity limits",
     "The tests that compare parsed values need sample assets that cover one value per member; absent/default/boundary combinations are not enumerated.",
     ["src/fastgltf.cpp", "include/fastgltf/types.hpp", "include/fastgltf/core.hpp"],
     [("per-category parse functions", "src/fastgltf.cpp:Parser::parse*"), ("top-level dispatch by key hash", "src/fastgltf.cpp:Parser::parse")],
     ["Parser::loadGltfJson / loadGltf", "the Asset object"])
prop("C04", "Malformed or missing required members are rejected, never misread",
     "When a required member is missing, or has the wrong JSON type, an out-of-range number, a wrong number of components or an unknown enum value, loading reports an error instead of returning an asset. A malformed optional member is either reported as well or treated exactly as if it were absent; no other value is ever invented for it. Text that is not JSON is reported as invalid JSON, and no such document crashes, hangs or corrupts memory.",
     ["inputs"], "for every object kind and every member of it: absent, each wrong JSON type, out-of-range and unknown values, one at a time",
     "The suite has a handful of invalid inputs; nothing varies each member of each object.",
     ["src/fastgltf.cpp"], [("error branches after every member access", "src/fastgltf.cpp:Parser::parse*")],
     ["Expected<Asset>::error()"])
prop("C05", "Extension data is parsed exactly, and only when its extension is enabled",
     "Every supported extension object (materials, texture transform, texture formats, lights, variants, instancing, compression, visibility and related) yields exactly the stated values and specification defaults when its extension is enabled for the parser, and has no effect at all when it is not. A document that requires an extension which the parser does not know or which is not enabled is refused with the corresponding error.",
     ["inputs", "configurations"], "each extension x each member alternative x enabled/disabled (alone and with all others) x used/required lists",
     "Tests with sample assets exercise a few extensions with one value each and only with the extension enabled.",
     ["src/fastgltf.cpp", "include/fastgltf/core.hpp"],
     [("extension mask and name table", "include/fastgltf/core.hpp:extensionStrings"), ("per-extension branches", "src/fastgltf.cpp:parseMaterialExtensions, parsePrimitiveExtensions, parseNodes, parseLights")],
     ["Parser(Extensions)", "the Asset object"])
prop("C06", "Physics and implicit-shape extensions are parsed exactly",
     "KHR_implicit_shapes and KHR_physics_rigid_bodies data (shapes, physics materials, collision filters, joint limits and drives, node motion, colliders, triggers and joints) yield exactly the stated values and the extension's defaults for absent members. Malformed values of required members are rejected.",
     ["inputs"], "each member of each object: each alternative, absent, malformed; all shape and drive kinds",
     "Only one sample based test touches these extensions and it cannot run without the sample assets.",
     ["src/fastgltf.cpp", "include/fastgltf/types.hpp"],
     [("shape and physics parsers", "src/fastgltf.cpp:parseShapes, parsePhysics*, parseCollisionFilters, parsePhysicsJoints, parsePhysicsRigidBody")],
     ["Asset::shapes, physicsMaterials, collisionFilters, physicsJoints, Node::physicsRigidBody"])
prop("C07", "Category masks load exactly the selected categories",
     "Loading with any combination of categories gives, for every selected category, exactly what loading everything gives, and leaves every category that was neither selected nor implied by a selected one empty. The set of categories the asset reports as available is the set of selected categories that the document contains.",
     ["configurations", "inputs"], "all subsets of categories (all 2^n for the core ones) on rich documents as JSON and GLB",
     "One test loads with one mask on one asset.",
     ["src/fastgltf.cpp", "include/fastgltf/core.hpp"], [("category dispatch", "src/fastgltf.cpp:Parser::parse"), ("Category enum", "include/fastgltf/core.hpp")],
     ["Parser::loadGltf*(…, Category)", "Asset::availableCategories"])
prop("C08", "Binary glTF containers are read exactly or rejected",
     "A GLB file is accepted only if its header and chunk structure are consistent with the data provided, and then yields the same asset as its JSON chunk, with the binary chunk as the data of the first buffer. Any truncated, mis-sized or mislabelled container is reported as an error, without reading beyond the data provided, and file type detection is right for every prefix.",
     ["inputs", "crash_points"], "every truncation point, every header/chunk field set to boundary values, chunk orders and paddings, for every kind of data source",
     "Tests load a few intact GLB sample files and one that is too small.",
     ["src/fastgltf.cpp", "src/io.cpp"], [("header and chunk reading", "src/fastgltf.cpp:Parser::loadGltfBinary"), ("type detection", "src/fastgltf.cpp:determineGltfFileType")],
     ["Parser::loadGltf / loadGltfBinary", "determineGltfFileType"])
prop("C09", "All data sources deliver the same bytes for any read pattern",
     "A data getter created from memory, a vector copy, a file stream or a memory-mapped file reports the same size and delivers the same bytes for every sequence of read, padded read, reset and position queries that stays within the file. Results of loading do not depend on which kind of getter supplied the bytes, and moving a getter does not change what it delivers.",
     ["histories", "inputs"], "all operation sequences up to a depth over all getter kinds and small file sizes around padding and page boundaries",
     "Tests read whole files once through each getter.",
     ["src/io.cpp", "include/fastgltf/core.hpp"], [("getter implementations", "src/io.cpp"), ("padding contract", "include/fastgltf/core.hpp:GltfDataGetter")],
     ["GltfDataGetter::read/reset/bytesRead/totalSize"])
prop("C10", "No input bytes can crash, hang or corrupt the loader, validator or exporter",
     "For every byte sequence given as JSON or GLB, loading returns either an error or an asset, in bounded time, without undefined memory behaviour. For every asset so loaded, validation and export likewise return normally.",
     ["inputs"], "all single-token and pairwise structural edits and all single-byte edits/truncations of seed documents that touch every parser branch",
     "Fuzzing in the repository samples inputs without a bound; tests use intact files.",
     ["src/fastgltf.cpp", "src/base64.cpp", "src/io.cpp"], [("checked element access", "src/fastgltf.cpp"), ("validation of indices", "src/fastgltf.cpp:validate")],
     ["Parser::loadGltf", "validate", "Exporter::writeGltf*"])
prop("C11", "A load's result does not depend on what the parser did before",
     "A parser that has already loaded any sequence of documents (valid or failing, JSON or GLB, with or without callbacks) gives for the next document exactly the result a fresh parser gives, and a moved parser continues to work. An asset stays valid and unchanged after its parser is reused or destroyed or the asset is moved, and all memory is released in the end.",
     ["histories"], "all sequences up to a depth over documents, failing documents, option sets, parser moves and asset moves/destructions",
     "Tests construct a parser, load once or twice and stop.",
     ["src/fastgltf.cpp", "include/fastgltf/core.hpp"], [("per-load state reset", "src/fastgltf.cpp:loadGltfJson, loadGltfBinary"), ("asset owned memory resource", "include/fastgltf/types.hpp:Asset")],
     ["Parser::loadGltf*", "Asset"], [("glbBuffer", "binary chunk of the current load", "include/fastgltf/core.hpp:Parser"), ("errorCode/config", "per-load settings", "include/fastgltf/core.hpp")])
prop("C12", "Exporting and re-loading an asset preserves it",
     "Any valid asset that can be loaded can be exported to JSON or GLB, compact or pretty-printed, and loading the result with the same extensions gives an equal asset (up to embedding of buffers). Exporting that again gives byte-identical output.",
     ["inputs", "configurations"], "all assets of the document space of C03/C05/C06 with up to k departures x {JSON, GLB, pretty, compact}",
     "Round trip tests exist for two sample files and a few hand-written snippets.",
     ["src/fastgltf.cpp"], [("write functions", "src/fastgltf.cpp:Exporter::write*")], ["Exporter::writeGltfJson / writeGltfBinary", "Parser"])
prop("C13", "Exporter output is always well-formed and strings survive verbatim",
     "For every asset, including programmatically built ones with optional parts absent and arbitrary UTF-8 text in names, the exporter either reports an error or produces well-formed JSON (or a well-formed GLB with consistent lengths, alignment and padding). String escaping and pretty printing change neither the decoded strings nor the structure of the JSON.",
     ["inputs", "configurations"], "all strings over an alphabet of special characters up to a length in every string position; all subsets of optional members of every object; pretty printing of all token sequences up to a length",
     "Tests escape one string and pretty-print one object.",
     ["src/fastgltf.cpp"], [("escapeString", "src/fastgltf.cpp:escapeString"), ("prettyPrintJson", "src/fastgltf.cpp:prettyPrintJson"), ("comma handling", "src/fastgltf.cpp:Exporter::write*")],
     ["Exporter", "escapeString", "prettyPrintJson"])
prop("C14", "File export reports success only if complete, loadable files were written",
     "When the file exporter reports success, the target directory contains the document and a file with the exact contents of every buffer and image whose data the asset holds, the document refers to these files (resources the asset itself only refers to keep their URI), and loading it from disk restores the asset; distinct buffers or images never share a file and nothing is written outside the target directory. If any directory creation, file opening or write fails, an error is reported instead.",
     ["fault_sequences", "crash_points", "inputs"], "every single failure of every file operation of an export, every naming scheme of buffers and images, JSON and GLB",
     "Tests export to a healthy disk.",
     ["src/fastgltf.cpp", "src/io.cpp"], [("file writing", "src/io.cpp:writeFile, writeFiles"), ("naming", "src/fastgltf.cpp:getFilePath")], ["FileExporter::writeGltfJson / writeGltfBinary", "the file system"])
prop("C15", "Accessor tools return the specified elements for every layout",
     "Reading an accessor by index, by iteration, by iteration with index, or by copying yields, for every component type, accessor type, normalization, byte offset, stride and count, the elements the specification defines, including column padding of small matrices and zeros when there is no buffer view. Copies touch exactly the requested destination bytes, and component conversions follow the specification's normalization equations for every value.",
     ["inputs", "configurations"], "all combinations of component type x type x normalized x offset x stride x count x destination type; all 8/16-bit component values",
     "Tests read a few sample accessors with matching types.",
     ["include/fastgltf/tools.hpp"], [("getAccessorElementAt, convertComponent", "include/fastgltf/tools.hpp"), ("AccessorIterator, copyFromAccessor, copyComponentsFromAccessor", "include/fastgltf/tools.hpp")],
     ["getAccessorElement, iterateAccessor*, copyFromAccessor, copyComponentsFromAccessor"])
prop("C16", "Sparse accessors apply exactly the listed substitutions",
     "For every sparse accessor, each way of reading it gives the base value at every index not listed and the substituted value at every listed index, for all index types, index sets, strides and with or without a base buffer view. All access styles agree, in any order of access.",
     ["inputs", "histories"], "all subsets of substituted indices for small counts x index component types x base present/absent x access style and order",
     "One sample asset with one index set is tested.",
     ["include/fastgltf/tools.hpp"], [("findSparseIndex", "include/fastgltf/tools.hpp"), ("sparse state of the iterator", "include/fastgltf/tools.hpp:IterableAccessor")],
     ["getAccessorElement, iterateAccessor*, copyFromAccessor"])
prop("C17", "Validation accepts valid assets and catches every dangling index",
     "Validating an asset never reads outside it: it returns normally for every asset, whatever its indices. It returns success for valid assets and an error for every asset in which an index refers to an object that does not exist (except that animation targets, the default scene and shapes may refer to a section which is missing as a whole, as after a partial load) or one of the rules of the glTF specification that the validator implements is broken by any element, not only the first.",
     ["inputs"], "every index field of every object set to in-range, one-past-the-end and huge values; every documented rule broken once",
     "Tests validate intact assets and a couple of broken ones.",
     ["src/fastgltf.cpp"], [("validate", "src/fastgltf.cpp:validate")], ["fastgltf::validate"])
prop("C18", "The small vector behaves like a standard vector",
     "After every sequence of operations the small-buffer vector has the size, contents and iteration order a standard vector would have, never destroys or reads an element that was not constructed, destroys each element exactly once, and releases all memory through the allocator it obtained it from. This holds in inline and heap mode, through every transition between them, including self-referential arguments and self-assignment.",
     ["histories"], "all operation sequences up to a depth over two vectors with inline capacity 1..8 and tracked, trivially copyable and copy-only elements",
     "Tests run a few fixed sequences without element life-time tracking.",
     ["include/fastgltf/types.hpp"], [("SmallVector", "include/fastgltf/types.hpp:SmallVector")], ["SmallVector public API"],
     [("_data/_size/_capacity", "inline or heap storage", "include/fastgltf/types.hpp:SmallVector")])
prop("C19", "Optional, static vector, bounds, span and Expected types keep value semantics",
     "The compact optional type, the fixed-size vector, the accessor bounds array, the span and the expected-result type hold exactly the value last stored after any sequence of construction, assignment, copy, move, swap, reset and self-assignment, equal their standard counterparts on every query, and neither leak nor double free; updating an accessor's bounds with any values yields exactly their minimum and maximum.",
     ["histories"], "all operation sequences up to a depth over two or three objects per type and several value types",
     "A few fixed sequences are tested.",
     ["include/fastgltf/types.hpp", "include/fastgltf/core.hpp"], [("OptionalWithFlagValue, StaticVector, AccessorBoundsArray", "include/fastgltf/types.hpp"), ("Expected", "include/fastgltf/core.hpp")], ["public API of these types"])
prop("C20", "Buffers and images get exactly their bytes from every kind of source",
     "A buffer or image given as a data URI, external file, GLB chunk or buffer view ends up holding or referring to exactly its bytes, according to the load options, MIME types included. Buffer-allocation, unmap and base64 callbacks are called once per resource with the right sizes and are always paired; missing or unreadable files are reported as an error.",
     ["inputs", "configurations", "fault_sequences"], "source kind x options x callbacks (present/absent/returning null) x file present/missing/a directory/failing to open or read x spellings of its name",
     "Tests cover a few combinations on sample assets.",
     ["src/fastgltf.cpp", "src/io.cpp"], [("parseBuffers, parseImages, decodeDataUri", "src/fastgltf.cpp"), ("loadFileFromUri", "src/io.cpp")], ["Asset::buffers/images", "callbacks"])
prop("C21", "Extras callbacks see every extras object exactly once, with its owner",
     "When parsing, the extras callback is invoked exactly once for every object carrying extras in a category that is loaded, with that object's index, category and the extras content, and never otherwise. When exporting, the callback is asked once per written object with the right index and category, and its text appears as that object's extras.",
     ["inputs", "configurations"], "all subsets of objects carrying extras x categories x callback set or not; all objects when writing",
     "One parse test and one write test on two objects.",
     ["src/fastgltf.cpp"], [("extras callbacks", "src/fastgltf.cpp: extrasParseCallback / extrasWriteCallback call sites")], ["Parser::setExtrasParseCallback", "Exporter::setExtrasWriteCallback"])
prop("C22", "Generated indices preserve what a mesh draws",
     "With index generation enabled, every non-indexed primitive that has positions gets an index accessor, of a suitable component type, whose triangles (or lines or points) are exactly those the non-indexed primitive draws, in order and orientation; primitives that already have indices are unchanged. The generated accessor, buffer view and buffer are consistent and in bounds for every vertex count.",
     ["inputs"], "all primitive modes x vertex counts across 0..n and the index-width boundaries x several primitives",
     "No test enables the option with a checkable oracle.",
     ["src/fastgltf.cpp"], [("generateMeshIndices", "src/fastgltf.cpp:Parser::generateMeshIndices")], ["Asset::meshes/accessors/bufferViews/buffers"])
prop("C23", "Vector, matrix and quaternion functions satisfy their algebraic definitions",
     "The maths types compute what linear algebra defines: component access, products, transposes, determinants, inverses, TRS composition and quaternion/matrix conversion agree with direct definitions for all dimensions. Decomposing a matrix composed from translation, rotation and scale recovers components which compose to the same matrix.",
     ["inputs"], "all matrices/vectors over small integer grids, all rotations of a finite group and a half-degree-free grid of angles, all scales of a small set including negative ones",
     "Tests check a few numeric examples.",
     ["include/fastgltf/math.hpp"], [("vec, mat, quat and free functions", "include/fastgltf/math.hpp")], ["fastgltf::math"])
prop("C24", "Scene traversal visits each node of the scene once with its world transform",
     "Iterating a scene visits exactly the nodes reachable from the scene's roots, parents before children and in document order, once per occurrence, with the product of the local transforms along the path from the root. A node's local transform is the same whether it was given as matrix, as TRS, or decomposed at load time.",
     ["inputs"], "all forests up to a number of nodes x all assignments of local transforms from a small set x root lists x initial transforms",
     "Not covered by tests that run without sample assets.",
     ["include/fastgltf/tools.hpp", "src/fastgltf.cpp"], [("iterateSceneNodes, getTransformMatrix, getLocalTransformMatrix", "include/fastgltf/tools.hpp"), ("DecomposeNodeMatrices", "src/fastgltf.cpp:parseNodes")], ["iterateSceneNodes"])
prop("C25", "Independent parsers and exporters may run concurrently",
     "Using different parser, exporter and asset objects from different threads at the same time, including the very first use in the process, gives each thread exactly the result it gets alone, in every interleaving. There is no unsynchronized access to shared mutable state.",
     ["schedules"], "all interleavings up to a preemption bound of two or three threads, at every access to shared static data, from a cold start",
     "No test starts a second thread.",
     ["src/fastgltf.cpp", "src/base64.cpp"], [("lazily initialised dispatch tables", "src/base64.cpp:DecodeFunctionGetter, src/fastgltf.cpp:crcInitialisation")], ["Parser, Exporter, base64 from several threads"],
     [("crc function pointer / base64 function table", "process-wide lazily initialised state", "src/fastgltf.cpp, src/base64.cpp")])

prop("C26", "Build options do not change what is loaded and written",
     "The library compiles in every configuration of its build options (64-bit numbers, custom SmallVector, disabled memory pool, C++17 and later, optional extensions on or off) and in each of them every document is accepted or rejected, loaded, kept alive, exported and loaded again as in the others. With 64-bit numbers, numbers (also the documented defaults) keep double precision through loading and exporting. A build without an optional extension treats it like an unknown one.",
     ["inputs", "histories"], "all documents and operation sequences within the bounds, in each configuration",
     "The tests are built in one configuration.",
     ["include/fastgltf/types.hpp", "include/fastgltf/core.hpp", "src/fastgltf.cpp"], [("option macros", "include/fastgltf/types.hpp:FASTGLTF_USE_64BIT_FLOAT, FASTGLTF_USE_CUSTOM_SMALLVECTOR, FASTGLTF_DISABLE_CUSTOM_MEMORY_POOL")], ["CMake options of the library"],
     [("the representation of an asset", "number type, containers, allocation", "include/fastgltf/types.hpp")])

prop("C27", "Helper functions of the public headers are exact for every argument",
     "Attribute look-up (findAttribute, findTargetAttribute, findInstancingAttribute, of primitives, morph targets, Draco primitives and nodes) finds the first attribute with exactly the given name in the list asked for, or its end. The names of extensions and errors, types and sizes of accessor elements, and their conversions from strings and numbers are those of the specification for every argument, also unknown ones. Flag operators, alignment, clz, popcount, byteswap, uabs, bit_cast, min, max, startsWith and both versions of the hash give the mathematical result for every argument.",
     ["inputs"], "all arguments within the bounds",
     "The tests call a few of these functions with one or two arguments.",
     ["include/fastgltf/util.hpp", "include/fastgltf/types.hpp", "include/fastgltf/core.hpp", "src/fastgltf.cpp"], [("attribute look-up", "include/fastgltf/types.hpp:findAttribute, findTargetAttribute, findInstancingAttribute"), ("names and types", "include/fastgltf/core.hpp:stringifyExtensionBits, include/fastgltf/types.hpp:getElementByteSize"), ("arithmetic and hashes", "include/fastgltf/util.hpp, src/fastgltf.cpp:sse_crc32c")], ["functions of the public headers"],
     [("an argument list", "names, masks, numbers", "include/fastgltf/util.hpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

LIB_DEFINES = ["-DFASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES=1", "-DFASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES=1",
               "-DFASTGLTF_USE_CUSTOM_SMALLVECTOR=0", "-DFASTGLTF_DISABLE_CUSTOM_MEMORY_POOL=0", "-DFASTGLTF_USE_64BIT_FLOAT=0"]
_D = lambda phys=1, small=0, nopool=0, wide=0: ["-DFASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES=%d" % phys, "-DFASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES=%d" % phys,
                                                 "-DFASTGLTF_USE_CUSTOM_SMALLVECTOR=%d" % small, "-DFASTGLTF_DISABLE_CUSTOM_MEMORY_POOL=%d" % nopool, "-DFASTGLTF_USE_64BIT_FLOAT=%d" % wide]
CONFIGS = [dict(name="default"), dict(name="c++20", std="-std=c++20"), dict(name="gcc-c++23", cxx="g++", std="-std=c++23", san=False, opt="-O2"),
           dict(name="64bit", defines=_D(wide=1)), dict(name="small-vector", defines=_D(small=1)), dict(name="no-pool", defines=_D(nopool=1)), dict(name="no-physics", defines=_D(phys=0)),
           dict(name="64bit-small-vector-no-pool-c++20", std="-std=c++20", defines=_D(small=1, nopool=1, wide=1), san=False, opt="-O2")]
CHECKS = {
    "C02": dict(gen=True, rule="valid core glTF documents built from the schema (all object kinds, optional members present or absent, arbitrary Unicode names, unknown members, data/external URIs, sparse accessors) printed with arbitrary whitespace, member order, number spelling and escapes; non-trivial: at least three objects; distinct by text",
                must_reach={k: 1000 for k in ["formatted", "sparse", "scene without nodes", "accessors", "animations", "buffers", "bufferViews", "cameras", "images", "materials", "meshes", "nodes", "samplers", "scenes", "skins", "textures"]}),
    "C03": dict(gen=True, rule="valid documents using random subsets of all supported extensions (schema-driven values, optional members present or absent, several extensions on the same object), loaded with those and further extensions enabled; non-trivial: at least one extension used; distinct by text",
                must_reach={"many extensions": 1000, "double accessor": 40, "MSFT_texture_dds": 200, "KHR_physics_rigid_bodies": 200, "KHR_draco_mesh_compression": 200, "fallback buffer": 100}),
    "C04": dict(gen=True, rule="valid documents with one planted defect at a uniformly chosen kind of place of the schema (every member of every core object and supported extension): required member removed, wrong JSON type, value outside the enumeration, wrong length of a fixed-size array; and texts edited until a strict JSON parser refuses them; non-trivial: every case; distinct by text",
                must_reach={"type": 5000, "missing": 1000, "enum": 350, "length": 150, "in extension": 5000}),
    "C05": dict(gen=True, rule="valid documents using random subsets of all extensions, requiring random lists of known, near-miss and unknown names, loaded with random subsets enabled; and valid documents with every kind of asset/version member, demanded or not; non-trivial: extensions used or required / every version case; distinct by text and configuration",
                must_reach={"allowed": 5000, "used but not enabled": 2000, "unknown": 500, "missing": 2000, "unknown and missing": 200, "valid": 500, "no asset": 500, "no version": 500, "version type": 500, "other version": 500, "not demanded": 1000}),
    "C06": dict(gen=True, rule="valid documents (core and all extensions, plain or binary, embedded or external data) loaded with single categories, random subsets, presets, complements and arbitrary bit masks, the result compared with the document restricted to the closure of the requested categories; external files of categories left out do not exist; non-trivial: some arrays kept and some left out; distinct by text and mask",
                must_reach={"something left out": 4000, "files": 300, "preset": 1500, "all but one": 1500, **{"only " + c: 60 for c in ["buffers", "bufferViews", "accessors", "images", "samplers", "textures", "animations", "cameras", "materials", "meshes", "skins", "nodes", "scenes"]}}),
    "C07": dict(gen=True, variants=[None, dict(name="tsan", san_flags=["-fsanitize=thread", "-fno-omit-frame-pointer", "-g1"], opt="-O1", probe=True,
                                               args={"quick": ["--only", "t_", "--cases", "400"], "thorough": ["--only", "t_", "--cases", "40000"]})], rule="histories of loads of several generated inputs (valid, defective, truncated; plain and binary; with and without files, callbacks, options and masks) by several parsers with different configurations from reused and discarded sources, interleaved with moves and destruction of parsers, sources, files and assets; every load compared with one where everything is fresh and every living asset re-read after every step; loads, validation and exports in parallel threads, from every kind of source, and one asset validated, read and exported by several threads at once, both also in a build with ThreadSanitizer; non-trivial: at least two loads; distinct by history",
                must_reach={"failures and successes": 400, "moved": 800, "assigned over an asset": 200, "source reused": 400, "own source": 800, "memory map": 200, "file stream": 200, "file buffer": 200, "memory copy": 200, "thread memory map": 50, "thread file stream": 50, "shared and read": 20}),
    "C08": dict(gen=True, rule="valid documents as plain JSON and in binary containers (padded, with empty, unused or used chunk, file sizes around the page size) loaded from every kind of data source (memory, file, map, stream, own strict implementation; moved around first) with and without type detection; random read/reset sequences against a byte model; unreadable paths of every kind; non-trivial: every form case, at least two reads; distinct by text or history",
                must_reach={"page size": 500, "string near the end": 300, **{f + " from " + s: 300 for f in ["JSON", "GLB", "GLB with padding"] for s in ["memory copy", "file buffer", "memory map", "file stream", "own source"]}}),
    "C09": dict(gen=True, rule="binary containers of valid documents with up to two edits of header and chunk fields (around the right and extreme values), chunk order, cuts and trailing bytes, judged by an independent reader of the container format and loaded from a source that reports reads beyond its end; detection of arbitrary, magic, JSON-object, other-JSON and almost-matching data of every short length from every data source; non-trivial: an edit was made / every detection case; distinct by bytes",
                must_reach={"well-formed": 4000, "well-formed with chunk": 1500, "magic": 500, "version": 500, "length beyond the data": 500, "length without room for a chunk": 200, "first chunk is no JSON chunk": 300, "JSON chunk beyond the container": 300, "second chunk is no binary chunk": 200, "binary chunk beyond the container": 200, "GLB": 1000, "JSON": 3000, "invalid": 3000}),
    "C10": dict(gen=True, rule="documents whose buffers and images are data URIs, files (odd names, percent-encoded, nested, given directory spelled differently), remote URIs, the binary chunk or views, loaded with every combination of load-external options and of mapping (also declining), unmapping and decoding callbacks; and the same with one reference broken (missing, unreadable, folder, undecodable, too short); non-trivial: at least two pieces of data / every broken case; distinct by text and configuration",
                must_reach={"data URI": 1000, "data URI mapped": 1000, "file": 500, "file mapped": 500, "chunk": 300, "chunk mapped": 300, "remote": 300, "kept URI": 500, "file missing": 100, "folder instead of file": 100, "file unreadable": 100, "file too short": 50, "incomplete base64": 100, "data URI too short": 100, "chunk too short": 100, "no data": 100, "buffer without data": 100, "buffer without data next to a chunk": 100}),
    "C21": dict(lib=[], libs=[], rule="vectors, matrices (all nine shapes) and quaternions with integer or real components in float, double and int, every operation compared with plain-loop definitions in double; non-trivial: every case; distinct by choice sequence",
                must_reach={"mat 2x4": 1000, "mat 3x2": 1000, "mat 4x4": 1000, "wide matrix last column": 1000, "inverse2": 500, "inverse3": 500, "inverse4": 500, "affine inverse": 1000, "rotation": 10000, "slerp": 1000, "slerp-negative": 1000, "slerp-near": 500, "slerp-opposite": 500, "vec int4": 1000}),
    "C22": dict(lib=[], libs=[], opt="-O1", rule="random operation histories on up to three containers at once against std models, with element life-cycle and allocator accounting (element kinds: trivial, owning, throwing-move, copy-only, nested; allocators: counting, std, polymorphic with three resources), with arguments that are elements of the container itself and with constructors and allocations that throw; equality of static vectors; non-trivial: at least 2-3 steps; distinct by choice sequence",
                must_reach={"grew beyond inline storage": 5000, "copied or moved": 5000, "pmr": 5000, "own element": 2000, "failed operation": 2000, "converted": 1000, "Optional<float>": 1000, "Optional<Filter>": 1000}),
    "C12": dict(lib=["fastgltf.cpp", "base64.cpp", "io.cpp"],
                rule="URIs assembled from RFC 3986 components (with percent-encoded bytes), arbitrary and mutated text, and histories of copies/moves/assignments of views and owned URIs checked against a component model; non-trivial: text longer than 3 characters / history with at least one copy or move; distinct by text or choice sequence",
                must_reach={"authority-no-path": 500, "percent": 5000, "ip-literal": 1000, "no-port": 1000, "fragment-with-?": 500, "arbitrary-valid": 5000, "arbitrary-invalid": 1000, "long-history": 5000}),
    "C11": dict(rule="byte strings of every length up to the bound, encoded by an independent RFC 4648 encoder and decoded by every decoder of the machine (dispatching, portable, SSE4, AVX2), plus arbitrary 4-aligned text and data URIs through the parser; non-trivial: at least one byte/quad; distinct by text",
                must_reach={"simd-loop": 500, "pad0": 100, "pad1": 100, "pad2": 100, "garbage": 1000, "custom-decoder": 100}),
    "C17": dict(rule="accessors of every type and component type over generated bytes (normalised or not, stride, offsets, sparse overlays with 8, 16 and 32-bit indices, no view, up to 66000 elements, several kinds of data source and own adapters) read as every supported element type and element types of a user; non-trivial: more than one element and overlay, stride, normalisation or conversion; distinct by data and types",
                must_reach={"sparse": 5000, "no view": 2000, "normalized": 2000, "stride": 5000, "padded columns": 500, "more than 256 elements": 2000, "8-bit sparse indices of a long accessor": 200}),
    "C18": dict(rule="accessors as for C17 visited by callback, indexed callback, range, and random histories of iterator moves, reads, copies and comparisons, and copied with four target strides or as components of every type into memory with a known background; compared with element access (components: with the reference values); non-trivial: more than one element and overlay, stride, normalisation or conversion; distinct by data and types",
                must_reach={"sparse": 2500, "no view": 2000, "normalized": 2000, "stride": 5000, "padded columns": 1000, "iterator history": 4000, "contiguous copy": 2000, "strided copy": 5000, "components": 5000}),
    "C19": dict(gen=True, rule="documents whose meshes mix modes, vertex counts (1.. and around 2^8, 2^16 and thirds of them), primitives with and without positions, indices and shared accessors, category masks; and arbitrary valid documents; loaded with and without generation, the primitives drawn by the resolved indices compared with those drawn by the vertices in order and everything else compared; non-trivial: indices were generated; distinct by text",
                must_reach={"points": 300, "lines": 300, "line loop": 300, "line strip": 300, "triangles": 300, "strip": 300, "fan": 300, "around 8 bits": 1000, "around 16 bits": 30, "one or two vertices": 300, "several": 1000, "mask": 300}),
    "C20": dict(gen=True, rule="products of translation, rotation (half and quarter turns, nearly degenerate, arbitrary) and scale (equal, mixed, negative, extreme, zero) loaded as matrices with decomposition and recomposed in double; node matrices with bases; random forests, shared nodes and deep chains walked and compared with a reference walk in double; non-trivial: every product, more than one visit; distinct by values",
                must_reach={"mirrored": 5000, "two negative scales": 2000, "half turn": 2000, "zero scale": 1000, "matrix": 2000, "shared nodes": 500, "deep": 50, "const asset": 1000}),
    "C13": dict(gen=True, rule="generated documents (all extensions) loaded, their bytes held in arrays, vectors or views and any of their numbers replaced by any finite number, exported compact or pretty and compared with an independent reading of the text and with the reloaded asset, exported again; non-trivial: more than three objects / numbers changed; distinct by document text and choices",
                must_reach={e: 200 for e in ["KHR_lights_punctual", "KHR_materials_variants", "KHR_physics_rigid_bodies", "KHR_implicit_shapes", "KHR_draco_mesh_compression", "EXT_mesh_gpu_instancing", "EXT_meshopt_compression", "KHR_texture_transform"]}),
    "C14": dict(gen=True, rule="generated assets (bytes in arrays, vectors or views of exactly their size, also longer than the byte length) exported as containers, read by an independent container reader, an independent JSON reader and the library; every length of buffer and text; objects that cannot be written; non-trivial: an embedded buffer / a refused asset; distinct by document text and choices",
                must_reach={"chunk": 3000, "padded chunk": 1500, "no chunk": 1000, "more bytes": 300, "reused exporter": 500, "custom buffer": 200, "buffer without data": 200, "custom image": 200, "image without data": 200, "too few bytes": 100}),
    "C15": dict(gen=True, rule="every string of a generated asset replaced by arbitrary text (control characters, quotes, backslashes, slashes, any code point), exported as text (also pretty-printed, also with extras) and container and read by an independent JSON parser; the two helpers on arbitrary JSON texts, already formatted ones, arbitrary strings and arbitrary bytes; non-trivial: a string changed / escaped / present; distinct by text",
                must_reach={"strings changed": 2500, "extras": 1500, "string ends in backslash": 150, "quote": 600, "twice": 2000}),
    "C16": dict(gen=True, rule="assets with buffers and images in memory under generated names (duplicates, paths, absolute paths, reserved characters, lengths, escapes), written by the file exporter to existing, new, nested, relative and old folders inside a scratch directory, then every file of the directory compared and the document read by an independent reader and loaded; faults (folders and full devices in place of files, files in place of folders, long names) that must be reported; non-trivial: several objects / every fault; distinct by the whole case",
                must_reach={"buffer path": 1000, "image path": 1000, "absolute path": 200, "relative target": 600, "current folder": 200, "target collision": 40, "old files": 300, "file of buffers": 1500, "file of images": 1500, "buffer fault": 100, "image fault": 200, "unwritable asset": 200}),
    "C24": dict(gen=True, rule="documents with generated extras (nested, with member names of glTF) on any objects of every category, in any member order, with category masks, loaded with a recording callback; assets exported with a callback that answers any JSON value per object; both chained; non-trivial: several objects with extras; distinct by text",
                must_reach=dict({k: 300 for k in ("accessors", "animations", "buffers", "bufferViews", "cameras", "images", "materials", "meshes", "nodes", "samplers", "scenes", "skins", "textures", "shapes", "physicsMaterials", "collisionFilters", "physicsJoints")}, mask=1000, **{"indices generated": 500})),
    "C25": dict(rule="all 65536 component codes; every pair of accessor and component type; accessor, combine and drive names and near misses; extension bit sets (also unknown bits); flag operators on arbitrary bits of every flag type; error and media type names; hashes of byte strings of every length mod 8 ending at the end of their allocation against a bitwise model; bit, alignment, angle and prefix helpers over boundary values; Expected with values and errors; non-trivial: more than zero or one bit, byte, entry; distinct by value",
         must_reach={"known": 8, "other name": 1000, "hardware": 5000, "Category": 1000, "prefix": 1000, "value": 1000, "error": 1000}),
    "C23": dict(gen=True, rule="assets loaded from valid documents (core and all extensions, single-root documents, every loading option) plus values at the edges of the rules: accepted; the same with one rule broken at a random place (every reference, range, type, count, alignment, pairing and extension rule): refused; and with arbitrary indices everywhere: safe, repeatable, and every reference of an accepted asset leads somewhere; non-trivial: more than three objects; distinct by text and edits",
                must_reach={"single root document": 500, "accepted": 300, "refused": 1500, **{r: 5 for r in ["required but not used", "accessor type", "component type", "accessor count", "accessor.bufferView", "accessor offset alignment", "view offset alignment", "stride alignment", "no channels", "no samplers", "two channels with one target", "channel.sampler", "channel.node", "sampler.input", "sampler.output", "animation input type", "animation input component", "animation output count", "single cubic key", "buffer length", "view length", "view stride", "view.buffer", "meshopt without extension", "meshopt.buffer", "meshopt stride", "meshopt triangle count", "camera zero", "image.bufferView", "light", "texture reference", "primitive.material", "variants without extension", "variant mapping count", "variant mapping", "primitive.indices", "stride on index view", "attribute accessor", "target accessor", "draco.bufferView", "attribute name", "position bounds", "unsigned int in custom attribute", "node reference", "instancing accessor", "physics reference", "rotation component", "skin without mesh", "weights without mesh", "skin without joints and weights", "node flag without extension", "two parents", "cycle", "scene with an inner node", "mag filter", "scene.nodes", "scene", "no joints", "skin reference", "texture.sampler", "texture image", "texture without image", "single root", "cone angles", "small range", "unit rotation", "zero scale", "tiny camera", "meshopt values", "bounds only on one side", "more extensions", "channels without node", "one node, other paths", "single key", "quantization with floats", "numbered attributes", "no default scene", "empty scene", "roots again", "deep nodes", "unmapped variants", "min of wrong type", "max of wrong type", "sparse indices view", "sparse values view", "sparse indices with stride", "sparse values with target", "KHR_materials_ior", "KHR_materials_sheen", "POSITION type", "POSITION component", "NORMAL type", "NORMAL component", "TANGENT type", "TANGENT component", "TEXCOORD_ type", "TEXCOORD_ component", "COLOR_ type", "COLOR_ component", "JOINTS_ type", "JOINTS_ component", "WEIGHTS_ type", "WEIGHTS_ component"]}}),
    "C27": dict(gen=True, rule="histories of values (int64 and double, one to four components, existing bounds or none, moved in between) added to the bounds of an accessor, also in another order; the elements of generated accessors; and any bounds of every accessor type; compared with plain minima and maxima in memory, in the exported text and after reloading; non-trivial: more than one value or component; distinct by values",
                must_reach={"bounds before": 800, "one bound before": 1000, "all positive": 1000, "all negative": 1000, "moved": 4000, "MAT3": 500, "sparse": 500}),
    "C28": dict(gen=True, rule="assets built in memory from valid documents (all object kinds and extensions, optional members present or absent): default-initialised objects on memory that held something else, only the members of the document set; compared with the schema's defaults, with the loaded document, and by their exports; non-trivial: some optional member is left to its default; distinct by text",
                must_reach={"unset members": 5000, "binary": 1500, **{e: 300 for e in ["EXT_meshopt_compression", "KHR_lights_punctual", "KHR_texture_transform", "KHR_physics_rigid_bodies", "KHR_implicit_shapes", "KHR_materials_volume", "KHR_materials_clearcoat", "EXT_texture_webp"]}}),
    "C26": dict(gen=True, lib=[], libs=["-Wl,--no-as-needed", "-lsimdjson", "-ldl"], own_flags=[], shared=CONFIGS, probe="C26_probe.cpp", assumptions=["builds checked: default, C++20, GCC C++23 -O2, 64-bit numbers, custom small vector, no memory pool, no physics extensions, and a combination with -O2; all on x86-64 Linux"],
                rule="valid documents (core and all extensions, plain or binary, with random options, extension sets and categories) and broken ones, loaded, validated, read (accessors, scenes), exported as JSON and binary, and reloaded by eight builds of the library in one process; results compared with the default build, wide numbers also with the document; non-trivial: more than three objects / every broken case; distinct by text and options",
                must_reach={"physics": 300, "matrices": 200, "binary container": 200, "some categories": 200, "defect": 400, "text edited": 400}),
    "C01": dict(gen=True, rule="arbitrary bytes; valid documents (core and all extensions) with up to four edits of the text or the tree; well-formed documents with any indices and counts; damaged binary containers; documents in files next to other files; very long, deep or linked documents; each loaded with random options, extensions, categories, callbacks and entry points, then validated, walked, read, exported both ways and destroyed, twice; non-trivial: the bytes pass the container and JSON parsers; distinct by bytes and settings",
    fuzz={"raw": 1200, "damaged_tree": 400}, fuzz_seeds={"raw": "damaged_text"}, fuzz_len=6000, must_reach={"loaded": 2500, "valid": 1500, "walked": 300, "container": 3000, "InvalidJson": 1000, "InvalidGltf": 3000, "nesting": 500, "chain": 3, "doubling": 3, "cycle": 3}),
}

import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":hook}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
F="src/fastgltf.cpp";IO="src/io.cpp";B="src/base64.cpp";C="include/fastgltf/core.hpp";T="include/fastgltf/types.hpp";TL="include/fastgltf/tools.hpp";M="include/fastgltf/math.hpp";U="include/fastgltf/util.hpp"

p("C01","Loading arbitrary bytes is total and memory-safe",
"For every byte sequence, load function, option set and extension set, loading returns either an asset or an error code: it never crashes, throws, hangs, leaks, or reads or writes outside the memory it was given. Whatever asset it returns can be validated, have its scenes walked after validation succeeds, be exported and be destroyed equally safely. Memory and time stay in proportion to the input (index generation: to the declared vertex counts).",
["inputs","configurations"],"all byte strings (arbitrary, structurally valid glTF/GLB, and mutations of valid ones), all load entry points, options, extension masks and categories",
"The tests load a few dozen well-formed files; memory safety must hold for every hostile or truncated input.",
[F,IO,C,B],[("Parser::loadGltf/loadGltfJson/loadGltfBinary and Parser::parse",F+":~680-1260, 4290-4640"),("parse* functions",F+":1263-4290"),("validate",F+":~1000-1260")],["return value of load*, sanitizer reports"])
p("C02","Core glTF documents are represented faithfully",
"For every valid glTF 2.0 document, loading succeeds and the asset holds exactly the document's content: every core object in order, every property with its value (numbers to the precision of the field), every reference index, and the specification's default for every omitted property. The result does not depend on property order, whitespace, number spelling or string escaping in the text.",
["inputs"],"all valid core documents (scenes, nodes, meshes, accessors incl. sparse and bounds, buffers, views, materials, textures, samplers, images, skins, cameras, animations, asset info) and all JSON spellings of each",
"Tests compare a few fields of a few sample files (most absent here); faithfulness quantifies over every property, combination and spelling.",
[F,T],[("parseAccessors..parseTextures",F+":1900-4290"),("hash-keyed dispatch on property names and enum strings",F)],["fields of Asset"])
p("C03","Enabled extensions are represented faithfully",
"For every valid document using supported extensions that are enabled on the parser, loading succeeds and the asset holds exactly the extension content of the document, with the extension's documented defaults for omitted properties, attached to the right object and independent of which other extensions sit beside it.",
["inputs","configurations"],"all supported extensions (texture transform/basisu/dds/webp, materials_*, lights, quantization, mesh/meshopt/draco compression, gpu instancing, material variants, packed textures, implicit shapes, rigid bodies, audio-free subset) in all combinations",
"Sample tests touch one extension each with fixed values, and most need assets missing here; interactions between extensions and defaults are unbounded.",
[F,T],[("parseMaterialExtensions, parsePrimitiveExtensions, parseTextureInfo",F+":1263-2100, 2760-3400"),("parseLights, parsePhysics*, parseShapes",F)],["fields of Asset"])
p("C04","Malformed documents are rejected with an error",
"A document in which a required property is missing, a property has the wrong JSON type, a fixed-size array has the wrong length, or an enumerated property has a value outside its enumeration is refused: loading yields an error code and no asset, wherever in the document (core objects and enabled extensions) the defect sits. Text that is not JSON is refused as such. Exempt: names, extras, image MIME types (open ended) and root extension values that are no objects (skipped by design).",
["inputs"],"all single structural defects (remove a required member, retype a member, out-of-enum value, truncated/garbled JSON) of all valid documents",
"Tests cover a handful of defects; the guarantee is for a defect at any place of any document.",
[F],[("error paths of parse* functions",F)],["Expected<Asset>::error()"])
p("C05","Extension and version gating is exact",
"Loading fails with the unsupported-extension or missing-extension error exactly when the document requires an extension that is unknown, respectively not enabled on the parser, and fails with the invalid or unsupported version error exactly when a valid 2.x asset member is demanded and absent. Data of extensions that are not enabled leaves no trace in the asset apart from the recorded used/required lists.",
["inputs","configurations"],"all subsets of enabled extensions x documents using and requiring subsets of known and unknown extensions x asset members",
"2^N extension masks; tests exercise single masks.",
[F,C],[("Parser::parse extension/version checks",F+":~4290-4400"),("hasBit(config.extensions, ..) guards",F)],["Expected<Asset>::error()","Asset content"])
p("C06","Partial loading is a projection of full loading",
"Loading with a category mask yields exactly what full loading yields for the requested categories and for those that they refer to, and leaves every other category empty; the asset reports which categories are available.",
["inputs","configurations"],"all category masks x all documents",
"2^18 masks; tests use a few presets.",
[F,C],[("category dispatch in Parser::parse",F+":~4380-4640")],["Asset content, availableCategories"])
p("C07","A load depends only on its own inputs",
"The result of a load depends only on the bytes, directory, options and parser configuration passed to it: not on earlier loads with the same parser (successful or failed), on other parsers alive, or on the parser having been moved. Returned assets are self-contained: they stay intact and unchanged when the parser and the data source are reused or destroyed, and when the asset is moved.",
["histories"],"all sequences of loads (valid, broken, JSON, GLB), parser moves and destructions, data source destructions and asset moves",
"Tests load once per parser; leftover state needs a particular history to show.",
[F,C,T],[("Parser members (glbBuffer, directory, config)",C+":~820-940"),("memoryResource shared with the asset",T)],["assets returned at each step"],None,[("Parser::glbBuffer","embedded buffer of the last GLB","src/fastgltf.cpp")])
p("C08","All data sources and containers load the same content",
"The same glTF bytes give the same asset whether they come from a memory copy, a file, a memory map or a stream, and the same JSON gives the same asset as a plain document or inside a binary container with or without padding. A data source reports exactly the bytes it was created from and refuses files that cannot be read.",
["inputs"],"all documents x {memory, file, mmap, stream} x {auto-detect, JSON, GLB entry}",
"Tests use one source per file and never compare them.",
[IO,F,C],[("GltfDataBuffer, MappedGltfFile, GltfFileStream",IO),("loadGltf dispatch",F+":~4480")],["assets, GltfDataGetter reads"])
p("C09","Binary containers are accepted exactly when well-formed",
"A binary glTF is loaded if and only if its header, lengths, chunk order, chunk types and chunk sizes are consistent with the bytes provided; the embedded buffer is then exactly the binary chunk's bytes. File type detection answers binary for the binary magic, JSON for a JSON object and invalid otherwise, for any length of data.",
["inputs"],"all mutations of header and chunk fields, truncations and paddings of GLB files; all byte strings for type detection",
"Tests load a few well-formed GLBs (absent here).",
[F],[("Parser::loadGltfBinary, determineGltfFileType",F+":~4400-4560")],["error code, embedded buffer bytes"])
p("C10","Buffer and image data resolve to exactly the referenced bytes",
"Every buffer and image ends up as the documented kind of source holding exactly the bytes, URI, media type or view the document refers to, for data URIs, external files (with and without the load-external options, relative to the given directory), the embedded binary chunk, buffer views, and user-supplied mapping or decoding callbacks. A reference whose data is missing, unreadable, undecodable or shorter than declared is reported as an error instead of producing a wrong source.",
["inputs","configurations"],"all buffers/images of all kinds x options x callbacks x file contents",
"Tests resolve a few well-known files; byte-exactness over sizes, URIs, callbacks and failures is not sampled.",
[F,IO,B,C],[("loadFileFromUri, decodeDataUri, parseBuffers, parseImages",F+" and "+IO)],["Buffer::data, Image::data, callback arguments"])
p("C11","Base64 decoding inverts encoding for every length",
"Decoding the standard base64 encoding of any byte string returns exactly those bytes, for every length and padding, whichever vectorised or portable decoder the machine selects. Decoding any text whose length is a multiple of four, base64 or not, stays inside the text and the exact output size.",
["inputs","configurations"],"all byte strings; all 4-aligned texts; portable, SSE4, AVX2 decoders",
"Two fixed strings in the tests; SIMD tails depend on the length modulo the block size.",
[B,"include/fastgltf/base64.hpp"],[("avx2/sse4/fallback_decode(_inplace)",B)],["decoded bytes, guard bytes"])
p("C12","URIs decompose per RFC 3986",
"Any URI assembled from components is taken apart into the same scheme, user info, host, port, path, query and fragment, with percent-encoded bytes decoded in owned URIs, and the data-URI and local-path classifications match the components. Any other text is either reported invalid or decomposed without reading outside it, and copying, moving or reassigning a URI always yields components of the current text.",
["inputs","histories"],"all component combinations and percent encodings; arbitrary text; sequences of copy/move/assign",
"Seven fixed strings in the tests.",
[T,F],[("URI, URIView::parse, decodePercents",F+":~560-760")],["URI accessors"])
p("C13","Exporting and reloading reproduces the asset",
"Exporting an asset as JSON and loading the text again (with the extensions it uses enabled) yields an asset with the same content in every supported category and extension, and exporting that again yields the same text. Pretty-printing changes only insignificant whitespace.",
["inputs"],"all assets reachable by loading valid documents or built in memory from valid field values",
"Tests round-trip one or two nearly empty assets; each property has its own writer.",
[F],[("Exporter::write*",F+":4800-7200")],["exported text, reloaded asset"])
p("C14","Binary export produces a valid container with exact bytes",
"Exporting an asset as binary glTF yields a well-formed container (magic, version, exact total length, 4-byte aligned and correctly padded chunks) whose JSON equals the plain export and whose binary chunk is exactly the first embedded buffer's bytes, and loading it reproduces the asset and its bytes. Exporting never reads beyond the buffer bytes it was given, and assets that cannot be represented are refused with an error.",
["inputs"],"all assets x first buffer kinds and sizes (including sizes not divisible by four and empty)",
"No passing test exports GLB here with varying sizes.",
[F],[("Exporter::writeGltfBinary",F+":~7080-7180")],["container bytes"])
p("C15","Exported text is valid JSON for every string content",
"For every asset, whatever characters its names, URIs, media types, attribute names, variant names and generator strings contain, the exported text is one syntactically valid JSON object in which every string has its original value. The public escape and pretty-print helpers preserve the value of every JSON text and string.",
["inputs"],"all strings (quotes, backslashes, control characters, UTF-8) in all string-valued members; all JSON texts for the helpers",
"One string with a quote and a backslash is tested.",
[F],[("escapeString, prettyPrintJson, write* string members",F+":4740-4860")],["exported text"])
p("C16","Exported folders are complete and reloadable",
"Exporting an asset to a file writes the document and every buffer and image file it refers to into the target folder, with exactly the exporter's bytes, and loading that file with external loading enabled reproduces the asset and all buffer and image bytes. No file is written outside the target folder, no two objects share a file, and any failure to write is reported as an error.",
["inputs","fault_sequences"],"all assets x names (duplicates, separators, dots, percent signs, non-ASCII) x buffer/image path prefixes x unwritable targets",
"Tests export one asset to the temp folder.",
[F],[("FileExporter, getBufferFilePath/getImageFilePath, writeFiles",F+":~7180-7315"),("Exporter::writeBuffers/writeImages",F)],["files on disk, returned Error"])
p("C17","Reading an accessor element yields the specified value",
"For every valid accessor of any component type, element type, normalisation, stride, offset and sparse overlay, reading element i yields exactly the value the glTF specification assigns to it, converted to the requested element type; accessors without a buffer view read as zeros apart from sparse substitutions.",
["inputs"],"all accessor layouts x sparse overlays (all index component types) x destination element types (scalars, fastgltf vectors and matrices)",
"The tests read a few fixed accessors; the cross product of types, strides, padding and sparse patterns is not sampled.",
[TL,T],[("getAccessorElement, getAccessorComponentAt, findSparseIndex, convertAccessorElement, convertComponent",TL)],["element values"])
p("C18","Iteration and bulk copies agree with element access",
"Visiting an accessor by callback, by indexed callback, by iterator range or copying it in bulk (contiguous, strided, or as components) delivers exactly the elements obtained by reading each index separately, in order, with indices 0..count-1, and writes only the bytes of those elements in the destination.",
["inputs"],"all valid accessors x all destination types and strides",
"Tests compare a few accessors of existing assets.",
[TL],[("iterateAccessor, IterableAccessor, iterateAccessorWithIndex, copyFromAccessor, copyComponentsFromAccessor",TL)],["values, destination guard bytes"])
p("C19","Generated mesh indices describe the same primitives",
"When index generation is requested, every primitive without indices and with a position attribute receives an index accessor whose resolved values draw exactly the primitives the non-indexed vertices would (as a list topology where the mode is converted), using an index type that fits the vertex count and in-range indices; all other primitives and all existing objects are unchanged.",
["inputs"],"all primitive modes x vertex counts (0, tiny, around 2^8 and 2^16) x mixtures of indexed and non-indexed primitives",
"One test on one sample file.",
[F],[("generateMeshIndices",F+":~780-1000")],["index accessor content"])
p("C20","Node transforms compose and decompose consistently",
"A node's local matrix equals translation times rotation times scale, or its stored matrix; walking a scene visits each reachable node exactly once per path in document order with the product of its ancestors' matrices; and loading with matrix decomposition yields translation, rotation and scale values which, for every matrix that is such a product with non-zero scale, recompose to the original matrix.",
["inputs"],"all TRS values incl. negative scales and half-turn rotations, all matrices of that form, all node forests",
"A few rotations in the tests; signs and degenerate angles are corner cases.",
[TL,M,F],[("getLocalTransformMatrix, getTransformMatrix, iterateSceneNodes",TL),("decomposeTransformMatrix",M),("parseNodes with DecomposeNodeMatrices",F)],["matrices"])
p("C21","Vector, quaternion and matrix operations obey linear algebra",
"Vector, quaternion and matrix arithmetic agrees with the textbook definitions for all sizes: component-wise operators, dot, cross, length, normalisation, matrix and vector products, transpose, determinant, inverse, translation/rotation/scale builders, quaternion/matrix conversion and comparison.",
["inputs"],"all dimensions (2..4, square and non-square), all finite inputs of moderate size",
"Tests evaluate a few constants.",
[M],[("fastgltf::math",M)],["results vs. double precision reference"])
p("C22","Container types behave like their standard counterparts",
"Under any sequence of operations the library's small vector, static vector, fixed-size container and optional-with-sentinel types hold the same elements as the corresponding standard container or optional, construct and destroy every element exactly once, and use every allocator only for the memory it allocated; also when an argument is an element of the container itself, or when an element's constructor or the allocator throws.",
["histories"],"all sequences of construction, assignment, copy, move, push, insert, erase, resize, reserve, shrink, clear, swap on one or several containers, trivially copyable and not, with and without polymorphic allocators",
"Tests run a few short fixed sequences.",
[T],[("SmallVector, StaticVector, OptionalWithFlagValue, span",T+":560-1300")],["container contents, element life cycle counters, allocator logs"])
p("C23","Validation accepts exactly what its rules allow",
"Validating a loaded asset succeeds for every document that obeys the specification's rules, fails for every document that breaks one of the rules validation covers (references out of range, sparse/bufferView/accessor consistency, alignment, joint and weight pairing, node and skin rules), and is safe and side-effect free for every asset.",
["inputs"],"all valid documents; all single-rule violations of them; arbitrary index values everywhere",
"A few validated samples; each rule needs its own violating document.",
[F],[("fastgltf::validate",F+":~1000-1260")],["Error returned"])
p("C24","Extras callbacks see and write each object's extras",
"While loading, the extras callback is called exactly once for each top-level object of the document whose extras are a JSON object, with that object's category, its index and its extras value; while exporting, the extras callback is asked for each object with its category and index and the text it returns appears as that object's extras.",
["inputs"],"all documents with extras on any subset of objects x all extras values",
"One test checks one object kind.",
[F],[("extrasCallback call sites",F)],["callback invocations, exported text"])
p("C25","Enum, name and component helpers are consistent inverses",
"The helper functions agree with the specification's tables and with each other: component and element sizes and counts, accessor type names and back, component type codes and back, extension bits and their names, error names, hashing of names (identical results for hardware and table variants), bit-flag operators, alignment and unit conversions.",
["inputs"],"all enumerators, all strings, all flag values",
"Tests check one or two values per helper.",
[U,T,F,C],[("getElementByteSize, getAccessorType, crc32c, stringifyExtension, ...",T+", "+U+", "+C)],["return values"])
p("C26","Supported build configurations agree",
"Every supported build configuration (language standard, double precision numbers, custom small vector, disabled memory pool, optional physics extensions off) loads, validates and exports the same documents with the same results, up to the precision of the number type.",
["configurations","inputs"],"build configurations x documents",
"Tests are built in one configuration.",
["CMakeLists.txt",F,T,U],[("FASTGLTF_USE_64BIT_FLOAT, FASTGLTF_USE_CUSTOM_SMALLVECTOR, FASTGLTF_DISABLE_CUSTOM_MEMORY_POOL, FASTGLTF_ENABLE_*",T+", "+C)],["dumps of loaded assets, exported texts"])
p("C27","Accessor bounds equal the extremes of the values included",
"After any sequence of values has been included in the bounds of an accessor, its minimum and maximum are component by component exactly the smallest and largest of these values (and of bounds that were there before), independent of the order, and survive moves and assignments of accessors. Bounds of any type, length and value are exported as exactly these numbers and read back equal.",
["histories","inputs"],"all sequences of values of both number types with one to four components, over no, one-sided or existing bounds; all bounds of all accessor types",
"Three fixed sequences are tested, all of which contain zero or both signs.",
[T,F],[("Accessor::updateBoundsToInclude",T+":~2700"),("AccessorBoundsArray",T+":1609-1762"),("writeAccessors, parseAccessors",F)],["Accessor::min, Accessor::max, exported text"])
p("C28","Objects built in memory have the specification's defaults",
"Every optional member of an object that a program constructs itself and leaves alone has the default that the specification gives it, no matter what the memory held before: an asset built in memory from only the members that a document sets is equal to the asset loaded from that document, passes validation like it and exports as the same text and the same binary container.",
["inputs","histories"],"all assets (every object kind and extension) x all subsets of optional members left unset x all previous contents of the memory",
"Tests build a handful of objects in memory, on whatever memory they get, and set nearly all members.",
[T,F],[("default member initialisers of the structures of the asset","include/fastgltf/types.hpp:1885-2830"),("Exporter::write*",F),("validate",F)],["members of default-initialised objects, validation result, exported text"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))

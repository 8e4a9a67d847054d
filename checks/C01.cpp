// C01: loading any bytes ends with an asset or an error, and whatever is returned can be validated, walked, read,
// exported and destroyed. The oracle: sanitizers and exceptions; a processor time limit per case; the same bytes give
// the same results twice; and the second time leaves no memory, descriptor or mapping behind.
#include <lib/dump.hpp>
#include <lib/defect.hpp>
#include <lib/glb.hpp>
#include <lib/guard.hpp>
#include <lib/sources.hpp>
#include <fastgltf/tools.hpp>
#include <fastgltf/util.hpp>
#include <simdjson.h>
using namespace pbt;
namespace fg = fastgltf;
using js::Json; using files::Bytes;
extern "C" size_t __sanitizer_get_current_allocated_bytes();

struct Setup { int entry = 0, source = 0; fg::Options opt = fg::Options::None; uint64_t exts = 0; uint32_t cats = 0; bool extras = false, map = false, exportOptions = false, base64 = false; const files::Dir* dir = nullptr; };
struct Res { std::string load = "", rest = ""; uint64_t dump = 0; bool loaded = false, valid = false, walked = false; size_t nodes = 0; };

static std::string errorCode(fg::Error e, const char* where) {
	auto n = fg::getErrorName(e); auto m = fg::getErrorMessage(e);
	require(!n.empty() && (!m.empty() || e == fg::Error::None), "error code", [&] { return std::string(where) + " returns a value that is no error code: " + std::to_string(static_cast<uint64_t>(e)); });
	return std::string(n);
}
static bool readable(const fg::Asset& a, size_t view, size_t off, size_t count, size_t stride, size_t elem) {
	if (view >= a.bufferViews.size()) return false;
	auto& v = a.bufferViews[view]; if (v.meshoptCompression || v.bufferIndex >= a.buffers.size()) return false;
	size_t n; auto* p = dp::dataPtr(a.buffers[v.bufferIndex].data, n); if (!p || v.byteOffset > n || v.byteLength > n - v.byteOffset || off > v.byteLength) return false;
	size_t room = v.byteLength - off; if (v.byteStride) stride = *v.byteStride;
	return count > 0 && count < 20000 && elem <= room && stride < 65536 && (count - 1) * stride <= room - elem;
}
struct Mapped { std::vector<std::unique_ptr<std::byte[]>> all; };

static Res exercise(const Setup& s, const Bytes& bytes, const files::fs::path& file) {
	Res r;
	fg::Parser parser(static_cast<fg::Extensions>(s.exts));
	struct U { Mapped m; size_t extras = 0; } u; parser.setUserPointer(&u);
	if (s.extras) parser.setExtrasParseCallback([](simdjson::dom::object* o, std::size_t i, fg::Category, void* p) { static_cast<U*>(p)->extras += 1 + i; for (auto kv : *o) static_cast<U*>(p)->extras += kv.key.size(); });
	if (s.map) parser.setBufferAllocationCallback([](std::uint64_t n, void* p) -> fg::BufferInfo { auto& m = static_cast<U*>(p)->m; if (n > 1u << 24 || m.all.size() % 3 == 2) return {nullptr, 0}; m.all.emplace_back(new std::byte[n]); return {m.all.back().get(), m.all.size()}; }, [](fg::BufferInfo*, void*) {});
	if (s.base64) parser.setBase64DecodeCallback([](std::string_view e, uint8_t* out, std::size_t pad, std::size_t n, void*) { if (n + pad > 1u << 26) abort(); memset(out, static_cast<int>(e.size() & 0xff), n); });
	fg::Error e = fg::Error::None; auto src = sources::make(s.source, bytes, file, &e);
	if (!src) { r.load = errorCode(e, "opening the source"); return r; }
	r.rest = std::to_string(static_cast<int>(fg::determineGltfFileType(*src)));
	auto cat = static_cast<fg::Category>(s.cats);
	auto dir = s.dir ? s.dir->path : files::fs::path();
	auto a = s.entry == 0 ? parser.loadGltfJson(*src, dir, s.opt, cat) : s.entry == 1 ? parser.loadGltfBinary(*src, dir, s.opt, cat) : parser.loadGltf(*src, dir, s.opt, cat);
	r.load = errorCode(a.error(), "loading"); if (a.error() != fg::Error::None) return r;
	r.loaded = true; r.rest += " extras" + std::to_string(u.extras);
	auto& as = a.get(); r.dump = hashStr(js::text(dp::dump(as)));
	auto v = fg::validate(as); r.rest += " " + errorCode(v, "validating"); r.valid = v == fg::Error::None;
	if (r.valid && (s.cats & 0x3ffff) == 0x3ffff) {
		for (size_t i = 0; i < as.scenes.size() && r.nodes < 200000; ++i) fg::iterateSceneNodes(as, i, fg::math::fmat4x4(), [&](fg::Node& n, const fg::math::fmat4x4&) { ++r.nodes; (void)n; });
		r.walked = true; double sum = 0;
		for (auto& x : as.accessors) {
			size_t es = fg::getElementByteSize(x.type, x.componentType), cs = fg::getComponentByteSize(x.componentType); if (!es || !cs) continue;
			bool ok = x.bufferViewIndex ? readable(as, *x.bufferViewIndex, x.byteOffset, x.count, es, es) : x.count < 20000;
			if (x.sparse) { auto ies = fg::getComponentByteSize(x.sparse->indexComponentType); ok = ok && x.sparse->count <= x.count && readable(as, x.sparse->indicesBufferView, x.sparse->indicesByteOffset, x.sparse->count, ies, ies) && readable(as, x.sparse->valuesBufferView, x.sparse->valuesByteOffset, x.sparse->count, es, es); }
			if (!ok || x.componentType == fg::ComponentType::Double || x.componentType == fg::ComponentType::Int) continue;
			switch (x.type) {
				case fg::AccessorType::Scalar: if (!x.sparse && x.componentType != fg::ComponentType::Float) { fg::iterateAccessor<uint32_t>(as, x, [&](uint32_t f) { sum += f; }); } else fg::iterateAccessor<float>(as, x, [&](float f) { sum += f == f ? 1 : 2; }); break;
				case fg::AccessorType::Vec3: fg::iterateAccessor<fg::math::fvec3>(as, x, [&](fg::math::fvec3 f) { sum += f[0] == f[0]; }); break;
				case fg::AccessorType::Vec4: { std::vector<fg::math::fvec4> o(x.count); fg::copyFromAccessor<fg::math::fvec4>(as, x, o.data()); for (auto& f : o) sum += f[3] == f[3]; break; }
				default: break;
			}
		}
		r.rest += " " + std::to_string(r.nodes) + " " + std::to_string(sum);
	}
	auto eo = s.exportOptions ? fg::ExportOptions::ValidateAsset | fg::ExportOptions::PrettyPrintJson : fg::ExportOptions::None;
	{ fg::Exporter x; auto t = x.writeGltfJson(as, eo); r.rest += " json:" + errorCode(t.error(), "exporting"); if (t.error() == fg::Error::None) r.rest += std::to_string(hashStr(t.get().output)); }
	{ fg::Exporter x; auto t = x.writeGltfBinary(as, eo); r.rest += " glb:" + errorCode(t.error(), "binary export"); if (t.error() == fg::Error::None) r.rest += std::to_string(hashBytes(t.get().output.data(), t.get().output.size())); }
	if (s.dir) { // copies of the asset outlive the original
		fg::Asset moved(std::move(as)); r.rest += std::to_string(hashStr(js::text(dp::dump(moved))) == r.dump ? 1 : 0);
	}
	return r;
}
static size_t openFds() { size_t n = 0; for (auto& e : files::fs::directory_iterator("/proc/self/fd")) { (void)e; ++n; } return n; }
static bool mappedStill(const files::fs::path& p) { std::ifstream f("/proc/self/maps"); std::string l; while (std::getline(f, l)) if (l.find(p.string()) != l.npos) return true; return false; }

static Setup setup(Gen& g) {
	Setup s; s.entry = static_cast<int>(g.draw(2)); s.opt = static_cast<fg::Options>(0);
	for (auto o : {fg::Options::AllowDouble, fg::Options::DontRequireValidAssetMember, fg::Options::LoadExternalBuffers, fg::Options::DecomposeNodeMatrices, fg::Options::LoadExternalImages, fg::Options::GenerateMeshIndices}) if (g.chance(1, 3)) s.opt |= o;
	s.exts = g.chance(1, 4) ? g.draw((1ull << 32) - 1) : static_cast<uint64_t>(fg::to_underlying(dp::extBits(gg::allExts())));
	s.cats = g.chance(1, 5) ? static_cast<uint32_t>(g.draw(0x3ffff)) : static_cast<uint32_t>(fg::Category::All);
	uint64_t f = g.draw(255); s.extras = (f & 3) == 3; s.map = (f & 12) == 12; s.exportOptions = (f & 16) != 0; s.base64 = (f & 224) == 224;
	return s;
}
// indices are generated for as many vertices as the document declares: only ask for that where it is not too many
static bool fewVertices(Setup s, const Bytes& b, const files::fs::path& file) {
	s.opt &= ~fg::Options::GenerateMeshIndices; s.extras = s.map = false; fg::Parser p(static_cast<fg::Extensions>(s.exts)); auto src = sources::make(s.source, b, file); if (!src) return true;
	auto a = s.entry == 0 ? p.loadGltfJson(*src, s.dir ? s.dir->path : "", s.opt) : s.entry == 1 ? p.loadGltfBinary(*src, s.dir ? s.dir->path : "", s.opt) : p.loadGltf(*src, s.dir ? s.dir->path : "", s.opt);
	if (a.error() != fg::Error::None) return true;
	uint64_t total = 0;
	for (auto& m : a->meshes) for (auto& q : m.primitives) { auto it = q.findAttribute("POSITION"); if (it != q.attributes.end() && it->accessorIndex < a->accessors.size()) { auto n = a->accessors[it->accessorIndex].count; if (n > 1u << 20 && n <= 0xffffffffu) return false; total += n & 0xffffffff; } }
	return total < 1u << 22;
}
static Res judge(Gen& g, Setup s, const Bytes& b, const files::fs::path& file = {}) {
	if (fg::hasBit(s.opt, fg::Options::GenerateMeshIndices) && !fewVertices(s, b, file)) s.opt &= ~fg::Options::GenerateMeshIndices;
	std::unique_ptr<guard::Sizes> guarded; std::unique_ptr<guard::Mappings> maps; if (b.size() > 20 && b.size() < 20000 && !g.chance(2, 3)) { guarded = std::make_unique<guard::Sizes>(b.size() * 3 / 4, b.size() + 256); maps = std::make_unique<guard::Mappings>(); }
	auto first = exercise(s, b, file);
	size_t fds = s.dir ? openFds() : 0, before = __sanitizer_get_current_allocated_bytes();
	size_t after; bool same; std::string what;
	{ Res second = exercise(s, b, file); same = second.load == first.load && second.rest == first.rest && second.dump == first.dump; if (!same) what = "first " + first.load + first.rest + ", then " + second.load + second.rest; }
	after = __sanitizer_get_current_allocated_bytes();
	require(same || !what.empty(), "harness", "");
	require(same, "not the same twice", [&] { return "the same bytes do not give the same results twice: " + what; });
	if (what.capacity() <= 22) require(after == before, "leak", [&] { return "loading these bytes leaves " + std::to_string(static_cast<int64_t>(after) - static_cast<int64_t>(before)) + " bytes behind"; });
	if (s.dir) { require(openFds() == fds, "descriptor leak", "loading leaves file descriptors open"); if (!file.empty()) require(!mappedStill(file), "mapping leak", "the file is still mapped"); }
	g.label(first.loaded ? "loaded" : "refused"); if (first.valid) g.label("valid"); if (first.walked && first.nodes) g.label("walked"); if (!first.loaded) g.label(first.load);
	if (first.load != "InvalidJson" && first.load != "InvalidFileData" && first.load != "InvalidGLB") g.nontrivial();
	return first;
}
static Bytes bytesOf(const std::string& s) { return Bytes(s.begin(), s.end()); }
static gg::Opts opts(Gen& g) {
	gg::Opts o; o.wild = g.flip(); o.unknowns = g.chance(1, 4); o.maxNodes = 3; o.maxObjects = 2; o.meshoptRequired = g.chance(1, 4); o.accessors64 = g.chance(1, 4); o.external = g.flip(); o.glb = g.flip(); o.extras = g.flip();
	if (g.chance(1, 6)) return o; if (g.flip()) { o.exts = gg::allExts(); return o; } for (auto& e : gg::allExts()) if (g.chance(1, 5)) o.exts.insert(e); return o;
}
// numbers, tokens and texts that parsers get wrong
static std::string nasty(Gen& g) {
	static const std::vector<std::string> v{"0", "1", "-1", "2", "255", "256", "65535", "65536", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551614", "18446744073709551616", "-9223372036854775808", "1e308", "1e400", "-0", "0.5", "1e-400", "1e19", "4.0", "null", "true", "[]", "{}", "\"\"", "[0]", "[[]]", "[{}]", "{\"extensions\":{}}", "\"\\u0000\"", "\"\\ud800\"", "\"data:,\"", "\"data:application/octet-stream;base64,\"", "\"data:application/octet-stream;base64,=\"", "\"data:application/octet-stream;base64,AAA\"", "\"data:;base64\"", "\"data:image/png;base64,====\"", "\"%\"", "\"%2\"", "\"..%2f\"", "\"file:///\"", "\"https://a:b@c:99999/\"", "\"POSITION\"", "\"MAT4\"", "\"SCALAR\"", "5120", "5126", "5130", "34963", "34962"};
	return g.pick(v);
}
static std::string broken(Gen& g, std::string t) {
	size_t edits = 1 + g.draw(4);
	for (; edits > 0 && !t.empty(); --edits) {
		size_t p = g.draw(t.size() - 1);
		switch (g.draw(9)) {
			case 0: t[p] = static_cast<char>(g.draw(255)); break;
			case 1: t.erase(p, 1 + g.draw(8)); break;
			case 2: t.insert(p, 1, static_cast<char>(g.draw(255))); break;
			case 3: t.insert(p, 1, g.pick<char>({'"', '{', '}', '[', ']', ',', ':', '\\', '-', '.', 'e', '0', '9'})); break;
			case 4: t.resize(p); break;
			case 5: { size_t n = 1 + g.draw(60); t.insert(g.draw(t.size() - 1), t.substr(p, n)); break; }
			case 6: { size_t q = t.find_first_of("0123456789", p); if (q == t.npos) break; size_t z = t.find_first_not_of("0123456789.eE+-", q); t.replace(q, (z == t.npos ? t.size() : z) - q, nasty(g)); break; } // a number
			case 7: { size_t q = t.find(':', p); if (q == t.npos) break; size_t z = t.find_first_of(",}]", q); if (z == t.npos) break; t.replace(q + 1, z - q - 1, nasty(g)); break; }
			case 8: { size_t q = t.find('"', p); if (q == t.npos) break; t.insert(q + 1, g.pick<std::string>({"\\u0000", "\\", "\xff", "%00", "\xf0\x9f\x98\x80", "/../", "\\ud83d"})); break; }
			default: { size_t n = 1 + g.draw(40), q = g.draw(t.size() - 1); auto x = t.substr(q, n); t.replace(p, std::min(n, t.size() - p), x); break; }
		}
	}
	return t;
}
static Json& anyValue(Gen& g, Json& j) { // some value of the tree
	Json* p = &j;
	while (true) { size_t n = p->a.size() + p->o.size(); if (!n || (p != &j && g.chance(1, 4))) return *p; size_t k = g.draw(n - 1); p = k < p->a.size() ? &p->a[k] : &p->o[k - p->a.size()].second; }
}
static void brokenTree(Gen& g, Json& root) {
	for (size_t n = 1 + g.draw(4); n > 0; --n) {
		auto& v = anyValue(g, root);
		switch (g.draw(7)) {
			case 0: { Json j; std::string e; if (js::parse(nasty(g), j, e)) v = j; break; }
			case 1: { Json c = anyValue(g, root); v = c; break; } // something else's value
			case 2: if (v.isArr() && !v.a.empty()) { auto c = v.a[g.draw(v.a.size() - 1)]; v.a.push_back(c); } break;
			case 3: if (v.isArr() && !v.a.empty()) v.a.erase(v.a.begin() + static_cast<long>(g.draw(v.a.size() - 1))); break;
			case 4: if (v.isObj() && !v.o.empty()) v.o.erase(v.o.begin() + static_cast<long>(g.draw(v.o.size() - 1))); break;
			case 5: if (v.isObj() && !v.o.empty()) { auto c = v.o[g.draw(v.o.size() - 1)]; v.o.push_back(c); } break; // twice the same member
			case 6: if (v.isNum()) v = Json(g.flip() ? g.draw(8) : g.draw(~0ull)); break;
			default: if (v.isObj()) { Json j; std::string e; js::parse(nasty(g), j, e); v.o.emplace_back(g.pick<std::string>({"extensions", "extras", "sparse", "indices", "children", "mesh", "bufferView", "byteOffset", "byteStride", "max", "min", "matrix", "uri", "mimeType", "targets", "weights", "nodes", "scene"}), j); } break;
		}
		if (js::text(root).size() > 60000) break;
	}
}
static files::Bytes container(Gen& g, const std::string& t, bool damage) {
	Bytes bin; bool have = g.flip(); if (have) { size_t n = g.draw(600); for (size_t i = 0; i < n; ++i) bin.push_back(static_cast<uint8_t>(i * 7)); }
	auto b = glb::pack(t, have ? &bin : nullptr, g.draw(2));
	if (damage) for (size_t n = g.draw(3); n > 0 && !b.empty(); --n) switch (g.draw(3)) {
		case 0: b[g.draw(std::min<size_t>(b.size() - 1, 23))] = static_cast<uint8_t>(g.draw(255)); break;
		case 1: b.resize(g.draw(b.size())); break;
		case 2: { static const std::vector<uint32_t> v{0, 1, 2, 3, 4, 7, 8, 12, 16, 20, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xfffffffcu, 0xffffffffu, glb::Json, glb::Bin}; size_t at = 4 * g.draw(4); if (at + 4 <= b.size()) { uint32_t x = g.pick(v); memcpy(&b[at], &x, 4); } break; }
		default: b.push_back(static_cast<uint8_t>(g.draw(255))); break;
	}
	return b;
}
static void note(Gen& g, const Setup& s, const Bytes& b) {
	g.key(hashBytes(b.data(), b.size()) ^ static_cast<uint64_t>(s.opt) ^ s.exts ^ (static_cast<uint64_t>(s.cats) << 32));
	g.note("entry " + std::to_string(s.entry) + " source " + sources::name(s.source) + " options " + std::to_string(static_cast<uint64_t>(s.opt)) + " extensions " + std::to_string(s.exts) + " categories " + std::to_string(s.cats) + "\n" + std::string(b.begin(), b.end()));
}
PROPERTY(arbitrary_bytes, 6000, 400000) {
	auto s = setup(g); s.source = static_cast<int>(g.pick({sources::Memory, sources::Own}));
	Bytes b; size_t n = g.chance(1, 4) ? g.draw(2000) : g.draw(64);
	switch (g.draw(3)) {
		case 0: for (size_t i = 0; i < n; ++i) b.push_back(static_cast<uint8_t>(g.draw(255))); break;
		case 1: b = bytesOf("{\"asset\":{\"version\":\"2.0\"}"); for (size_t i = 0; i < n; ++i) b.push_back(static_cast<uint8_t>(g.pick<char>({'{', '}', '[', ']', ',', ':', '"', '0', '1', '.', ' ', 'e', '-', 'a', '\\', 'u'}))); break;
		case 2: glb::u32(b, glb::Magic); glb::u32(b, 2); for (size_t i = 0; i < n; ++i) b.push_back(static_cast<uint8_t>(g.chance(1, 2) ? 0 : g.draw(255))); break;
		default: { // deep or wide nesting
			auto open = g.pick<std::string>({"[", "{\"a\":", "[{\"a\":", "{\"extensions\":", "{\"extras\":["}); std::string t = "{\"asset\":{\"version\":\"2.0\"},\"" + g.pick<std::string>({"extras", "nodes", "extensions", "x"}) + "\":"; size_t d = g.flip() ? g.draw(40) : g.draw(3000); std::string cl; for (size_t i = 0; i < d; ++i) t += open; t += g.pick<std::string>({"0", "[]", "{}", ""});
			for (size_t k = open.size(); k > 0; --k) if (open[k - 1] == '[') cl += ']'; else if (open[k - 1] == '{') cl += '}'; for (size_t i = 0; i < d; ++i) t += cl; if (g.chance(7, 8)) t += "}"; b = bytesOf(t); g.label("nesting"); break; }
	}
	note(g, s, b); judge(g, s, b);
}
PROPERTY(damaged_text, 9000, 800000) {
	auto s = setup(g); auto d = gg::document(g, opts(g)); s.source = static_cast<int>(g.pick({sources::Memory, sources::Own}));
	if (const char* to = getenv("VERIF_DOCS")) { std::ofstream f(std::string(to) + "/" + std::to_string(hashStr(js::text(d.root)))); f << std::string(11, '\0') << js::text(d.root); } // seeds of the coverage-guided search
	auto t = broken(g, g.chance(1, 5) ? js::textWith(d.root, g) : js::text(d.root));
	Bytes b = bytesOf(t); if (s.entry == 1 || (s.entry == 2 && g.flip())) { b = container(g, t, true); g.label("container"); }
	note(g, s, b); judge(g, s, b);
}
PROPERTY(damaged_tree, 14000, 1200000) {
	auto s = setup(g); auto d = gg::document(g, opts(g)); auto root = d.root; s.source = static_cast<int>(g.pick({sources::Memory, sources::Own}));
	brokenTree(g, root); auto t = js::text(root); Bytes b = bytesOf(t); if (s.entry == 1 || (s.entry == 2 && g.flip())) { b = container(g, t, g.chance(1, 4)); g.label("container"); }
	note(g, s, b); judge(g, s, b);
}
// the document is well-formed, but its indices and counts are anything
PROPERTY(hostile_references, 8000, 800000) {
	auto s = setup(g); s.exts = static_cast<uint64_t>(fg::to_underlying(dp::extBits(gg::allExts()))); auto o = opts(g); o.maxNodes = 5; auto d = gg::document(g, o); auto root = d.root;
	static const std::set<std::string> no{"version", "componentType", "type", "target", "mode", "wrapS", "wrapT", "magFilter", "minFilter"};
	size_t rate = 1 + g.draw(12);
	std::function<void(Json&, const std::string&)> walk = [&](Json& j, const std::string& k) {
		if ((j.t == Json::Uint || j.t == Json::Int) && !no.count(k) && g.chance(1, rate)) { j = Json(g.chance(2, 3) ? g.draw(6) : g.pick<uint64_t>({255, 256, 65535, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, ~0ull - 1, ~0ull / 2, ~0ull / 16, ~0ull - 15})); return; }
		for (auto& x : j.a) walk(x, k); for (auto& kv : j.o) walk(kv.second, kv.first);
	};
	for (auto& kv : root.o) if (kv.first != "asset") walk(kv.second, kv.first);
	auto t = js::text(root); Bytes b = bytesOf(t); s.entry = g.chance(1, 4) ? 1 : 0; if (s.entry == 1) b = container(g, t, false); s.source = sources::Own;
	note(g, s, b); auto r = judge(g, s, b); if (r.loaded) g.nontrivial();
}
// from files, with other files next to them
PROPERTY(files_on_disk, 2500, 150000) {
	auto s = setup(g); files::Dir dir; s.dir = &dir; auto o = opts(g); o.external = true; auto d = gg::document(g, o); auto root = d.root;
	s.source = static_cast<int>(g.pick({sources::FileBuffer, sources::Mapped, sources::Stream, sources::Memory}));
	dir.put("a.bin", Bytes(64, 1)); dir.put("empty.bin", Bytes()); dir.put("%.bin", Bytes(3, 2)); files::fs::create_directory(dir.path / "sub"); files::fs::create_symlink("loop", dir.path / "loop");
	for (auto k : {"buffers", "images"}) if (auto* l = root.find(k)) for (auto& x : l->a) if (x.find("uri") && g.chance(2, 3)) x["uri"] = Json(g.pick<std::string>({"a.bin", "a.bin", "empty.bin", "%25.bin", "sub", "loop", "sub/../a.bin", ".", "", "missing", "a.bin/x", "a%00.bin", "%ff", "file:a.bin", "file:///nonexistent", "//host/a.bin", "http://host/a.bin", "a.bin?x#y"}));
	if (g.flip()) brokenTree(g, root);
	auto t = js::text(root); if (g.chance(1, 5)) t = broken(g, t); Bytes b = bytesOf(t); if (s.entry == 1 || (s.entry == 2 && g.flip())) { b = container(g, t, g.flip()); g.label("container"); }
	if (g.chance(1, 8)) { size_t page = 4096; if (b.size() < page) b.resize(page, s.entry == 1 ? 0 : ' '); }
	auto f = dir.put("m.gltf", b); note(g, s, b); judge(g, s, b, f);
}
// documents with very many or very deeply linked objects
PROPERTY(extents, 60, 1500) {
	auto s = setup(g); s.cats = static_cast<uint32_t>(fg::Category::All); s.entry = 0; s.source = sources::Memory; s.exts = static_cast<uint64_t>(fg::to_underlying(dp::extBits(gg::allExts())));
	size_t n = g.pick<size_t>({1000, 20000, g.thorough ? 400000u : 60000u}); std::string t = "{\"asset\":{\"version\":\"2.0\"},";
	switch (g.draw(5)) {
		case 0: t += "\"scenes\":[{\"nodes\":[0]}],\"nodes\":["; for (size_t i = 0; i + 1 < n; ++i) t += "{\"children\":[" + std::to_string(i + 1) + "]},"; t += "{}]}"; g.label("chain"); break;
		case 1: t += "\"scenes\":[{\"nodes\":[0]}],\"nodes\":[{\"children\":["; for (size_t i = 1; i < n; ++i) t += (i > 1 ? "," : "") + std::to_string(i); t += "]}"; for (size_t i = 1; i < n; ++i) t += ",{}"; t += "]}"; g.label("many children"); break;
		case 2: t += "\"nodes\":["; for (size_t i = 0; i < n; ++i) t += (i ? ",{\"children\":[" : "{\"children\":[") + std::to_string((i + 1) % n) + "]}"; t += "],\"scenes\":[{\"nodes\":[0]}]}"; g.label("cycle"); break;
		case 3: t += "\"nodes\":["; for (size_t i = 0; i < 64; ++i) t += (i ? ",{\"children\":[" : "{\"children\":[") + std::to_string(i + 1) + "," + std::to_string(i + 1) + "]}"; t += ",{}],\"scenes\":[{\"nodes\":[0]}]}"; g.label("doubling"); break; // 2^64 paths
		case 4: t += "\"meshes\":[{\"primitives\":["; for (size_t i = 0; i < n / 10; ++i) t += std::string(i ? "," : "") + "{\"attributes\":{\"A" + std::to_string(i) + "\":0}}"; t += "]}]}"; g.label("many primitives"); break;
		default: t += "\"nodes\":[{\"name\":\"" + std::string(n, 'x') + "\"}],\"buffers\":[{\"byteLength\":1,\"uri\":\"data:application/octet-stream;base64," + std::string(n / 4 * 4, 'A') + "\"}]}"; g.label("long strings"); break;
	}
	g.nontrivial(); g.key(hashStr(t) ^ static_cast<uint64_t>(s.opt)); g.note(t.substr(0, 300)); auto r = judge(g, s, bytesOf(t));
	if (t.find("\"children\":[1,1]") != t.npos || (r.loaded && r.valid)) require(r.nodes <= 400000, "walk", "the walk does not end");
}
// for coverage-guided search: settings, then the document's own bytes
PROPERTY(raw, 300, 20000) {
	auto s = setup(g); s.source = sources::Own; s.exts = static_cast<uint64_t>(fg::to_underlying(dp::extBits(gg::allExts()))) | (s.exts & 1);
	Bytes b = bytesOf(g.flip() ? "{\"asset\":{\"version\":\"2.0\"}," : ""); if (g.mode == Gen::Mode::Bytes) while (!g.exhausted()) b.push_back(static_cast<uint8_t>(g.draw(255))); else for (size_t n = g.draw(200); n > 0; --n) b.push_back(static_cast<uint8_t>(g.draw(255)));
	note(g, s, b); judge(g, s, b);
}

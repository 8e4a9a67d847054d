// Generates valid glTF documents from the schema, demand-driven: whatever an object needs to refer to is created.
#pragma once
#include "schema.hpp"
#include <pbt/pbt.hpp>

namespace gg {
using js::Json; using gs::Ty; using gs::Fld; using gs::Schema; using pbt::Gen;
using Bytes = std::vector<uint8_t>;

inline std::string b64(const Bytes& b) {
	static const char* al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o;
	for (size_t i = 0; i < b.size(); i += 3) {
		uint32_t v = static_cast<uint32_t>(b[i]) << 16 | (i + 1 < b.size() ? b[i + 1] << 8 : 0) | (i + 2 < b.size() ? b[i + 2] : 0);
		o += al[v >> 18]; o += al[(v >> 12) & 63]; o += i + 1 < b.size() ? al[(v >> 6) & 63] : '='; o += i + 2 < b.size() ? al[v & 63] : '=';
	}
	return o;
}
inline Bytes randBytes(Gen& g, size_t n) { // few choices, whatever the length
	Bytes b(n); uint64_t s = g.draw(0xffff);
	for (size_t i = 0; i < n; ++i) { if (s == 0) b[i] = 0; else b[i] = static_cast<uint8_t>(pbt::mix(s + i) >> 13); }
	return b;
}
inline std::string hexs(const Bytes& b) { return pbt::hex(b.data(), b.size(), ~size_t(0)); }

// a string of valid Unicode text; wild: any code point incl. control characters and quotes
inline std::string str(Gen& g, size_t max = 8, bool wild = true) {
	std::string o;
	for (size_t n = g.size(max); n > 0; --n) {
		switch (wild ? g.draw(9) : 0) {
			case 5: js::utf8(o, static_cast<uint32_t>(g.draw(0x1f))); break;
			case 6: o += g.pick({'"', '\\', '/', '{', '}', '[', ']', ',', ':', ' ', '\x7f'}); break;
			case 7: js::utf8(o, static_cast<uint32_t>(g.range<uint64_t>(0xa0, 0xd7ff))); break;
			case 8: js::utf8(o, static_cast<uint32_t>(g.range<uint64_t>(0xe000, 0x10ffff))); break;
			default: o += static_cast<char>(g.pick({'a', 'b', 'Z', '0', '9', '_', '.', '-', ' '})); break;
		}
	}
	return o;
}
inline double real(Gen& g, double lo, double hi) {
	switch (g.draw(4)) {
		case 0: { auto v = std::floor(lo + static_cast<double>(g.draw(static_cast<uint64_t>(hi - lo)))); return v < lo ? lo : v; }
		case 1: return lo + (hi - lo) * static_cast<double>(g.draw(16)) / 16.0;
		case 2: { double v = std::round((lo + (hi - lo) * static_cast<double>(g.draw(10000)) / 10000.0) * 100) / 100; return v < lo ? lo : v > hi ? hi : v; }
		case 3: return lo + (hi - lo) * static_cast<double>(g.draw((1ull << 52) - 1)) / static_cast<double>(1ull << 52);
		default: { double v = std::ldexp(1.0 + static_cast<double>(g.draw(1023)) / 1024, -static_cast<int>(g.draw(60))); return v >= lo && v <= hi ? v : lo; }
	}
}

// a name that looks like the given one
inline std::string nearName(Gen& g, std::string n) {
	if (n.empty()) return "_";
	switch (g.draw(8)) {
		case 0: return n + g.pick<std::string>({"s", "_", " ", "1", "2", "\t", ".", "Index"});
		case 1: return g.pick<std::string>({"_", " ", "x", "gltf."}) + n;
		case 2: n.pop_back(); return n;
		case 3: { size_t i = g.draw(n.size() - 1); n[i] = static_cast<char>(isupper(static_cast<unsigned char>(n[i])) ? tolower(n[i]) : toupper(n[i])); return n; }
		case 4: { size_t i = g.draw(n.size() - 1); n[i] = n[i] == 'x' ? 'y' : 'x'; return n; }
		case 5: n.erase(g.draw(n.size() - 1), 1); return n;
		case 6: { size_t i = g.draw(n.size() - 1), k = g.draw(n.size() - 1); std::swap(n[i], n[k]); return n; }
		case 7: n.insert(g.draw(n.size()), 1, '\0'); return n;
		default: for (auto& c : n) c = static_cast<char>(g.draw(1) ? toupper(c) : tolower(c)); return n;
	}
}
// another name with the same CRC-32C (the hash by which the library tells names apart)
inline std::string sameHash(Gen& g, const std::string& n) {
	static const auto t = [] { std::array<uint32_t, 256> a{}; for (uint32_t i = 0; i < 256; ++i) { uint32_t c = i; for (int k = 0; k < 8; ++k) c = c & 1 ? c >> 1 ^ 0x82F63B78u : c >> 1; a[i] = c; } return a; }();
	static const auto rev = [] { std::array<uint32_t, 256> a{}; for (uint32_t i = 0; i < 256; ++i) a[t[i] >> 24] = i; return a; }();
	uint32_t want = 0; for (unsigned char c : n) want = t[(want ^ c) & 255] ^ want >> 8;
	uint64_t seed = g.draw(0xffff);
	for (uint64_t k = 0; k < 5000; ++k) {
		std::string o; uint64_t r = pbt::mix(seed * 8191 + k); for (size_t i = 0; i < 1 + seed % 7; ++i) { o += static_cast<char>("abcdefghijklmnopqrstuvwxyzABCDEF"[r & 31]); r >>= 5; }
		uint32_t s = 0; for (unsigned char c : o) s = t[(s ^ c) & 255] ^ s >> 8;
		uint32_t idx[4], cur = want; for (int i = 3; i >= 0; --i) { idx[i] = rev[cur >> 24]; cur = (cur ^ t[idx[i]]) << 8; }
		bool ok = true; for (int i = 0; i < 4; ++i) { auto b = static_cast<uint8_t>((s ^ idx[i]) & 255); s = t[idx[i]] ^ s >> 8; if (b < 0x20 || b > 0x7e) ok = false; o += static_cast<char>(b); }
		if (ok && s == want && o != n) return o;
	}
	return n + "?";
}
inline std::string unknownName(Gen& g, const std::string& n) { return g.flip() ? sameHash(g, n) : nearName(g, n); }

struct Opts {
	gs::Exts exts;              // extensions the document may use
	bool wild = true;           // arbitrary Unicode names
	unsigned maxNodes = 5, maxObjects = 3;
	bool external = false;      // buffers/images may be external files
	bool glb = false;           // buffer 0 may have no URI (binary chunk)
	bool extras = false;        // attach extras objects
	bool unknowns = true;       // unknown members and extensions sprinkled in
	bool sparse = true, noView = true;
	bool matrix = true;         // nodes may have matrices
	bool indexed = true;        // primitives may have indices
	bool accessors64 = false;   // double accessors without KHR_accessor_float64 (Options::AllowDouble)
	bool imageMimeOnUri = true; // mimeType may accompany an image uri
	bool required = true;       // may fill extensionsRequired
	std::set<std::string> skipArrays; // arrays never generated spontaneously
	bool meshoptRequired = false;
};
static const size_t compSize[] = {1, 1, 2, 2, 0, 4, 4, 0, 0, 0, 8};
inline size_t csize(uint64_t ct) { return compSize[ct - 5120]; }
inline size_t ncomp(const std::string& t) { return t == "SCALAR" ? 1 : t == "VEC2" ? 2 : t == "VEC3" ? 3 : t == "VEC4" || t == "MAT2" ? 4 : t == "MAT3" ? 9 : 16; }
inline size_t elemSize(const std::string& t, uint64_t ct) { // with the column padding of the specification
	size_t c = csize(ct);
	if (t == "MAT2" || t == "MAT3") { size_t n = t == "MAT2" ? 2 : 3; return n * ((n * c + 3) / 4 * 4); }
	return ncomp(t) * c;
}
struct BufferPlan { Bytes data; enum { Data, File, Chunk, Fallback } kind = Data; std::string uri, mime, file; };
struct ImagePlan { int kind = 0; /*0 data uri, 1 file, 2 view*/ Bytes data; std::string mime, uri, file; };

struct Doc {
	Json root = Json::obj();
	std::vector<BufferPlan> buffers; std::vector<ImagePlan> images;
	std::map<std::string, Bytes> files;          // external files by relative path (decoded)
	bool hasChunk = false; Bytes chunk;
	gs::Exts used;
	size_t objects() const { size_t n = 0; for (auto& p : root.o) if (p.second.isArr()) n += p.second.a.size(); return n; }
};

Doc document(Gen& g, Opts o);
const gs::Exts& allExts(); // every extension the library knows, minus those not described in the schema
void addData(Json& norm, const Doc& d, bool loadBuffers, bool loadImages); // expected data sources; load*: external files are loaded
#ifdef PBT_GEN
struct Builder {
	Gen& g; Opts o; Doc d; std::map<std::string, Json> arrs; int depth = 0;
	std::map<std::string, bool> busy;
	std::set<std::string> exts; // chosen for this document
	std::vector<size_t> nodeParent;
	std::vector<bool> meshSkinned; std::vector<size_t> meshTargets;
	std::vector<bool> viewIsPlain;
	Builder(Gen& gen, Opts op) : g(gen), o(std::move(op)) { for (auto& e : o.exts) if (o.exts.size() < 4 || g.chance(1, 2)) exts.insert(e); }

	bool on(const std::string& e) { return exts.count(e) != 0; }
	Json& arr(const std::string& k) { auto& a = arrs[k]; if (a.t == Json::Null) a = Json::arr(); return a; }
	Json& use(Json& obj, const std::string& e) { d.used.insert(e); return obj["extensions"][e]; }

	// ---- generic generation
	Json val(const Ty& t) {
		switch (t.k) {
			case Ty::Uint: return Json(static_cast<uint64_t>(t.min) + g.draw(static_cast<uint64_t>(t.max - t.min)));
			case Ty::Num: case Ty::Dbl: return num(real(g, t.min, t.max));
			case Ty::Bool: return Json(g.flip());
			case Ty::Str: return Json(str(g, 8, o.wild));
			case Ty::EnumS: return Json(g.pick(t.es));
			case Ty::EnumI: return Json(g.pick(t.ei));
			case Ty::Obj: return obj(*t.s);
			case Ty::Arr: { auto a = Json::arr(); size_t n = t.lo + g.draw(t.hi - t.lo); for (size_t i = 0; i < n; ++i) a.push(val(*t.elem)); return a; }
			case Ty::Ref: return Json(static_cast<uint64_t>(ref(t.ref)));
			default: return Json::obj();
		}
	}
	Json num(double v) { if (v == std::floor(v) && std::fabs(v) < 1e6 && g.chance(2, 3)) return Json(static_cast<int64_t>(v)); return Json(v); }
	bool canRef(const std::string& r) {
		if (busy[r]) return !arr(r).a.empty();
		return true;
	}
	bool refsOk(const Schema& s) { for (auto& f : s.f) if (f.req && f.ty.k == Ty::Ref && !canRef(f.ty.ref)) return false; return true; }
	Json obj(const Schema& s) {
		auto j = Json::obj();
		bool rich = g.chance(1, 3);
		for (auto& f : s.f) {
			if (f.hand) continue;
			if (!f.ext.empty()) {
				if (!on(f.ext) || !(f.req || g.chance(rich ? 2 : 1, rich ? 3 : 6)) || !refsOk(*f.ty.s)) continue;
				Json e = obj(*f.ty.s);
				if (f.ext == "KHR_physics_rigid_bodies") body(e);
				use(j, f.ext) = e; continue;
			}
			if (f.ty.k == Ty::Ref && !canRef(f.ty.ref)) continue;
			if (f.ty.k == Ty::Obj && !refsOk(*f.ty.s)) continue;
			if (f.req || g.chance(rich ? 2 : 1, rich ? 3 : 4)) j[f.key] = val(f.ty);
		}
		finish(j, s);
		return j;
	}
	// unknown members and extras, which a loader must ignore
	static bool known(const std::string& n) {
		static const auto all = [] { std::set<std::string> k(allExts().begin(), allExts().end()); for (auto e : {"KHR_accessor_float64", "GODOT_single_root", "extensions", "extras", "extensionsUsed", "extensionsRequired", "asset", "scene"}) k.insert(e); for (auto& [n, s] : gs::spec().m) { (void)n; for (auto& f : s.f) { k.insert(f.key); k.insert(f.ext); } } for (auto& [n, s] : gs::spec().arrays) { (void)s; k.insert(n); } for (auto& [e, n, s] : gs::spec().extArrays) { (void)e; (void)s; k.insert(n); } return k; }();
		return all.count(n) > 0;
	}
	Json odd() { switch (g.draw(6)) { case 0: return Json(7); case 1: return Json(); case 2: return Json("x"); case 3: return Json::arr({Json::obj()}); case 4: return Json::obj({{"name", 1}, {"uri", Json()}}); case 5: return Json::arr({Json("x"), Json(-1)}); default: return Json::obj({{"source", 7}, {"index", "x"}, {"name", Json::arr()}, {"extensions", Json::obj()}}); } }
	void finish(Json& j, const Schema& s) {
		if (o.unknowns && g.chance(1, 12)) {
			switch (g.draw(5)) {
				case 0: j["extensions"]["EXT_unknown_thing"] = Json::obj({{"source", 7}, {"index", "x"}, {"name", Json::arr()}}); break;
				case 1: j["x_unknown"] = Json::obj({{"name", 1}, {"uri", Json()}}); break;
				case 2: j["extensions"]; if (j["extensions"].t != Json::Obj) j["extensions"] = Json::obj(); break;
				case 3: if (!s.f.empty()) { auto n = unknownName(g, s.f[g.draw(s.f.size() - 1)].key); if (!known(n)) j[n] = odd(); } break;
				case 4: { std::vector<std::string> es; for (auto& f : s.f) if (!f.ext.empty()) es.push_back(f.ext); if (es.empty()) break; auto n = unknownName(g, g.pick(es)); if (!known(n)) { if (j["extensions"].t != Json::Obj) j["extensions"] = Json::obj(); j["extensions"][n] = g.flip() ? odd() : Json::obj({{"offset", Json::arr({Json(1.5), Json(2)})}, {"scale", Json::arr({Json(3), Json(3)})}, {"source", 0}, {"ior", 9.0}, {"light", 0}, {"visible", false}, {"mappings", Json::arr()}}); } break; }
				default: j["extras"] = Json::obj({{"name", "inner"}, {"byteLength", -1}, {"list", Json::arr({Json(1), Json("]}\\\"")})}}); break;
			}
		}
	}
	size_t ref(const std::string& r) {
		auto& a = arr(r);
		bool full = a.a.size() >= o.maxObjects && r != "accessors" && r != "bufferViews";
		if (!a.a.empty() && (full || busy[r] || depth > 6 || g.chance(2, 3))) return g.draw(a.a.size() - 1);
		if (r == "nodes") { node(); return arr(r).a.size() - 1; }
		return make(r);
	}
	size_t make(const std::string& r) {
		++depth; size_t idx = 0;
		bool was = busy[r]; 
		if (r == "materials" || r == "samplers" || r == "cameras") {
			busy[r] = true; Json j = r == "cameras" ? camera() : obj(gs::spec()[r.substr(0, r.size() - 1)]); busy[r] = was; idx = arr(r).a.size(); arr(r).push(j);
		} else if (r == "textures") { busy[r] = true; Json j = texture(); busy[r] = was; idx = arr(r).a.size(); arr(r).push(j); }
		else if (r == "images") idx = image();
		else if (r == "meshes") idx = mesh(g.flip());
		else if (r == "accessors") idx = anyAccessor();
		else if (r == "bufferViews") idx = view(4 + g.draw(12), 1, 0, 0);
		else if (r == "buffers") idx = buffer();
		else if (r == "lights" || r == "shapes" || r == "physicsMaterials" || r == "collisionFilters" || r == "physicsJoints") { Json j = extObj(r); idx = arr(r).a.size(); arr(r).push(j); }
		else if (r == "nodes") { node(); idx = arr(r).a.size() - 1; }
		else pbt::fail("harness", "cannot make " + r);
		--depth; return idx;
	}
	Json texture() {
		auto j = obj(gs::spec()["texture"]);
		// without an extension source the plain one is needed for a complete texture
		bool alt = false; for (auto e : {"KHR_texture_basisu", "MSFT_texture_dds", "EXT_texture_webp"}) if (j.at("extensions").find(e)) alt = true;
		if (!alt || g.flip()) j["source"] = static_cast<uint64_t>(ref("images"));
		return j;
	}
	Json camera() {
		auto j = obj(gs::spec()["camera"]); std::string t = g.flip() ? "orthographic" : "perspective";
		j["type"] = t; j[t] = obj(gs::spec()[t]);
		return j;
	}
	Json extObj(const std::string& r) {
		auto& sp = gs::spec();
		if (r == "lights") {
			auto j = obj(sp["light"]); auto t = g.pick<std::string>({"directional", "point", "spot"}); j["type"] = t;
			if (t != "directional" && g.flip()) j["range"] = val(gs::N(0.1, 50));
			if (t == "spot") j["spot"] = obj(sp["spot"]);
			return j;
		}
		if (r == "shapes") { auto j = Json::obj(); auto t = g.pick<std::string>({"sphere", "box", "capsule", "cylinder"}); j["type"] = t; j[t] = obj(sp[t]); finish(j, sp["shape"]); return j; }
		if (r == "physicsMaterials") return obj(sp["physicsMaterial"]);
		if (r == "collisionFilters") {
			auto j = obj(sp["collisionFilter"]);
			auto k = g.draw(2); if (k) { auto a = Json::arr(); for (size_t n = 1 + g.draw(2); n > 0; --n) a.push(str(g, 6, o.wild)); j[k == 1 ? "collideWithSystems" : "notCollideWithSystems"] = a; }
			return j;
		}
		auto j = Json::obj();
		auto axes = [&] { auto a = Json::arr(); for (uint64_t i = 0; i < 3; ++i) if (g.flip()) a.push(i); if (a.a.empty()) a.push(static_cast<uint64_t>(g.draw(2))); return a; };
		if (g.flip()) { auto a = Json::arr(); for (size_t n = 1 + g.draw(2); n > 0; --n) { auto l = obj(sp["jointLimit"]); l[g.flip() ? "linearAxes" : "angularAxes"] = axes(); a.push(l); } j["limits"] = a; }
		if (g.flip()) {
			auto a = Json::arr();
			for (size_t n = 1 + g.draw(2); n > 0; --n) {
				auto l = obj(sp["jointDrive"]); l["maxForce"] = val(gs::N(0, 99));
				if (g.flip()) { l["positionTarget"] = val(gs::N()); l["stiffness"] = val(gs::N(0, 9)); }
				if (g.flip()) { l["velocityTarget"] = val(gs::N()); l["damping"] = val(gs::N(0, 9)); }
				a.push(l);
			}
			j["drives"] = a;
		}
		return j;
	}
	// ---- binary data
	size_t buffer() {
		auto& a = arr("buffers"); size_t i = a.a.size();
		Json j = Json::obj(); if (g.chance(1, 3)) j["name"] = str(g, 8, o.wild); finish(j, gs::spec()["buffer"]);
		BufferPlan p;
		if (i == 0 && o.glb) p.kind = BufferPlan::Chunk;
		else if (o.external && g.flip()) p.kind = BufferPlan::File;
		p.mime = g.pick<std::string>({"application/octet-stream", "application/gltf-buffer"});
		d.buffers.push_back(p); a.push(j); return i;
	}
	size_t view(size_t len, size_t align, uint64_t target, uint64_t stride, const Bytes* content = nullptr) {
		size_t b; auto& bufs = arr("buffers");
		if (bufs.a.empty() || (bufs.a.size() < 3 && g.chance(1, 6))) b = buffer(); else b = g.draw(bufs.a.size() - 1);
		while (d.buffers[b].kind == BufferPlan::Fallback) b = buffer();
		auto& data = d.buffers[b].data;
		if (g.chance(1, 4)) data.resize(data.size() + g.draw(5));
		while (data.size() % (align ? align : 1)) data.push_back(0);
		size_t off = data.size();
		if (!content && off >= len && g.chance(1, 8)) { off = 0; } // overlapping views are fine
		else { Bytes c = content ? *content : randBytes(g, len); data.insert(data.end(), c.begin(), c.end()); }
		auto j = Json::obj(); j["buffer"] = static_cast<uint64_t>(b);
		if (off || g.flip()) j["byteOffset"] = static_cast<uint64_t>(off);
		j["byteLength"] = static_cast<uint64_t>(len);
		if (stride) j["byteStride"] = stride;
		if (target) j["target"] = target;
		if (g.chance(1, 4)) j["name"] = str(g, 8, o.wild);
		if (content == nullptr && on("EXT_meshopt_compression") && target == 34962 && g.chance(1, 3)) {
			// a compressed view: the view itself describes the uncompressed data
			auto& e = use(j, "EXT_meshopt_compression");
			e = obj(gs::spec()["EXT_meshopt_compression"]);
			size_t cl = 4 + g.draw(12), co = data.size(); Bytes c = randBytes(g, cl); data.insert(data.end(), c.begin(), c.end());
			e["buffer"] = static_cast<uint64_t>(b); if (co || g.flip()) e["byteOffset"] = static_cast<uint64_t>(co);
			e["byteLength"] = static_cast<uint64_t>(cl);
			auto m = g.pick<std::string>({"ATTRIBUTES", "TRIANGLES", "INDICES"}); e["mode"] = m;
			uint64_t st = m == "ATTRIBUTES" ? 4 * (1 + g.draw(7)) : 2 + 2 * g.draw(1); e["byteStride"] = st;
			e["count"] = m == "TRIANGLES" ? 3 * (1 + g.draw(3)) : 1 + g.draw(9);
			if (m != "ATTRIBUTES") e.erase("filter");
		}
		finish(j, gs::spec()["bufferView"]);
		size_t i = arr("bufferViews").a.size(); arr("bufferViews").push(j); return i;
	}
	struct Req { std::string type = "SCALAR"; uint64_t comp = 5126; bool normalized = false; size_t count = 1; bool minmax = false; int role = 0; /*0 plain 1 vertex 2 index*/ };
	size_t accessor(const Req& r) {
		auto j = Json::obj();
		size_t es = elemSize(r.type, r.comp), cs = csize(r.comp);
		bool noView = o.noView && r.role != 2 && g.chance(1, 8);
		if (!noView) {
			uint64_t stride = 0; size_t step = es;
			if (r.role == 1 && (es % 4 || g.chance(1, 3))) { step = stride = (es + 3) / 4 * 4 + 4 * g.draw(2); if (stride > 252) { stride = 0; step = es; } }
			size_t off = cs * g.size(3); if (r.role == 1) off = (off + 3) / 4 * 4;
			size_t len = off + (r.count - 1) * step + es + g.size(3);
			uint64_t target = r.role == 1 ? (g.flip() ? 34962 : 0) : r.role == 2 ? (g.flip() ? 34963 : 0) : 0;
			Bytes zeros(len, 0);
			j["bufferView"] = static_cast<uint64_t>(view(len, 4 > cs ? 4 : cs, target, stride, r.role == 2 ? &zeros : nullptr));
			if (off || g.chance(1, 4)) j["byteOffset"] = static_cast<uint64_t>(off);
		}
		j["componentType"] = r.comp; j["count"] = static_cast<uint64_t>(r.count); j["type"] = r.type;
		if (r.normalized || (g.chance(1, 5))) j["normalized"] = r.normalized;
		if (r.minmax || g.chance(1, 5)) {
			auto mn = Json::arr(), mx = Json::arr();
			for (size_t i = 0; i < ncomp(r.type); ++i) {
				if (r.comp >= 5126) { double a = real(g, -50, 50), b = real(g, -50, 50); mn.push(num(std::min(a, b))); mx.push(num(std::max(a, b))); }
				else { bool sg = r.comp == 5120 || r.comp == 5122; int64_t hi = csize(r.comp) == 1 ? (sg ? 127 : 255) : csize(r.comp) == 2 ? (sg ? 32767 : 65535) : 4294967295; int64_t a = g.range<int64_t>(sg ? -hi - 1 : 0, hi), b = g.range<int64_t>(sg ? -hi - 1 : 0, hi); mn.push(std::min(a, b)); mx.push(std::max(a, b)); }
			}
			if (r.minmax || g.chance(3, 4)) j["min"] = mn;
			if (r.minmax || !j.find("min") || g.chance(3, 4)) j["max"] = mx;
		}
		if (o.sparse && r.role != 2 && g.chance(1, 6)) {
			size_t n = 1 + g.draw(r.count - 1); uint64_t ct = g.pick<uint64_t>({5121, 5123, 5125}); if (ct == 5121 && r.count > 255) ct = 5125;
			size_t ics = csize(ct); size_t io = ics * g.size(2), vo = cs * g.size(2);
			Bytes idx(io, 0);
			// strictly increasing indices: choose n of count
			size_t left = n; for (size_t i = 0; i < r.count && left; ++i) if (r.count - i == left || g.draw(r.count - i - 1) < left) { for (size_t k = 0; k < ics; ++k) idx.push_back(static_cast<uint8_t>(i >> (8 * k))); --left; }
			auto s = Json::obj(); s["count"] = static_cast<uint64_t>(n);
			auto si = Json::obj(); si["bufferView"] = static_cast<uint64_t>(view(idx.size(), ics, 0, 0, &idx)); if (io || g.flip()) si["byteOffset"] = static_cast<uint64_t>(io); si["componentType"] = ct;
			Bytes vals = randBytes(g, vo + n * es); auto sv = Json::obj(); sv["bufferView"] = static_cast<uint64_t>(view(vals.size(), 4 > cs ? 4 : cs, 0, 0, &vals)); if (vo || g.flip()) sv["byteOffset"] = static_cast<uint64_t>(vo);
			s["indices"] = si; s["values"] = sv; j["sparse"] = s; g.label("sparse");
		}
		if (g.chance(1, 4)) j["name"] = str(g, 8, o.wild);
		finish(j, gs::spec()["accessor"]);
		size_t i = arr("accessors").a.size(); arr("accessors").push(j); return i;
	}
	size_t anyAccessor() {
		Req r; r.type = g.pick<std::string>({"SCALAR", "VEC2", "VEC3", "VEC4", "MAT2", "MAT3", "MAT4"}); r.comp = g.pick<uint64_t>({5126, 5120, 5121, 5122, 5123, 5125});
		bool f64 = on("KHR_accessor_float64"); if ((o.accessors64 || f64) && g.chance(1, 5)) { r.comp = 5130; if (f64) d.used.insert("KHR_accessor_float64"); g.label("double accessor"); }
		r.count = 1 + g.size(6); r.normalized = r.comp < 5125 && g.flip(); return accessor(r);
	}
	size_t image() {
		Json j = Json::obj(); if (g.chance(1, 3)) j["name"] = str(g, 8, o.wild);
		ImagePlan p; p.mime = g.pick(gs::mimes());
		p.kind = static_cast<int>(g.draw(2)); if (p.kind == 1 && !o.external) p.kind = 0;
		if (p.kind == 2) { j["bufferView"] = static_cast<uint64_t>(view(1 + g.draw(9), 1, 0, 0)); j["mimeType"] = p.mime; }
		else {
			p.data = randBytes(g, 1 + g.size(20)); size_t i = d.images.size();
			if (p.kind == 0) p.uri = "data:" + p.mime + ";base64," + b64(p.data);
			else { p.file = fileName("img" + std::to_string(i)); d.files[p.file] = p.data; p.uri = encodeName(p.file); }
			j["uri"] = p.uri;
			if (o.imageMimeOnUri && g.flip()) j["mimeType"] = p.mime; else if (p.kind == 1) p.mime = "";
		}
		finish(j, gs::spec()["image"]);
		d.images.push_back(p); arr("images").push(j); return d.images.size() - 1;
	}
	std::string fileName(const std::string& base) {
		std::string n = base;
		switch (g.draw(4)) { case 1: n += " spaced.bin"; break; case 2: n = "sub/" + n + ".bin"; break; case 3: n += "\xc3\xa9%#?.bin"; break; default: n += ".bin"; }
		return n;
	}
	std::string encodeName(const std::string& n) {
		std::string o2;
		bool raw = g.flip();
		for (unsigned char c : n) { if (isalnum(c) || c == '/' || c == '.' || c == '_' || c == '-' || (c >= 0x80 && raw)) o2 += static_cast<char>(c); else { char b[4]; snprintf(b, 4, g.flip() ? "%%%02X" : "%%%02x", c); o2 += b; } }
		return o2;
	}
	// ---- meshes
	size_t mesh(bool skinned) {
		auto& sp = gs::spec(); auto m = Json::obj(); auto prims = Json::arr();
		bool quant = on("KHR_mesh_quantization") && g.flip(); if (quant) d.used.insert("KHR_mesh_quantization");
		size_t targets = g.chance(1, 3) ? 1 + g.draw(1) : 0;
		for (size_t np = 1 + g.size(2); np > 0; --np) {
			size_t mode = g.draw(6), count = mode == 0 ? 1 + g.size(6) : mode == 1 ? 2 * (1 + g.size(3)) : mode <= 3 ? 2 + g.size(5) : mode == 4 ? 3 * (1 + g.size(3)) : 3 + g.size(5);
			Json p = obj(sp["primitive"]), at = Json::obj();
			auto F = [&](const char* t, bool mm = false) { Req r; r.type = t; r.count = count; r.role = 1; r.minmax = mm; return r; };
			auto add = [&](const std::string& n, Req r) { at[n] = static_cast<uint64_t>(accessor(r)); };
			if (g.chance(9, 10)) { auto r = F("VEC3", true); if (quant) { r.comp = g.pick<uint64_t>({5120, 5121, 5122, 5123}); r.normalized = g.flip(); } add("POSITION", r); }
			if (g.chance(1, 3)) { auto r = F("VEC3"); if (quant) { r.comp = g.pick<uint64_t>({5120, 5122}); r.normalized = true; } add("NORMAL", r); }
			if (g.chance(1, 4)) add("TANGENT", F("VEC4"));
			auto norm = [&](Req r) { auto k = g.draw(2); if (k) { r.comp = k == 1 ? 5121 : 5123; r.normalized = true; } return r; };
			for (size_t k = 0; k < 3 && g.chance(1, 3); ++k) add("TEXCOORD_" + std::to_string(k), norm(F("VEC2")));
			if (g.chance(1, 4)) add("COLOR_0", norm(F(g.flip() ? "VEC3" : "VEC4")));
			if (skinned) { auto r = F("VEC4"); r.comp = g.flip() ? 5121 : 5123; add("JOINTS_0", r); add("WEIGHTS_0", norm(F("VEC4"))); }
			if (g.chance(1, 6)) { auto r = F(g.pick({"SCALAR", "VEC2", "VEC4"})); r.comp = g.pick<uint64_t>({5126, 5120, 5121, 5122, 5123}); add("_" + std::string(g.flip() ? "TEMP" : "A\"B_0"), r); }
			if (at.o.empty()) { auto r = F("VEC3", true); add("POSITION", r); }
			p["attributes"] = at;
			if (mode != 4 || g.flip()) p["mode"] = static_cast<uint64_t>(mode);
			if (o.indexed && g.chance(1, 2)) { Req r; r.comp = g.pick<uint64_t>({5121, 5123, 5125}); r.count = count; r.role = 2; p["indices"] = static_cast<uint64_t>(accessor(r)); }
			if (targets) { auto ta = Json::arr(); for (size_t k = 0; k < targets; ++k) { auto t = Json::obj(); t["POSITION"] = static_cast<uint64_t>(accessor(F("VEC3", true))); if (at.find("NORMAL") && g.flip()) t["NORMAL"] = static_cast<uint64_t>(accessor(F("VEC3"))); ta.push(t); } p["targets"] = ta; }
			if (on("KHR_materials_variants") && g.chance(1, 2)) {
				auto& vs = arr("variants"); if (vs.a.empty()) for (size_t n = 1 + g.draw(3); n > 0; --n) { auto v = Json::obj(); v["name"] = str(g, 8, o.wild); vs.push(v); }
				auto maps = Json::arr(); std::vector<Json> by(3, Json::arr()); bool any = false;
				for (uint64_t v = 0; v < vs.a.size(); ++v) { auto k = g.draw(3); if (k < 3) { by[k].push(v); any = true; } }
				if (any) { for (auto& b : by) if (!b.a.empty()) { auto e = Json::obj(); e["material"] = static_cast<uint64_t>(ref("materials")); e["variants"] = b; maps.push(e); } use(p, "KHR_materials_variants")["mappings"] = maps; }
			}
			if (on("KHR_draco_mesh_compression") && g.chance(1, 4)) {
				auto e = Json::obj(); e["bufferView"] = static_cast<uint64_t>(view(4 + g.draw(9), 1, 0, 0)); auto da = Json::obj(); uint64_t id = 0;
				for (auto& kv : at.o) { if (da.o.empty() || g.flip()) da[kv.first] = id; ++id; }
				e["attributes"] = da; use(p, "KHR_draco_mesh_compression") = e;
			}
			prims.push(p);
		}
		m["primitives"] = prims;
		if (targets && g.flip()) { auto w = Json::arr(); for (size_t k = 0; k < targets; ++k) w.push(val(gs::N(0, 1))); m["weights"] = w; }
		if (g.chance(1, 3)) m["name"] = str(g, 8, o.wild);
		finish(m, sp["mesh"]);
		size_t i = arr("meshes").a.size(); arr("meshes").push(m);
		meshSkinned.push_back(skinned); meshTargets.push_back(targets);
		return i;
	}
	// ---- nodes: references to other nodes (children, skins, physics) are added once all nodes exist
	void node() {
		size_t at = arr("nodes").a.size(); arr("nodes").push(Json::obj());
		bool was = busy["nodes"]; busy["nodes"] = true; ++depth;
		Json j = obj(gs::spec()["node"]);
		if (g.chance(1, 4)) j["camera"] = static_cast<uint64_t>(ref("cameras"));
		if (g.chance(1, 2)) {
			size_t m = ref("meshes"); j["mesh"] = static_cast<uint64_t>(m);
			if (meshTargets[m] && g.flip()) { auto w = Json::arr(); for (size_t k = 0; k < meshTargets[m]; ++k) w.push(val(gs::N(0, 1))); j["weights"] = w; }
			if (on("EXT_mesh_gpu_instancing") && g.flip()) {
				auto a = Json::obj(); Req r; r.count = 1 + g.size(4);
				if (g.flip()) { r.type = "VEC3"; a["TRANSLATION"] = static_cast<uint64_t>(accessor(r)); }
				if (g.flip()) { r.type = "VEC4"; a["ROTATION"] = static_cast<uint64_t>(accessor(r)); }
				if (g.flip()) { r.type = "VEC3"; a["SCALE"] = static_cast<uint64_t>(accessor(r)); }
				if (a.o.empty() || g.chance(1, 5)) { r.type = "SCALAR"; a["_ID"] = static_cast<uint64_t>(accessor(r)); }
				use(j, "EXT_mesh_gpu_instancing")["attributes"] = a;
			}
		}
		switch (g.draw(3)) {
			case 1: if (o.matrix) { j["matrix"] = matrix(); break; } [[fallthrough]];
			case 2: case 3:
				if (g.flip()) j["translation"] = val(gs::A(gs::N(), 3, 3));
				if (g.flip()) j["rotation"] = rotation();
				if (g.flip()) j["scale"] = val(gs::A(gs::N(0.1, 5), 3, 3));
				break;
			default: break;
		}
		--depth; busy["nodes"] = was;
		arr("nodes").a[at] = j;
	}
	Json rotation() {
		double q[4]; double l = 0; for (auto& x : q) { x = real(g, -1, 1); l += x * x; }
		auto a = Json::arr(); l = std::sqrt(l); if (l < 1e-6) { for (int i = 0; i < 4; ++i) a.push(num(i == 3)); return a; }
		for (double x : q) { double v = x / l; a.push(Json(v > 1 ? 1.0 : v < -1 ? -1.0 : v)); }
		return a;
	}
	// T*R*S, column-major
	Json matrix() {
		double q[4], l = 0; for (auto& x : q) { x = real(g, -1, 1); l += x * x; } l = std::sqrt(l);
		if (l < 1e-3) { q[0] = q[1] = q[2] = 0; q[3] = l = 1; }
		double x = q[0] / l, y = q[1] / l, z = q[2] / l, w = q[3] / l, s[3], t[3];
		for (auto& v : s) v = real(g, 0.25, 4); for (auto& v : t) v = real(g, -50, 50);
		double r[9] = {1 - 2 * (y * y + z * z), 2 * (x * y + w * z), 2 * (x * z - w * y), 2 * (x * y - w * z), 1 - 2 * (x * x + z * z), 2 * (y * z + w * x), 2 * (x * z + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y)};
		auto a = Json::arr();
		for (int c = 0; c < 3; ++c) { for (int k = 0; k < 3; ++k) a.push(num(r[c * 3 + k] * s[c])); a.push(num(0)); }
		for (double v : t) a.push(num(v)); a.push(num(1));
		return a;
	}
	void body(Json& e) {
		auto& sp = gs::spec();
		if (auto* c = e.find("collider")) geometry((*c)["geometry"]);
		if (g.chance(1, 3)) { auto t = Json::obj(); auto ge = obj(sp["geometry"]); geometry(ge); if (g.chance(2, 3)) { t["geometry"] = ge; if (g.flip()) t["collisionFilter"] = static_cast<uint64_t>(ref("collisionFilters")); } else t["nodes"] = Json::arr({Json(static_cast<uint64_t>(g.draw(arr("nodes").a.size() - 1)))}); e["trigger"] = t; }
		if (g.chance(1, 3)) { auto j = obj(sp["joint"]); j["connectedNode"] = static_cast<uint64_t>(g.draw(arr("nodes").a.size() - 1)); e["joint"] = j; }
	}
	void geometry(Json& ge) { if (g.flip() && on("KHR_implicit_shapes")) { d.used.insert("KHR_implicit_shapes"); ge["shape"] = static_cast<uint64_t>(ref("shapes")); } else ge["node"] = static_cast<uint64_t>(g.draw(arr("nodes").a.size() - 1)); }
	void hierarchy() {
		auto& nodes = arr("nodes"); size_t n = nodes.a.size(); nodeParent.assign(n, ~size_t(0));
		std::vector<Json> kids(n, Json::arr());
		for (size_t i = 1; i < n; ++i) if (g.chance(2, 3)) { size_t p = g.draw(i - 1); nodeParent[i] = p; kids[p].push(static_cast<uint64_t>(i)); }
		for (size_t i = 0; i < n; ++i) if (!kids[i].a.empty()) { if (kids[i].a.size() > 1 && g.flip()) std::reverse(kids[i].a.begin(), kids[i].a.end()); nodes.a[i]["children"] = kids[i]; }
		// skins on nodes whose mesh has joints and weights
		for (size_t i = 0; i < n; ++i) {
			auto* m = nodes.a[i].find("mesh");
			if (m && meshSkinned[m->u] && g.chance(2, 3)) {
				auto& skins = arr("skins"); size_t s;
				if (!skins.a.empty() && g.flip()) s = g.draw(skins.a.size() - 1);
				else {
					auto k = Json::obj(), jo = Json::arr(); for (uint64_t q = 0; q < n; ++q) if (g.flip()) jo.push(q); if (jo.a.empty()) jo.push(static_cast<uint64_t>(g.draw(n - 1)));
					k["joints"] = jo; if (g.flip()) { Req r; r.type = "MAT4"; r.count = jo.a.size(); k["inverseBindMatrices"] = static_cast<uint64_t>(accessor(r)); }
					if (g.flip()) k["skeleton"] = static_cast<uint64_t>(g.draw(n - 1));
					if (g.flip()) k["name"] = str(g, 8, o.wild);
					finish(k, gs::spec()["skin"]); s = skins.a.size(); arr("skins").push(k);
				}
				nodes.a[i]["skin"] = static_cast<uint64_t>(s);
			}
		}
	}
	void animation() {
		auto& nodes = arr("nodes"); size_t n = nodes.a.size(); if (!n) return;
		auto a = Json::obj(), ch = Json::arr(), sm = Json::arr(); std::set<std::pair<size_t, size_t>> seen;
		static const char* paths[] = {"translation", "rotation", "scale", "weights"};
		for (size_t k = 1 + g.draw(2); k > 0; --k) {
			size_t nd = g.draw(n - 1), p = g.draw(3); auto* m = nodes.a[nd].find("mesh"); size_t tg = m ? meshTargets[m->u] : 0;
			if (p == 3 && !tg) p = 0;
			bool target = g.chance(7, 8);
			if (target && !seen.insert({nd, p}).second) continue;
			auto c = Json::obj(), s = Json::obj(), t = Json::obj(); auto ip = g.pick<std::string>({"LINEAR", "STEP", "CUBICSPLINE"});
			Req in; in.count = 2 + g.size(4); in.minmax = true; size_t cnt = in.count * (ip == "CUBICSPLINE" ? 3 : 1) * (p == 3 ? tg : 1);
			s["input"] = static_cast<uint64_t>(accessor(in));
			Req out; out.type = p == 1 ? "VEC4" : p == 3 ? "SCALAR" : "VEC3"; out.count = cnt; if ((p == 1 || p == 3) && g.chance(1, 3)) { out.comp = g.pick<uint64_t>({5120, 5121, 5122, 5123}); out.normalized = true; }
			s["output"] = static_cast<uint64_t>(accessor(out)); if (ip != "LINEAR" || g.flip()) s["interpolation"] = ip;
			if (target) t["node"] = static_cast<uint64_t>(nd);
			t["path"] = paths[p]; c["sampler"] = static_cast<uint64_t>(sm.a.size()); c["target"] = t; finish(c, gs::spec()["channel"]); finish(s, gs::spec()["animationSampler"]);
			ch.push(c); sm.push(s);
		}
		if (ch.a.empty()) return;
		a["channels"] = ch; a["samplers"] = sm; if (g.flip()) a["name"] = str(g, 8, o.wild);
		finish(a, gs::spec()["animation"]); arr("animations").push(a);
	}
	Doc build() {
		auto skip = [&](const char* k) { return o.skipArrays.count(k) != 0; };
		for (size_t n = g.size(o.maxNodes); n > 0; --n) node();
		for (auto k : {"materials", "textures", "cameras", "meshes", "samplers", "images", "accessors", "bufferViews"}) if (!skip(k) && g.chance(1, 4)) make(k);
		for (auto& [e, k, s] : gs::spec().extArrays) if (on(e) && k != "variants" && g.chance(1, 3)) { d.used.insert(e); make(k); }
		if (!arr("nodes").a.empty()) { hierarchy(); for (size_t n = g.size(2); n > 0; --n) animation(); }
		// scenes
		auto& nodes = arr("nodes"); std::vector<uint64_t> roots; for (size_t i = 0; i < nodes.a.size(); ++i) if (nodeParent[i] == ~size_t(0)) roots.push_back(i);
		for (size_t n = g.size(3); n > 0; --n) {
			auto s = Json::obj(), r = Json::arr(); for (auto x : roots) if (g.chance(2, 3)) r.push(x);
			if (r.a.size() > 1 && g.flip()) std::reverse(r.a.begin(), r.a.end());
			if (!r.a.empty()) s["nodes"] = r; else g.label("scene without nodes");
			if (g.flip()) s["name"] = str(g, 8, o.wild);
			finish(s, gs::spec()["scene"]); arr("scenes").push(s);
		}
		// a separate variant list without users is allowed too
		if (on("KHR_materials_variants") && arr("variants").a.empty() && g.chance(1, 4)) { auto v = Json::obj(); v["name"] = str(g, 8, o.wild); arr("variants").push(v); }
		// buffers
		for (size_t i = 0; i < d.buffers.size(); ++i) {
			auto& p = d.buffers[i]; auto& j = arr("buffers").a[i];
			if (p.data.empty()) p.data = randBytes(g, 1 + g.draw(7));
			j["byteLength"] = static_cast<uint64_t>(p.data.size());
			if (p.kind == BufferPlan::Data) j["uri"] = p.uri = "data:" + p.mime + ";base64," + b64(p.data);
			else if (p.kind == BufferPlan::File) { p.file = fileName("buf" + std::to_string(i)); d.files[p.file] = p.data; j["uri"] = p.uri = encodeName(p.file); }
			else if (p.kind == BufferPlan::Chunk) { d.hasChunk = true; d.chunk = p.data; }
		}
		if (o.meshoptRequired && on("EXT_meshopt_compression") && g.chance(1, 3)) {
			BufferPlan p; p.kind = BufferPlan::Fallback; d.buffers.push_back(p); auto j = Json::obj(); j["byteLength"] = 1 + static_cast<uint64_t>(g.draw(99)); if (d.buffers.size() > 1 || !o.glb) { arr("buffers").push(j); d.used.insert("EXT_meshopt_compression"); forceReq = true; g.label("fallback buffer"); } else d.buffers.pop_back();
		}
		// root
		auto& r = d.root; auto as = Json::obj(); as["version"] = g.chance(1, 5) ? "2.1" : "2.0";
		if (g.flip()) as["generator"] = str(g, 8, o.wild); if (g.flip()) as["copyright"] = str(g, 8, o.wild);
		r["asset"] = as;
		if (!arr("scenes").a.empty() && g.flip()) r["scene"] = static_cast<uint64_t>(g.draw(arr("scenes").a.size() - 1));
		for (auto& [k, s] : gs::spec().arrays) if (!arr(k).a.empty()) r[k] = arr(k);
		for (auto& [e, k, s] : gs::spec().extArrays) if (!arr(k).a.empty()) { d.used.insert(e); r["extensions"][e][k] = arr(k); }
		// everything used must be declared; declaring more is harmless
		for (auto& e : o.exts) if (g.chance(1, 12)) d.used.insert(e);
		d.used.erase("GODOT_single_root");
		auto u = Json::arr(), q = Json::arr();
		for (auto& e : d.used) { u.push(e); if (o.required && (g.chance(1, 6) || (forceReq && e == "EXT_meshopt_compression"))) q.push(e); }
		if (o.unknowns && g.chance(1, 8)) u.push("EXT_unknown_thing");
		if (!u.a.empty()) r["extensionsUsed"] = u; if (!q.a.empty()) r["extensionsRequired"] = q;
		if (o.unknowns && g.chance(1, 8)) r["x_unknown"] = g.pick<Json>({Json(1), Json("s"), Json::obj({{"a", 1}}), Json::arr({Json(1)})});
		if (o.unknowns && g.chance(1, 6)) { std::vector<std::string> ks{"scene", "extensions", "extensionsUsed", "extensionsRequired", "asset", "extras"}; for (auto& [k, s] : gs::spec().arrays) { (void)s; ks.push_back(k); } auto n = unknownName(g, g.pick(ks)); if (!known(n)) r[n] = odd(); }
		if (o.unknowns && g.chance(1, 8)) { auto n = unknownName(g, g.pick<std::string>({"KHR_lights_punctual", "KHR_materials_variants", "KHR_implicit_shapes", "KHR_physics_rigid_bodies"})); if (!known(n)) { r["extensions"]; if (r["extensions"].t != Json::Obj) r["extensions"] = Json::obj(); r["extensions"][n] = Json::obj({{"lights", Json::arr({Json::obj({{"type", "point"}})})}, {"variants", Json::arr({Json::obj({{"name", "x"}})})}, {"shapes", odd()}}); } }
		if (o.unknowns && g.chance(1, 8)) r["extras"] = Json::obj({{"nodes", Json::arr({Json("not a node")})}});
		return std::move(d);
	}
	bool forceReq = false;
};

Doc document(Gen& g, Opts o) { return Builder(g, std::move(o)).build(); }

const gs::Exts& allExts() {
	static const gs::Exts e{"EXT_mesh_gpu_instancing", "EXT_meshopt_compression", "EXT_texture_webp", "KHR_draco_mesh_compression", "KHR_implicit_shapes", "KHR_lights_punctual", "KHR_materials_anisotropy", "KHR_materials_clearcoat", "KHR_materials_diffuse_transmission", "KHR_materials_dispersion", "KHR_materials_emissive_strength", "KHR_materials_ior", "KHR_materials_iridescence", "KHR_materials_pbrSpecularGlossiness", "KHR_materials_sheen", "KHR_materials_specular", "KHR_materials_transmission", "KHR_materials_unlit", "KHR_materials_variants", "KHR_materials_volume", "KHR_mesh_quantization", "KHR_node_hoverability", "KHR_node_selectability", "KHR_node_visibility", "KHR_physics_rigid_bodies", "KHR_texture_basisu", "KHR_texture_transform", "MSFT_packing_normalRoughnessMetallic", "MSFT_packing_occlusionRoughnessMetallic", "MSFT_texture_dds"};
	return e;
}

void addData(Json& norm, const Doc& d, bool loadBuffers, bool loadImages) {
	auto& bs = norm["buffers"];
	for (size_t i = 0; i < bs.a.size(); ++i) {
		auto& p = d.buffers[i]; auto s = Json::obj();
		if (p.kind == BufferPlan::Data) { s["bytes"] = hexs(p.data); s["mime"] = p.mime; }
		else if (p.kind == BufferPlan::Chunk) { auto b = p.data; b.resize((b.size() + 3) / 4 * 4); s["bytes"] = hexs(b); } // the whole chunk, as glb::pack pads it
		else if (p.kind == BufferPlan::Fallback) s["fallback"] = true;
		else if (loadBuffers) s["bytes"] = hexs(p.data);
		else s["uri"] = p.file;
		bs.a[i].erase("uri"); bs.a[i]["data"] = s;
	}
	auto& is = norm["images"];
	for (size_t i = 0; i < is.a.size(); ++i) {
		auto& p = d.images[i]; auto s = Json::obj(); auto& j = is.a[i];
		if (p.kind == 2) { s["view"] = j.at("bufferView"); s["mime"] = p.mime; }
		else if (p.kind == 0) { s["bytes"] = hexs(p.data); s["mime"] = p.mime; }
		else { if (loadImages) s["bytes"] = hexs(p.data); else s["uri"] = p.file; if (!p.mime.empty()) s["mime"] = p.mime; }
		j.erase("uri"); j.erase("mimeType"); j.erase("bufferView"); j["data"] = s;
	}
}
#endif
} // namespace gg

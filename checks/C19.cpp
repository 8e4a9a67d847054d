// C19: generated mesh indices describe the same primitives as the vertices in order.
#include <lib/dump.hpp>
#include <lib/gen_gltf.hpp>
using namespace pbt;
namespace fg = fastgltf;
using js::Json;

using Prim = std::vector<uint64_t>;
// the points, lines or triangles a topology draws from a list of indices, in order; lines without direction, triangles up to rotation
static std::vector<Prim> drawn(fg::PrimitiveType mode, const std::vector<uint64_t>& v) {
	std::vector<Prim> out; size_t n = v.size();
	auto line = [&](uint64_t a, uint64_t b) { out.push_back({std::min(a, b), std::max(a, b)}); };
	auto tri = [&](uint64_t a, uint64_t b, uint64_t c) { if (b < a && b <= c) out.push_back({b, c, a}); else if (c < a && c < b) out.push_back({c, a, b}); else out.push_back({a, b, c}); };
	switch (mode) {
		case fg::PrimitiveType::Points: for (auto x : v) out.push_back({x}); break;
		case fg::PrimitiveType::Lines: for (size_t i = 0; i + 1 < n; i += 2) line(v[i], v[i + 1]); break;
		case fg::PrimitiveType::LineStrip: for (size_t i = 0; i + 1 < n; ++i) line(v[i], v[i + 1]); break;
		case fg::PrimitiveType::LineLoop: for (size_t i = 0; i + 1 < n; ++i) line(v[i], v[i + 1]); if (n > 1) line(v[n - 1], v[0]); break;
		case fg::PrimitiveType::Triangles: for (size_t i = 0; i + 2 < n; i += 3) tri(v[i], v[i + 1], v[i + 2]); break;
		case fg::PrimitiveType::TriangleStrip: for (size_t i = 0; i + 2 < n; ++i) tri(v[i], v[i + (1 + i % 2)], v[i + (2 - i % 2)]); break;
		case fg::PrimitiveType::TriangleFan: for (size_t i = 0; i + 2 < n; ++i) tri(v[i + 1], v[i + 2], v[0]); break;
		default: pbt::fail("mode", "primitive mode " + std::to_string(static_cast<int>(mode)));
	}
	return out;
}
// the values of a generated index accessor, read here
static std::vector<uint64_t> resolve(const fg::Asset& a, size_t idx, size_t vertices, const std::string& where) {
	require(idx < a.accessors.size(), "accessor", [&] { return where + ": indices refer to accessor " + std::to_string(idx) + " of " + std::to_string(a.accessors.size()); });
	auto& acc = a.accessors[idx]; size_t w = acc.componentType == fg::ComponentType::UnsignedByte ? 1 : acc.componentType == fg::ComponentType::UnsignedShort ? 2 : acc.componentType == fg::ComponentType::UnsignedInt ? 4 : 0;
	require(w && acc.type == fg::AccessorType::Scalar && !acc.normalized && !acc.sparse.has_value() && acc.count >= 1, "accessor", [&] { return where + ": index accessor is no plain scalar accessor of unsigned integers"; });
	require(acc.bufferViewIndex.has_value() && *acc.bufferViewIndex < a.bufferViews.size(), "accessor", [&] { return where + ": index accessor has no buffer view"; });
	auto& v = a.bufferViews[*acc.bufferViewIndex]; require(v.bufferIndex < a.buffers.size() && !v.byteStride.has_value(), "view", [&] { return where + ": index buffer view with stride or without buffer"; });
	auto& b = a.buffers[v.bufferIndex]; size_t n = 0; auto* p = dp::dataPtr(b.data, n); require(p && n == b.byteLength, "buffer", [&] { return where + ": index buffer has no data of its length"; });
	require(v.byteOffset + v.byteLength <= n && acc.byteOffset + acc.count * w <= v.byteLength && (acc.byteOffset + v.byteOffset) % w == 0, "range", [&] { return where + ": " + std::to_string(acc.count) + " indices of " + std::to_string(w) + " bytes exceed the view of " + std::to_string(v.byteLength) + " in a buffer of " + std::to_string(n); });
	std::vector<uint64_t> out; out.reserve(acc.count); uint64_t max = w == 1 ? 0xFF : w == 2 ? 0xFFFF : 0xFFFFFFFF;
	for (size_t i = 0; i < acc.count; ++i) { uint64_t x = 0; for (size_t k = 0; k < w; ++k) x |= static_cast<uint64_t>(p[v.byteOffset + acc.byteOffset + i * w + k]) << 8 * k; require(x < vertices, "vertex", [&] { return where + ": index " + std::to_string(x) + " of " + std::to_string(vertices) + " vertices"; }); require(x != max, "restart value", [&] { return where + ": index " + std::to_string(x) + " is the largest of its type"; }); out.push_back(x); }
	return out;
}
template <typename V> static void cut(V& v, size_t n) { while (v.size() > n) v.pop_back(); }
static void judge(Gen& g, const std::string& text, fg::Extensions exts, fg::Options opt, fg::Category mask) {
	auto load = [&](fg::Options o) { auto data = dp::bytes(text); fg::Parser p(exts); return p.loadGltfJson(data, "/", o, mask); };
	auto ra = load(opt); require(ra.error() == fg::Error::None, "load", [&] { return "without generation: " + dp::err(ra.error()); });
	auto rb = load(opt | fg::Options::GenerateMeshIndices); require(rb.error() == fg::Error::None, "load with generation", [&] { return dp::err(rb.error()); });
	auto& a = ra.get(); auto& b = rb.get(); auto va = fg::validate(a), vb = fg::validate(b); require(va != fg::Error::None || vb == fg::Error::None, "validate", [&] { return "valid without but not with generated indices: " + dp::err(vb); });
	require(a.meshes.size() == b.meshes.size(), "meshes", "number of meshes differs"); size_t made = 0; std::set<size_t> usedAcc;
	for (size_t m = 0; m < a.meshes.size(); ++m) {
		require(a.meshes[m].primitives.size() == b.meshes[m].primitives.size(), "primitives", "number of primitives differs");
		for (size_t i = 0; i < a.meshes[m].primitives.size(); ++i) {
			auto& p = a.meshes[m].primitives[i]; auto& q = b.meshes[m].primitives[i]; std::string where = "mesh " + std::to_string(m) + " primitive " + std::to_string(i);
			if (p.indicesAccessor.has_value()) continue; // compared with everything else below
			size_t pos = ~size_t(0); for (auto& at : p.attributes) if (std::string_view(at.name) == "POSITION") pos = at.accessorIndex;
			if (pos == ~size_t(0)) { require(!q.indicesAccessor.has_value(), "no position", [&] { return where + " has no positions but received indices"; }); continue; }
			if (pos >= a.accessors.size()) continue; // accessors were not asked for
			size_t n = a.accessors[pos].count; require(q.indicesAccessor.has_value(), "missing", [&] { return where + " received no indices"; });
			require(*q.indicesAccessor >= a.accessors.size(), "reused", [&] { return where + " uses an accessor of the document"; });
			auto v = resolve(b, *q.indicesAccessor, n, where); std::vector<uint64_t> all(n); for (size_t k = 0; k < n; ++k) all[k] = k;
			auto want = drawn(p.type, all), got = drawn(q.type, v);
			require(want == got, "drawn", [&] { size_t k = 0; while (k < want.size() && k < got.size() && want[k] == got[k]) ++k; return where + " of mode " + std::to_string(static_cast<int>(p.type)) + " with " + std::to_string(n) + " vertices draws " + std::to_string(got.size()) + " instead of " + std::to_string(want.size()) + " primitives, first difference at " + std::to_string(k); });
			q.indicesAccessor.reset(); q.type = p.type; ++made; static const char* const modes[] = {"points", "lines", "line loop", "line strip", "triangles", "strip", "fan"}; g.label(modes[static_cast<int>(p.type)]); if (n >= 250 && n < 1000) g.label("around 8 bits"); if (n > 60000) g.label("around 16 bits"); if (n < 3) g.label("one or two vertices");
		}
	}
	cut(b.accessors, a.accessors.size()); cut(b.bufferViews, a.bufferViews.size()); cut(b.buffers, a.buffers.size());
	dp::same(dp::dump(b), dp::dump(a), "something else changed");
	if (made) { g.nontrivial(); g.label("generated"); } if (made > 1) g.label("several"); g.key(hashStr(text));
}
PROPERTY(own_documents, 5000, 200000) {
	static const size_t edges[] = {1, 2, 3, 4, 5, 6, 7, 84, 85, 86, 127, 128, 129, 252, 253, 254, 255, 256, 257, 258, 259, 381, 382, 511, 512, 765, 766, 767, 768};
	static const size_t big[] = {21844, 21845, 21846, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 65538, 65539, 70001};
	Json root; auto as = Json::obj(); as["version"] = "2.0"; root = Json::obj(); root["asset"] = as; auto accs = Json::arr(), meshes = Json::arr(); bool data = g.flip(); size_t bytes = 0; auto views = Json::arr();
	auto accessor = [&](const char* type, unsigned ct, size_t count, size_t size) { auto o = Json::obj(); o["type"] = type; o["componentType"] = ct; o["count"] = static_cast<uint64_t>(count); if (data && count < 300) { auto v = Json::obj(); v["buffer"] = 0; v["byteOffset"] = static_cast<uint64_t>(bytes); v["byteLength"] = static_cast<uint64_t>(size * count); bytes += (size * count + 3) / 4 * 4; views.push(v); o["bufferView"] = static_cast<uint64_t>(views.a.size() - 1); } if (std::string(type) == "VEC3") { auto mn = Json::arr(); for (int k = 0; k < 3; ++k) mn.push(0); o["min"] = mn; o["max"] = mn; } accs.push(o); return static_cast<uint64_t>(accs.a.size() - 1); };
	for (size_t m = 1 + g.draw(2); m; --m) {
		auto prims = Json::arr();
		for (size_t i = 1 + g.draw(2); i; --i) {
			auto p = Json::obj(); auto at = Json::obj(); size_t n = g.chance(1, 60) ? g.pick(std::vector<size_t>(big, big + 14)) : g.flip() ? g.pick(std::vector<size_t>(edges, edges + 29)) : 1 + g.draw(40);
			bool pos = !g.chance(1, 8), before = g.flip(); if (!pos || (before && g.flip())) at[g.pick<std::string>({"NORMAL", "_POSITION", "_X"})] = accessor("VEC3", 5126, n, 12);
			if (pos) { if (accs.a.empty() || !g.chance(1, 6)) at["POSITION"] = accessor("VEC3", 5126, n, 12); else at["POSITION"] = static_cast<uint64_t>(g.draw(accs.a.size() - 1)); }
			if (g.chance(1, 4)) at["TEXCOORD_0"] = accessor("VEC2", 5126, n, 8);
			p["attributes"] = at; if (g.chance(9, 10)) p["mode"] = static_cast<uint64_t>(g.draw(6)); if (g.chance(1, 4)) p["indices"] = accessor("SCALAR", g.pick<unsigned>({5121, 5123, 5125}), 1 + g.draw(20), 4);
			prims.push(p);
		}
		auto me = Json::obj(); me["primitives"] = prims; meshes.push(me);
	}
	if (!views.a.empty()) { root["bufferViews"] = views; auto b = Json::obj(); b["byteLength"] = static_cast<uint64_t>(bytes); b["uri"] = "data:application/octet-stream;base64," + gg::b64(gg::Bytes(bytes)); auto bs = Json::arr(); bs.push(b); root["buffers"] = bs; }
	root["accessors"] = accs; root["meshes"] = meshes; if (g.flip()) std::reverse(root.o.begin(), root.o.end());
	auto text = js::text(root); g.note(text.substr(0, 3000)); fg::Category mask = fg::Category::All; if (g.chance(1, 6)) { mask = g.pick<fg::Category>({fg::Category::Meshes, fg::Category::Meshes | fg::Category::Accessors, fg::Category::OnlyRenderable, fg::Category::Accessors, fg::Category::All & ~fg::Category::Accessors, fg::Category::All & ~fg::Category::Buffers}); g.label("mask"); }
	judge(g, text, fg::Extensions::None, fg::Options::None, mask);
}
PROPERTY(any_documents, 3000, 150000) {
	gg::Opts o; o.maxNodes = 3; if (g.flip()) o.exts = gg::allExts(); o.indexed = g.flip(); auto d = gg::document(g, o); gs::Exts enabled(gg::allExts()); enabled.insert("GODOT_single_root"); enabled.insert("KHR_accessor_float64");
	auto text = js::text(d.root); g.note(text); judge(g, text, dp::extBits(enabled), g.flip() ? fg::Options::DecomposeNodeMatrices : fg::Options::None, fg::Category::All); g.label("any document");
}

// C24: the extras callbacks see, and write, the extras of every object.
#include <simdjson.h>
#include <lib/export.hpp>
#include <lib/user.hpp>
using namespace pbt;
namespace fg = fastgltf;
using js::Json; using C = fg::Category;

struct Cat { const char* name; C bit; const char* ext; };
static const std::vector<Cat>& cats() {
	static const std::vector<Cat> v{{"accessors", C::Accessors, nullptr}, {"animations", C::Animations, nullptr}, {"buffers", C::Buffers, nullptr}, {"bufferViews", C::BufferViews, nullptr}, {"cameras", C::Cameras, nullptr}, {"images", C::Images, nullptr}, {"materials", C::Materials, nullptr}, {"meshes", C::Meshes, nullptr}, {"nodes", C::Nodes, nullptr}, {"samplers", C::Samplers, nullptr}, {"scenes", C::Scenes, nullptr}, {"skins", C::Skins, nullptr}, {"textures", C::Textures, nullptr},
#if FASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES
		{"shapes", C::Shapes, "KHR_implicit_shapes"},
#endif
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
		{"physicsMaterials", C::PhysicsMaterials, "KHR_physics_rigid_bodies"}, {"collisionFilters", C::CollisionFilters, "KHR_physics_rigid_bodies"}, {"physicsJoints", C::PhysicsJoints, "KHR_physics_rigid_bodies"},
#endif
	};
	return v;
}
static Json* list(Json& root, const Cat& c) { auto* o = &root; if (c.ext) { o = o->find("extensions"); if (o) o = o->find(c.ext); } if (!o) return nullptr; auto* a = o->find(c.name); return a && a->isArr() ? a : nullptr; }
static Json from(simdjson::dom::element e) {
	switch (e.type()) {
		case simdjson::dom::element_type::ARRAY: { auto r = Json::arr(); simdjson::dom::array l = e.get_array(); for (auto x : l) r.push(from(x)); return r; }
		case simdjson::dom::element_type::OBJECT: { auto r = Json::obj(); simdjson::dom::object l = e.get_object(); for (auto x : l) r[std::string(x.key)] = from(x.value); return r; }
		case simdjson::dom::element_type::INT64: return Json(e.get_int64().value());
		case simdjson::dom::element_type::UINT64: { Json j; std::string er; js::parse(std::to_string(e.get_uint64().value()), j, er); return j; }
		case simdjson::dom::element_type::DOUBLE: return Json(e.get_double().value());
		case simdjson::dom::element_type::STRING: return Json(std::string(e.get_string().value()));
		case simdjson::dom::element_type::BOOL: return Json(e.get_bool().value());
		default: return Json();
	}
}
static Json value(Gen& g, int depth = 0) {
	switch (g.draw(depth > 3 ? 4 : 7)) {
		case 0: return Json(static_cast<int64_t>(g.draw(2000)) - 1000);
		case 1: return Json(g.flip());
		case 2: return Json();
		case 3: return Json(gg::str(g, 8));
		case 4: return Json(gg::real(g, -100, 100));
		case 5: { auto a = Json::arr(); for (size_t n = g.size(3); n; --n) a.push(value(g, depth + 1)); return a; }
		default: { auto o = Json::obj(); for (size_t n = g.size(3); n; --n) o[g.chance(1, 3) ? std::string(g.pick({"extras", "name", "extensions", "index", "nodes"})) : gg::str(g, 6)] = value(g, depth + 1); return o; }
	}
}
using Extras = std::map<std::pair<uint64_t, size_t>, Json>;
static std::string where(uint64_t cat, size_t i) { for (auto& c : cats()) if (static_cast<uint64_t>(c.bit) == cat) return std::string(c.name) + "[" + std::to_string(i) + "]"; return "category " + std::to_string(cat) + " index " + std::to_string(i); }
static fg::Expected<fg::Asset> loadText(fg::Parser& p, const std::string& t, fg::Options o, C mask = C::All) { auto b = dp::bytes(t); return p.loadGltfJson(b, "", o, mask); }
struct Seen { Extras x; std::string twice; };
static void onParse(simdjson::dom::object* o, std::size_t i, C c, void* p) { auto& s = *static_cast<Seen*>(user::get(p)); auto k = std::make_pair(static_cast<uint64_t>(c), i); if (s.x.count(k)) s.twice = where(k.first, i); auto v = Json::obj(); for (auto m : *o) v[std::string(m.key)] = from(m.value); s.x[k] = v; }
static void compare(const Extras& got, const Extras& want, const char* tag) {
	for (auto& [k, v] : want) { auto it = got.find(k); require(it != got.end(), tag, [&] { return "no extras for " + where(k.first, k.second); }); dp::same(it->second, v, tag); }
	for (auto& [k, v] : got) require(want.count(k), tag, [&] { return "extras for " + where(k.first, k.second) + ", which has none: " + js::text(v); });
}
// every object of the document gets extras, or not
static Extras put(Json& root, Gen& g, bool anyType) {
	Extras x; uint64_t one_in = 1 + g.draw(2);
	for (auto& c : cats()) if (auto* l = list(root, c)) for (size_t i = 0; i < l->a.size(); ++i) {
		l->a[i].erase("extras"); if (!g.chance(1, one_in)) continue;
		Json v; if (anyType && g.chance(1, 4)) { v = value(g); } else { v = Json::obj(); for (size_t n = g.size(3); n; --n) v[gg::str(g, 6)] = value(g); }
		l->a[i]["extras"] = v; if (!v.isObj()) { continue; }
		x[{static_cast<uint64_t>(c.bit), i}] = v;
	}
	return x;
}
static gg::Opts opts(Gen& g) { gg::Opts o; o.wild = g.chance(1, 4); o.maxNodes = 4; o.maxObjects = 3; o.external = g.flip(); if (!g.chance(1, 6)) o.exts = gg::allExts(); return o; }

PROPERTY(loading, 8000, 800000) {
	auto d = gg::document(g, opts(g)); bool any = g.chance(1, 3); auto want = put(d.root, g, any);
	std::string text = g.chance(1, 2) ? js::textWith(d.root, g) : js::text(d.root); g.note(text); g.key(hashStr(text)); if (want.size() > 1) g.nontrivial();
	for (auto& [k, v] : want) for (auto& c : cats()) if (static_cast<uint64_t>(c.bit) == k.first) g.label(c.name);
	C mask = C::All; if (g.chance(1, 4)) { mask = g.pick(cats()).bit; if (g.flip()) mask |= g.pick(cats()).bit; g.label("mask"); }
	auto o = fg::Options::None; // what else is asked for does not matter
	for (auto x : {fg::Options::AllowDouble, fg::Options::DontRequireValidAssetMember, fg::Options::DecomposeNodeMatrices, fg::Options::GenerateMeshIndices}) if (g.chance(1, 4) && (mask == C::All || x != fg::Options::GenerateMeshIndices)) { o |= x; if (x == fg::Options::GenerateMeshIndices) g.label("indices generated"); }
	Seen seen; fg::Parser parser(dp::extBits(gg::allExts())); parser.setExtrasParseCallback(onParse); user::pass(g, parser, &seen);
	for (int n = g.chance(1, 4) ? 2 : 1; n; --n) { // also with the same parser again
		seen = {}; auto a = loadText(parser, text, o, mask);
		require(a.error() == fg::Error::None, "load", [&] { return "valid document refused: " + dp::err(a.error()); });
		user::check(); require(seen.twice.empty(), "twice", [&] { return "the callback is called twice for " + seen.twice; });
		auto w = want; if (mask != C::All) { auto got = dp::dump(a.get()); for (auto it = w.begin(); it != w.end();) { bool loaded = true; for (auto& c : cats()) if (static_cast<uint64_t>(c.bit) == it->first.first) { auto* l = got.find(c.name); loaded = l && l->a.size() > it->first.second; } if (loaded) ++it; else it = w.erase(it); } }
		compare(seen.x, w, "load callback");
		if (mask == C::All) { // the extras change nothing else
			fg::Parser plain(dp::extBits(gg::allExts())); auto b = loadText(plain, text, o); require(b.error() == fg::Error::None, "load plain", "refused without callback"); dp::same(dp::dump(a.get()), dp::dump(b.get()), "content");
		}
	}
}

struct Writer { Extras x; std::map<std::pair<uint64_t, size_t>, int> asked; std::map<std::pair<uint64_t, size_t>, std::string> text; };
static std::optional<std::string> onWrite(std::size_t i, C c, void* p) { auto& w = *static_cast<Writer*>(user::get(p)); auto k = std::make_pair(static_cast<uint64_t>(c), i); ++w.asked[k]; auto it = w.text.find(k); if (it == w.text.end()) return std::nullopt; return it->second; }

PROPERTY(writing, 6000, 600000) {
	ex::Case c; ex::Want wt; wt.strings = g.chance(1, 4); ex::make(c, g, opts(g), wt);
	fg::Exporter e; bool glb = g.chance(1, 3); auto opt = g.chance(1, 3) ? fg::ExportOptions::PrettyPrintJson : fg::ExportOptions::None;
	auto text = [&](auto& r) { auto& b = r.output; if (!glb) return std::string(reinterpret_cast<const char*>(b.data()), b.size()); uint32_t n; if (b.size() < 20) fail("container", "short"); memcpy(&n, b.data() + 12, 4); if (n > b.size() - 20) fail("container", "length"); std::string s(reinterpret_cast<const char*>(b.data()) + 20, n); while (!s.empty() && s.back() == ' ') s.pop_back(); return s; };
	auto run = [&](fg::Exporter& x, Json& j, Json& norm, Json& expected) {
		auto take = [&](auto r) { require(r.error() == fg::Error::None, "export", [&] { return "exporting failed: " + dp::err(r.error()); }); auto t = text(r.get()); g.note(t); norm = ex::content(t, c.names); expected = ex::expected(c.asset, r.get(), glb); std::string er; js::parse(t, j, er); };
		if (glb) take(x.writeGltfBinary(c.asset, opt)); else take(x.writeGltfJson(c.asset, opt));
	};
	Json plain, norm, expected; run(e, plain, norm, expected);
	Writer w; Extras all; for (auto& ct : cats()) if (auto* l = list(plain, ct)) for (size_t i = 0; i < l->a.size(); ++i) { auto k = std::make_pair(static_cast<uint64_t>(ct.bit), i); all[k]; if (!g.chance(2, 3)) continue; auto v = value(g); w.x[k] = v; w.text[k] = g.chance(1, 3) ? js::textWith(v, g) : js::text(v); g.label(ct.name); }
	if (w.x.size() > 1) g.nontrivial();
	e.setExtrasWriteCallback(onWrite); user::pass(g, e, &w);
	Json j; run(e, j, norm, expected); user::check(); dp::same(norm, expected, "content with extras");
	for (auto& [k, v] : all) require(w.asked[k] >= 1, "asked", [&] { return "the callback is not asked for " + where(k.first, k.second); });
	for (auto& [k, n] : w.asked) require(all.count(k), "asked", [&] { return "the callback is asked for " + where(k.first, k.second) + ", which the asset does not have"; });
	Extras got; for (auto& ct : cats()) if (auto* l = list(j, ct)) for (size_t i = 0; i < l->a.size(); ++i) if (auto* x = l->a[i].find("extras")) got[{static_cast<uint64_t>(ct.bit), i}] = *x;
	compare(got, w.x, "written extras");
	// no extras anywhere else
	for (auto& ct : cats()) if (auto* l = list(j, ct)) for (auto& x : l->a) x.erase("extras");
	std::function<void(const Json&, const std::string&)> none = [&](const Json& v, const std::string& p) { for (auto& x : v.a) none(x, p + "[]"); for (auto& [k, x] : v.o) { if (k == "extras") fail("other extras", "extras at " + p); none(x, p + "." + k); } };
	if (!wt.strings) none(j, ""); dp::same(j, plain, "without the extras");
}
// read, and written again
struct Both { Seen seen; };
static std::optional<std::string> onCopy(std::size_t i, C c, void* p) { auto& s = *static_cast<Seen*>(user::get(p)); auto it = s.x.find({static_cast<uint64_t>(c), i}); if (it == s.x.end()) return std::nullopt; return js::text(it->second); }
PROPERTY(round_trip, 3000, 300000) {
	auto d = gg::document(g, opts(g)); auto want = put(d.root, g, false); std::string text = js::text(d.root); g.note(text); g.key(hashStr(text)); if (want.size() > 1) g.nontrivial();
	Seen seen; fg::Parser parser(dp::extBits(gg::allExts())); parser.setExtrasParseCallback(onParse); user::pass(g, parser, &seen);
	auto a = loadText(parser, text, fg::Options::None); require(a.error() == fg::Error::None, "load", "valid document refused");
	fg::Exporter e; e.setExtrasWriteCallback(onCopy); user::pass(g, e, &seen); auto r = e.writeGltfJson(a.get()); require(r.error() == fg::Error::None, "export", "exporting failed");
	g.note(text + "\n" + r.get().output); Seen again; user::pass(g, parser, &again, false); auto b = loadText(parser, r.get().output, fg::Options::None); require(b.error() == fg::Error::None, "reload", [&] { return "the export is refused: " + dp::err(b.error()); });
	user::check(); compare(again.x, want, "round trip");
}

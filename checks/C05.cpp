// C05: extension and version gating.
#include <lib/dump.hpp>
#include <lib/gen_gltf.hpp>
using namespace pbt;
namespace fg = fastgltf;
using js::Json;

static const std::vector<std::string>& known() {
	static const std::vector<std::string> v = [] { auto& e = gg::allExts(); std::vector<std::string> r(e.begin(), e.end()); r.push_back("GODOT_single_root"); r.push_back("KHR_accessor_float64"); return r; }();
	return v;
}
static std::string unknownName(Gen& g) {
	if (g.chance(1, 3)) return g.pick<std::string>({"EXT_unknown_thing", "KHR_", "x", "", "KHR_materials_pbrSpecularGlossines", "KHR_techniques_webgl", "EXT_mesh_gpu_instancing "});
	std::string n = g.pick(known());
	switch (g.draw(5)) {
		case 0: n += "x"; break;
		case 1: n.pop_back(); break;
		case 2: n[g.draw(n.size() - 1)] ^= 0x20; break;
		case 3: n.insert(0, " "); break;
		case 4: n.push_back('\0'); break;
		default: n[g.draw(n.size() - 1)] = 'q'; break;
	}
	for (auto& k : known()) if (k == n) throw Discard{};
	return n;
}

// which extensions are required, known and enabled decides between success and the two errors; whatever loads is the
// projection of the document on the enabled extensions
PROPERTY(extensions, 26000, 1500000) {
	gg::Opts o; o.wild = g.chance(1, 8); o.maxNodes = 3; o.maxObjects = 2; o.meshoptRequired = g.chance(1, 6);
	auto all = gg::allExts(); gs::Exts enabled;
	for (auto& e : all) { if (g.chance(1, 2)) o.exts.insert(e); }
	unsigned p = static_cast<unsigned>(g.draw(4)); // density of the enabled set
	for (auto& e : known()) if (p == 4 || (p && g.chance(p, 4))) enabled.insert(e);
	auto d = gg::document(g, o); Json root = d.root;
	bool fallback = false; for (auto& b : d.buffers) fallback |= b.kind == gg::BufferPlan::Fallback;
	auto req = Json::arr(); bool unknown = false, missing = false;
	auto add = [&](const std::string& n, bool isKnown) { req.push(n); if (!isKnown) unknown = true; else if (!enabled.count(n)) missing = true; };
	if (fallback) add("EXT_meshopt_compression", true);
	size_t n = g.draw(3);
	for (size_t i = 0; i < n; ++i) {
		if (g.chance(1, 8)) add(unknownName(g), false);
		else if (g.chance(3, 4) && !enabled.empty()) { std::vector<std::string> v(enabled.begin(), enabled.end()); add(g.pick(v), true); }
		else add(g.pick(known()), true);
	}
	if (!req.a.empty() || g.chance(1, 4)) root["extensionsRequired"] = req; else root.erase("extensionsRequired");
	std::string text = g.chance(1, 4) ? js::textWith(root, g) : js::text(root);
	std::string en; for (auto& e : enabled) en += e + " ";
	g.note("enabled: " + en + "\n" + text); g.key(hashStr(text + en));
	if (!d.used.empty() || !req.a.empty()) g.nontrivial();
	fg::Parser parser(dp::extBits(enabled));
	auto buf = dp::bytes(text);
	auto a = parser.loadGltfJson(buf, "", fg::Options::None);
	auto e = a.error();
	if (!unknown && !missing) {
		g.label("allowed"); bool off = false; for (auto& x : d.used) off |= !enabled.count(x); if (off) g.label("used but not enabled");
		require(e == fg::Error::None, "load", [&] { return "every required extension is known and enabled, but loading failed: " + dp::err(e); });
		auto want = gs::normRoot(root, enabled); gg::addData(want, d, false, false);
		dp::same(dp::dump(a.get()), want, "content");
		return;
	}
	g.label(unknown && missing ? "unknown and missing" : unknown ? "unknown" : "missing");
	bool ok = (unknown && e == fg::Error::UnknownRequiredExtension) || (missing && e == fg::Error::MissingExtensions);
	require(ok, "error", [&] { return std::string("required extensions: ") + (unknown ? "one is unknown " : "") + (missing ? "one is not enabled" : "") + ", but loading gave " + dp::err(e); });
}

// a 2.x asset member is demanded unless DontRequireValidAssetMember is given
PROPERTY(version, 12000, 500000) {
	gg::Opts o; o.wild = false; o.maxNodes = 3; o.maxObjects = 2;
	auto d = gg::document(g, o); Json root = d.root;
	std::string what; int expect = 0; // 0 loads, 1 invalid or missing, 2 unsupported, 3 either
	switch (g.draw(5)) {
		case 0: what = "valid"; root["asset"]["version"] = "2." + std::to_string(g.flip() ? g.draw(1) : g.draw(300)); break;
		case 1: what = "no asset"; root.erase("asset"); expect = 1; break;
		case 2: what = "no version"; root["asset"].erase("version"); expect = 1; break;
		case 3: { what = "version type"; auto& v = root["asset"]["version"]; v = g.pick<Json>({Json(), Json(2u), Json(2.5), Json(true), Json::arr({Json("2.0")}), Json::obj({{"major", 2}})}); expect = 1; break; }
		case 4: { what = "other version"; uint64_t m = g.flip() ? g.pick<uint64_t>({0, 1, 3, 20, 22, 21, 12, 200}) : g.draw(1000); if (m == 2) throw Discard{}; root["asset"]["version"] = std::to_string(m) + "." + std::to_string(g.draw(3)); expect = 2; break; }
		default: what = "no version text"; root["asset"]["version"] = g.pick<std::string>({"", "abc", "v2.0", "-2.0", " 2.0", ".2", "a", "\xc3\xa9"}); expect = 3; break;
	}
	bool lax = g.chance(1, 4), fmt = g.flip();
	std::string text = fmt ? js::textWith(root, g) : js::text(root);
	g.note(what + (lax ? " (not demanded)\n" : "\n") + text); g.label(what); if (lax) g.label("not demanded"); g.nontrivial(); g.key(hashStr(text + what + (lax ? "l" : "")));
	fg::Parser parser; auto buf = dp::bytes(text);
	auto opts = lax ? fg::Options::DontRequireValidAssetMember : fg::Options::None;
	auto a = parser.loadGltfJson(buf, "", opts);
	auto e = a.error(); using E = fg::Error;
	if (lax) expect = 0;
	bool ok = expect == 0 ? e == E::None : expect == 1 ? e == E::InvalidOrMissingAssetField : expect == 2 ? e == E::UnsupportedVersion : (e == E::UnsupportedVersion || e == E::InvalidOrMissingAssetField);
	require(ok, "gate", [&] { return what + (lax ? " (not demanded)" : "") + ": loading gave " + dp::err(e); });
	if (e != E::None) return;
	auto want = gs::normRoot(what == "no asset" || what == "version type" ? d.root : root, {}); gg::addData(want, d, false, false);
	auto got = dp::dump(a.get());
	if (lax) { want.erase("asset"); got.erase("asset"); } // whether it is recorded then is left open
	dp::same(got, want, "content");
}

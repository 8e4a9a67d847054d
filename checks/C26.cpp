// C26: the same documents give the same results in every build configuration. Every configuration is a shared object of
// its own (see C26_probe.cpp); the first one is the reference.
#include <lib/dump.hpp>
#include <lib/defect.hpp>
#include <lib/glb.hpp>
#include <dlfcn.h>
using namespace pbt;
namespace fg = fastgltf;
using js::Json;
using Fn = void (*)(const char*, size_t, int, uint64_t, uint64_t, uint32_t, void*, void (*)(void*, const char*, size_t));

struct Config { std::string name; Fn f; bool wide, noPhysics; };
static const std::vector<Config>& configs() {
	static const std::vector<Config> v = [] {
		std::vector<Config> v; const char* e = getenv("VERIF_SHARED"); std::string s = e ? e : "";
		for (size_t i = 0; i < s.size();) {
			size_t j = s.find(';', i); if (j == s.npos) j = s.size(); auto one = s.substr(i, j - i); i = j + 1; auto q = one.find('='); if (q == one.npos) continue;
			auto n = one.substr(0, q); void* h = dlopen(one.substr(q + 1).c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); abort(); }
			auto f = reinterpret_cast<Fn>(dlsym(h, "probe")); if (!f) abort();
			v.push_back({n, f, n.find("64bit") != n.npos, n.find("no-physics") != n.npos});
		}
		if (v.size() < 2) { fprintf(stderr, "no configurations\n"); abort(); }
		return v;
	}();
	return v;
}
static Json probe(const Config& c, const std::string& doc, int kind, uint64_t opt, uint64_t exts, uint32_t cats) {
	std::string out; c.f(doc.data(), doc.size(), kind, opt, exts, cats, &out, [](void* t, const char* p, size_t n) { static_cast<std::string*>(t)->assign(p, n); });
	Json j; std::string e; if (!js::parse(out, j, e)) fail("harness", "probe of " + c.name + " gives no JSON: " + e + ": " + out.substr(0, 2000));
	return j;
}
// equal, or (for wider numbers) equal after rounding to single precision
static bool number(double x, double ref, bool wide) { return x == ref || (wide && static_cast<float>(x) == static_cast<float>(ref)); }
static std::string differ(const Json& x, const Json& r, bool wide, const std::string& path) {
	if (x.isNum() && r.isNum()) return number(x.num(), r.num(), wide) ? "" : path + ": " + js::text(x) + " instead of " + js::text(r);
	if (x.t != r.t) return path + ": " + js::text(x).substr(0, 200) + " instead of " + js::text(r).substr(0, 200);
	if (x.isArr()) {
		if (x.a.size() != r.a.size()) return path + ": " + std::to_string(x.a.size()) + " elements instead of " + std::to_string(r.a.size());
		for (size_t i = 0; i < x.a.size(); ++i) { auto d = differ(x.a[i], r.a[i], wide, path + "[" + std::to_string(i) + "]"); if (!d.empty()) return d; }
		return "";
	}
	if (x.t == Json::Obj) {
		for (auto& kv : r.o) { auto* y = x.find(kv.first); if (!y) return path + "." + kv.first + ": missing"; auto d = differ(*y, kv.second, wide, path + "." + kv.first); if (!d.empty()) return d; }
		for (auto& kv : x.o) if (!r.find(kv.first)) return path + "." + kv.first + ": unexpected";
		return "";
	}
	return js::text(x) == js::text(r) ? "" : path + ": " + js::text(x).substr(0, 300) + " instead of " + js::text(r).substr(0, 300);
}
static std::string unhex(const std::string& h) { std::string o; for (size_t i = 0; i + 1 < h.size(); i += 2) o += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16)); return o; }
static void compare(const Config& c, const Json& got, const Json& ref) {
	auto G = got, R = ref;
	if (c.wide) { // texts differ in the digits of their numbers
		auto pair = [&](const char* k, auto f) { auto* x = G.find(k); auto* y = R.find(k); if (x && y) { *x = f(x->s); *y = f(y->s); } };
		pair("text", [](const std::string& t) { Json j; std::string e; if (!js::parse(t, j, e)) fail("harness", "exported text is not JSON: " + e); return j; });
		pair("glb", [](const std::string& h) {
			auto b = unhex(h); auto r = Json::obj(); uint32_t n; if (b.size() < 20) { r["raw"] = h; return r; } memcpy(&n, b.data() + 12, 4); if (n > b.size() - 20) { r["raw"] = h; return r; }
			Json j; std::string e; if (!js::parse(b.substr(20, n), j, e)) { r["raw"] = h; return r; } r["json"] = j; r["rest"] = pbt::hex(b.data() + 20 + n, b.size() - 20 - n, ~size_t(0)); return r; });
	}
	auto d = differ(G, R, c.wide, "");
	if (!d.empty()) { std::string tag; for (size_t i = 0; i < d.size() && d[i] != ':'; ++i) if (!isdigit(static_cast<unsigned char>(d[i]))) tag += d[i]; fail(c.name + tag.substr(0, 60), "built as " + c.name + ", the result differs from the one of " + configs()[0].name + " at " + d); }
}
static uint64_t bits(const gs::Exts& e) { return static_cast<uint64_t>(fg::to_underlying(dp::extBits(e))); }
static gs::Exts noPhysics(gs::Exts e) { e.erase("KHR_physics_rigid_bodies"); e.erase("KHR_implicit_shapes"); return e; }
static void all(const std::string& text, int kind, uint64_t opt, const gs::Exts& exts, uint32_t cats, const Json* root) {
	auto& cs = configs(); auto ref = probe(cs[0], text, kind, opt, bits(exts), cats); Json refNo; bool have = false;
	bool required = false; if (root) for (auto& x : root->at("extensionsRequired").a) required = required || x.s == "KHR_physics_rigid_bodies" || x.s == "KHR_implicit_shapes";
	pbt::require(!ref.at("error").s.empty(), "harness", "no error code");
	for (size_t i = 1; i < cs.size(); ++i) {
		auto& c = cs[i];
		if (!c.noPhysics) { compare(c, probe(c, text, kind, opt, bits(exts), cats), ref); continue; }
		auto ex = noPhysics(exts); if (!have) { refNo = probe(cs[0], text, kind, opt, bits(ex), cats); have = true; }
		auto got = probe(c, text, kind, opt, bits(ex), cats);
		if (required) { if ((got.at("error").s == "None") != (refNo.at("error").s == "None")) fail(c.name + " required", "built as " + c.name + ", a document requiring the extensions left out gives " + got.at("error").s); continue; }
		compare(c, got, refNo);
	}
}
static gg::Opts opts(Gen& g) {
	gg::Opts o; o.wild = g.chance(1, 3); o.maxNodes = 5; o.maxObjects = 3; o.meshoptRequired = g.chance(1, 4); o.accessors64 = g.chance(1, 4); o.unknowns = g.flip();
	if (g.chance(1, 8)) {} else if (g.chance(1, 3)) { for (auto& e : gg::allExts()) if (g.chance(1, 6)) o.exts.insert(e); } else o.exts = gg::allExts();
	return o;
}
static const uint32_t everything = static_cast<uint32_t>(fg::Category::All);
static gs::Exts enabled(Gen& g) { gs::Exts e(gg::allExts()); if (g.chance(1, 4)) for (auto& x : gg::allExts()) if (g.chance(1, 4)) e.erase(x); e.insert("KHR_accessor_float64"); e.insert("GODOT_single_root"); return e; }
static uint64_t options(Gen& g) {
	uint64_t o = static_cast<uint64_t>(fg::to_underlying(fg::Options::AllowDouble));
	if (g.chance(1, 4)) o |= static_cast<uint64_t>(fg::to_underlying(fg::Options::DecomposeNodeMatrices)); if (g.chance(1, 4)) o |= static_cast<uint64_t>(fg::to_underlying(fg::Options::GenerateMeshIndices));
	if (g.chance(1, 4)) o |= 1ull << 32; if (g.chance(1, 4)) o |= 1ull << 33;
	return o;
}
PROPERTY(valid_documents, 2400, 160000) {
	auto d = gg::document(g, opts(g)); auto text = g.chance(1, 4) ? js::textWith(d.root, g) : js::text(d.root);
	auto o = options(g); auto cats = everything; if (g.chance(1, 5)) { cats = static_cast<uint32_t>(g.draw(0x3ffff)); g.label("some categories"); }
	auto ex = enabled(g); g.note(text); g.key(hashStr(text) ^ o ^ cats); if (d.objects() > 3) g.nontrivial();
	if (d.used.count("KHR_physics_rigid_bodies") || d.used.count("KHR_implicit_shapes")) g.label("physics");
	for (auto& n : d.root.at("nodes").a) { if (n.find("matrix")) g.label("matrices"); if (n.at("children").a.size() > 3) g.label("many children"); }
	if (g.chance(1, 3)) { g.label("binary container"); auto b = glb::pack(text, nullptr); all(std::string(b.begin(), b.end()), g.flip() ? 1 : 2, o, ex, cats, &d.root); }
	else all(text, g.flip() ? 0 : 2, o, ex, cats, &d.root);
}
// wider numbers are not only equal after rounding: they are the document's numbers
static void exact(const Json& got, const Json& want, const std::string& path, const std::string& lastKey) {
	static const std::set<std::string> single{"translation", "rotation_", "scale_", "matrix", "centerOfMass", "inertiaDiagonal", "inertialOrientation", "linearVelocity", "angularVelocity", "size"};
	if (got.isNum() && want.isNum()) { double x = got.num(), y = want.num(); if (x == y || y == 1.3 || y == 0.6) return; if (single.count(lastKey) && x == static_cast<double>(static_cast<float>(y))) return; fail("wide " + lastKey, "a build with double precision numbers gives " + js::text(got) + " for " + js::text(want) + " at " + path); }
	if (got.isArr() && want.isArr()) for (size_t i = 0; i < got.a.size() && i < want.a.size(); ++i) exact(got.a[i], want.a[i], path + "[]", lastKey);
	if (got.t == Json::Obj && want.t == Json::Obj) for (auto& kv : want.o) if (auto* y = got.find(kv.first)) {
		std::string k = kv.first; bool node = path.size() == 8 && path == ".nodes[]"; if (node && (k == "rotation" || k == "scale")) k += "_"; // textures have members of the same name
		exact(*y, kv.second, path + "." + kv.first, k);
	}
}
PROPERTY(wide_numbers, 1500, 100000) {
	auto op = opts(g); auto d = gg::document(g, op); auto text = js::text(d.root); g.note(text); g.key(hashStr(text)); if (d.objects() > 3) g.nontrivial();
	gs::Exts on(gg::allExts()); on.insert("KHR_accessor_float64");
	auto want = gs::normRoot<double>(d.root, on);
	for (auto& c : configs()) if (c.wide) {
		auto got = probe(c, text, 0, static_cast<uint64_t>(fg::to_underlying(fg::Options::AllowDouble)), bits(on), everything);
		require(got.at("error").s == "None", "load", [&] { return c.name + " refuses a valid document: " + got.at("error").s; });
		exact(got.at("asset"), want, "", "");
		require(got.at("reload").s == "None" && got.at("again").t == Json::Bool && got.at("again").b, "round trip", [&] { return "built as " + c.name + ", exporting and loading again changes the asset: " + got.at("text").s; });
	}
}
PROPERTY(broken_documents, 3000, 200000) {
	gg::Opts o = opts(g); o.maxNodes = 3; o.maxObjects = 2; o.unknowns = false; auto d = gg::document(g, o); Json root = d.root; std::string text;
	if (g.flip()) { auto x = gg::plantDefect(root, g); text = js::text(root); g.label("defect"); }
	else { text = js::text(root); for (size_t n = 1 + g.draw(2); n > 0 && !text.empty(); --n) { size_t p = g.draw(text.size() - 1); if (g.flip()) text[p] = static_cast<char>(g.draw(255)); else if (g.flip()) text.erase(p, 1 + g.draw(6)); else if (g.flip()) text.insert(p, 1, g.pick({'0', '9', '-', '"', '}', ',', ':'})); else text.resize(p); } g.label("text edited"); }
	g.note(text); g.nontrivial(); g.key(hashStr(text));
	auto ex = enabled(g); auto opt = options(g); std::string bytes = text; int kind = 0;
	if (g.chance(1, 4)) { auto b = glb::pack(text, nullptr); if (g.flip() && !b.empty()) b[g.draw(b.size() - 1)] = static_cast<uint8_t>(g.draw(255)); bytes.assign(b.begin(), b.end()); kind = 1; }
	// physics objects may be what is broken: builds without them do not see that
	bool phys = text.find("KHR_physics") != text.npos || text.find("KHR_implicit") != text.npos; if (phys) ex = noPhysics(ex);
	Json rq = Json::obj(); if (phys && text.find("extensionsRequired") != text.npos) rq["extensionsRequired"] = Json::arr({Json("KHR_physics_rigid_bodies")});
	all(bytes, kind, opt, ex, everything, &rq);
}

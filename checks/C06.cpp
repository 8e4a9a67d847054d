// C06: loading with a category mask is the projection of the full content on the requested categories.
#include <lib/dump.hpp>
#include <lib/files.hpp>
#include <lib/gen_gltf.hpp>
#include <lib/glb.hpp>
using namespace pbt;
namespace fg = fastgltf;
using js::Json; using C = fg::Category;

struct Cat { const char* name; C bit; std::vector<std::string> needs; };
// what an object of a category refers to in the glTF object model
static const std::vector<Cat>& cats() {
	static const std::vector<Cat> v{
		{"buffers", C::Buffers, {}}, {"bufferViews", C::BufferViews, {"buffers"}}, {"accessors", C::Accessors, {"bufferViews"}},
		{"images", C::Images, {"bufferViews"}}, {"samplers", C::Samplers, {}}, {"textures", C::Textures, {"images", "samplers"}},
		{"animations", C::Animations, {"accessors"}}, {"cameras", C::Cameras, {}}, {"materials", C::Materials, {"textures"}},
		{"meshes", C::Meshes, {"accessors", "materials"}}, {"skins", C::Skins, {"accessors", "nodes"}},
		{"nodes", C::Nodes, {"cameras", "meshes", "skins"}}, {"scenes", C::Scenes, {"nodes"}}};
	return v;
}
static void closure(std::set<std::string>& s, const std::string& n) {
	if (!s.insert(n).second) return;
	for (auto& c : cats()) if (n == c.name) for (auto& d : c.needs) closure(s, d);
}

PROPERTY(projection, 20000, 1200000) {
	gg::Opts o; o.wild = false; o.maxNodes = 4; o.maxObjects = 3; o.exts = gg::allExts(); o.glb = g.chance(1, 3); o.external = g.chance(1, 3);
	if (g.flip()) o.exts.clear();
	auto d = gg::document(g, o);
	gs::Exts enabled(gg::allExts()); enabled.insert("GODOT_single_root"); enabled.insert("KHR_accessor_float64");
	C mask = C::None; std::string how;
	switch (g.draw(5)) {
		case 0: { auto& c = g.pick(cats()); mask = c.bit; how = std::string("only ") + c.name; g.label(how); break; }
		case 1: { how = "subset"; for (auto& c : cats()) if (g.flip()) mask |= c.bit; break; }
		case 2: { how = "few"; for (size_t n = 2 + g.draw(1); n > 0; --n) mask |= g.pick(cats()).bit; break; }
		case 3: { how = "preset"; mask = g.pick<C>({C::OnlyRenderable, C::OnlyAnimations, C::All, C::None}); g.label("preset"); break; }
		case 4: { how = "all but one"; mask = C::All & ~g.pick(cats()).bit; g.label(how); break; }
		default: { how = "any bits"; mask = static_cast<C>(g.draw(0xffffffffull)); break; }
	}
	std::set<std::string> want;
	for (auto& c : cats()) if ((mask & c.bit) != C::None) closure(want, c.name);
	bool loadB = g.flip(), loadI = g.flip();
	std::string text = g.chance(1, 4) ? js::textWith(d.root, g) : js::text(d.root);
	char mk[32]; snprintf(mk, sizeof mk, "0x%x", static_cast<unsigned>(mask));
	g.note("mask " + std::string(mk) + " (" + how + ")\n" + text); g.key(hashStr(text + mk));
	size_t dropped = 0, kept = 0;
	for (auto& c : cats()) if (auto* a = d.root.find(c.name)) { (void)a; (want.count(c.name) ? kept : dropped)++; }
	if (dropped && kept) g.nontrivial();
	if (dropped) g.label("something left out");
	std::unique_ptr<files::Dir> dir; std::filesystem::path where;
	fg::Options opt = fg::Options::None;
	if (loadB) opt |= fg::Options::LoadExternalBuffers;
	if (loadI) opt |= fg::Options::LoadExternalImages;
	if ((loadB || loadI) && !d.files.empty()) { // files of objects that are not asked for do not exist
		dir = std::make_unique<files::Dir>(); where = dir->path;
		if (want.count("buffers")) for (auto& b : d.buffers) if (b.kind == gg::BufferPlan::File) dir->put(b.file, b.data);
		if (want.count("images")) for (auto& i : d.images) if (i.kind == 1) dir->put(i.file, i.data);
		g.label("files");
	} else if (loadB || loadI) where = "/";
	fg::Parser parser(dp::extBits(enabled));
	auto run = [&](C m) -> fg::Expected<fg::Asset> {
		if (o.glb) { auto b = glb::pack(text, d.hasChunk ? &d.chunk : nullptr); auto buf = dp::bytes(std::string(b.begin(), b.end())); return parser.loadGltfBinary(buf, where, opt, m); }
		auto buf = dp::bytes(text); return parser.loadGltfJson(buf, where, opt, m);
	};
	auto a = run(mask);
	require(a.error() == fg::Error::None, "load", [&] { return "loading with mask " + std::string(mk) + " failed: " + dp::err(a.error()); });
	auto exp = gs::normRoot(d.root, enabled); gg::addData(exp, d, loadB, loadI);
	auto got = dp::dump(a.get());
	C avail = C::None;
	for (auto& c : cats()) {
		if (want.count(c.name)) { if (d.root.find(c.name)) avail |= c.bit; }
		else if (auto* x = exp.find(c.name)) { *x = Json::arr(); }
	}
	// shapes and physics arrays are categories of their own: when not requested they may be left out
	auto opt2 = [&](const char* k, C bit) { if ((mask & bit) != C::None) return; auto* x = got.find(k); if (x && x->a.empty()) { if (auto* y = exp.find(k)) *y = Json::arr(); } };
	opt2("shapes", C::Shapes); opt2("physicsMaterials", C::PhysicsMaterials); opt2("collisionFilters", C::CollisionFilters); opt2("physicsJoints", C::PhysicsJoints);
	dp::openMimes(got, exp);
	dp::same(got, exp, "content");
	C top = C::None; for (auto& c : cats()) top |= c.bit;
	C ga = a->availableCategories & top;
	require(ga == avail, "available", [&] { char b[96]; snprintf(b, sizeof b, "availableCategories reports 0x%x, the asset holds 0x%x", unsigned(ga), unsigned(avail)); return std::string(b); });
}

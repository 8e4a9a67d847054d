// C03: the content of enabled extensions is represented faithfully.
#include <lib/dump.hpp>
#include <lib/gen_gltf.hpp>
using namespace pbt;
namespace fg = fastgltf;

static void run(Gen& g, gg::Opts o, const gs::Exts& enabled) {
	o.accessors64 = g.chance(1, 16);
	auto d = gg::document(g, o);
	auto want = gs::normRoot(d.root, enabled); gg::addData(want, d, false, false);
	bool fmt = g.chance(1, 4);
	std::string text = fmt ? js::textWith(d.root, g) : js::text(d.root);
	g.note(text);
	if (!d.used.empty()) g.nontrivial();
	g.key(hashStr(text));
	for (auto& e : d.used) g.label(e);
	if (d.used.size() > 3) g.label("many extensions");
	auto buf = dp::bytes(text);
	fg::Parser parser(dp::extBits(enabled));
	auto a = parser.loadGltfJson(buf, "", o.accessors64 ? fg::Options::AllowDouble : fg::Options::None);
	require(a.error() == fg::Error::None, "load", [&] { return "loading a valid document failed: " + dp::err(a.error()); });
	dp::same(dp::dump(a.get()), want, "content");
}

// any mixture of extensions, with some further ones enabled but unused
PROPERTY(mixed_extensions, 16000, 1000000) {
	gg::Opts o; o.wild = g.chance(1, 4); o.external = g.chance(1, 8); o.meshoptRequired = g.chance(1, 4);
	if (g.thorough) { o.maxNodes = 10; o.maxObjects = 5; }
	auto all = gg::allExts(); gs::Exts enabled;
	for (auto& e : all) { if (g.chance(1, 2)) o.exts.insert(e); }
	for (auto& e : all) if (o.exts.count(e) || g.chance(1, 4)) enabled.insert(e);
	run(g, o, enabled);
}
// one or two extensions by themselves, nothing else enabled
PROPERTY(single_extension, 16000, 1000000) {
	gg::Opts o; o.wild = false; o.maxNodes = 3; o.maxObjects = 2; o.unknowns = g.chance(1, 4);
	auto all = gg::allExts(); std::vector<std::string> v(all.begin(), all.end());
	o.exts.insert(g.pick(v)); if (g.chance(1, 3)) o.exts.insert(g.pick(v));
	if (o.exts.count("EXT_meshopt_compression")) o.meshoptRequired = g.chance(1, 2);
	run(g, o, o.exts);
}

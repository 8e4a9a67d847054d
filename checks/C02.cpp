// C02: core glTF documents are represented faithfully, whatever their formatting.
#include <lib/dump.hpp>
#include <lib/gen_gltf.hpp>
using namespace pbt;
namespace fg = fastgltf;

PROPERTY(core_documents, 18000, 2000000) {
	gg::Opts o; o.wild = g.chance(1, 2); o.external = g.chance(1, 4);
	if (g.thorough) { o.maxNodes = 12; o.maxObjects = 6; }
	auto d = gg::document(g, o);
	auto want = gs::normRoot(d.root, {}); gg::addData(want, d, false, false);
	bool fmt = g.chance(3, 4);
	std::string text = fmt ? js::textWith(d.root, g) : js::text(d.root);
	g.note(text);
	if (d.objects() >= 3) g.nontrivial();
	g.key(hashStr(text));
	if (fmt) g.label("formatted");
	for (auto& p : d.root.o) if (p.second.isArr()) g.label(p.first);
	auto buf = dp::bytes(text);
	fg::Parser parser;
	auto a = g.flip() ? parser.loadGltfJson(buf, "", fg::Options::None) : parser.loadGltf(buf, "", fg::Options::None);
	require(a.error() == fg::Error::None, "load", [&] { return "loading a valid document failed: " + dp::err(a.error()); });
	dp::same(dp::dump(a.get()), want, "content");
}

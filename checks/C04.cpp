// C04: malformed documents are rejected. A valid document is generated, one defect is planted at a random place of
// the schema (required member removed, wrong JSON type, value outside the enumeration, wrong fixed array length), and
// the load has to fail; the document without the defect has to load.
#include <lib/dump.hpp>
#include <lib/defect.hpp>
using namespace pbt;
namespace fg = fastgltf;
using js::Json; using gs::Ty;

PROPERTY(planted_defect, 36000, 3000000) {
	gg::Opts o; o.wild = false; o.unknowns = false; o.meshoptRequired = g.flip();
	o.maxNodes = 4; o.maxObjects = 3; o.exts = g.chance(1, 8) ? gs::Exts{} : gg::allExts();
	auto d = gg::document(g, o); Json root = d.root;
	std::string good = js::text(root);
	auto [key, what, near, inExt] = gg::plantDefect(root, g);
	std::string text = g.chance(1, 8) ? js::textWith(root, g) : js::text(root);
	g.note(key + " " + what + "\n" + text); g.nontrivial(); g.key(hashStr(text)); g.label(what);
	if (inExt) g.label("in extension");
	fg::Parser parser(dp::extBits(gg::allExts()));
	if (g.chance(1, 20)) { // the defect is what makes the document invalid
		auto gb = dp::bytes(good); auto ga = parser.loadGltfJson(gb, "", fg::Options::None);
		require(ga.error() == fg::Error::None, "valid", [&] { return "valid document refused: " + dp::err(ga.error()); });
	}
	auto buf = dp::bytes(text);
	auto a = parser.loadGltfJson(buf, "", fg::Options::None);
	if (a.error() == fg::Error::None) fail("accepted: " + what + " " + key, "document accepted although " + key + " has a defect (" + what + "): " + near);
}

// text that is not JSON
PROPERTY(not_json, 12000, 2000000) {
	gg::Opts o; o.wild = g.flip(); o.maxNodes = 2; o.maxObjects = 2;
	auto d = gg::document(g, o);
	std::string t = g.flip() ? js::text(d.root) : js::textWith(d.root, g);
	size_t edits = 1 + g.draw(2);
	for (size_t e = 0; e < edits && !t.empty(); ++e) {
		size_t p = g.draw(t.size() - 1);
		switch (g.draw(5)) {
			case 0: t.resize(p); break;
			case 1: t.erase(p, 1 + g.draw(4)); break;
			case 2: t.insert(p, 1, static_cast<char>(g.draw(255))); break;
			case 3: t[p] = static_cast<char>(g.draw(255)); break;
			case 4: t.insert(p, 1, g.pick<char>({'"', '{', '}', '[', ']', ',', ':', '\\', '-', '.', 'e', '0'})); break;
			default: t += g.pick<std::string>({"}", "{}", "x", ",", "\"", " 1"}); break;
		}
	}
	Json j; std::string err;
	if (js::parse(t, j, err)) throw Discard{};
	if (err.find("duplicate") != std::string::npos) throw Discard{};
	g.note(t); g.nontrivial(); g.key(hashStr(t)); g.label(err.substr(0, 24));
	fg::Parser parser;
	auto buf = dp::bytes(t);
	auto a = parser.loadGltfJson(buf, "", fg::Options::None);
	require(a.error() != fg::Error::None, "accepted", [&] { return "text that is not JSON (" + err + ") was accepted"; });
}

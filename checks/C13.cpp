// C13: exporting as JSON and loading again gives the same asset. Two oracles: the exported text, read by an independent
// JSON parser and the schema, says what the asset contains; and the library loads it to an equal asset and writes the
// same text again.
#include <lib/export.hpp>
using namespace pbt;
namespace fg = fastgltf;
using js::Json;

static void trip(ex::Case& c, Gen& g, const char* tag) {
	fg::Exporter e; bool pretty = g.chance(1, 3);
	auto opt = pretty ? fg::ExportOptions::PrettyPrintJson : fg::ExportOptions::None;
	auto before = dp::dump(c.asset);
	auto r = e.writeGltfJson(c.asset, opt);
	require(r.error() == fg::Error::None, "export", [&] { return "exporting failed: " + dp::err(r.error()); });
	auto& out = r.get().output; g.note("exported: " + out);
	dp::same(dp::dump(c.asset), before, "asset changed");
	auto want = ex::expected(c.asset, r.get(), false);
	dp::same(ex::content(out, c.names), want, "exported text");
	fg::Parser parser(c.exts); auto buf = dp::bytes(out);
	auto a = parser.loadGltfJson(buf, "", fg::Options::None);
	require(a.error() == fg::Error::None, "reload", [&] { return "the exported text is refused: " + dp::err(a.error()) + ": " + out; });
	fg::Exporter fresh; fg::Exporter& e2 = g.flip() ? e : fresh;
	auto r2 = e2.writeGltfJson(a.get(), opt);
	require(r2.error() == fg::Error::None, "export again", [&] { return "exporting the reloaded asset failed: " + dp::err(r2.error()); });
	for (auto* l : {&r2.get().bufferPaths, &r2.get().imagePaths}) for (auto& p : *l) require(!p.has_value(), "paths again", "an asset without bytes has files to write");
	dp::same(ex::expected(a.get(), r2.get(), false), want, tag);
	require(r2.get().output == out, "text again", [&] { return "exporting the reloaded asset gives another text:\n" + r2.get().output + "\ninstead of\n" + out; });
	if (g.chance(1, 4)) { // pretty printing changes only white space
		auto r3 = e.writeGltfJson(c.asset, pretty ? fg::ExportOptions::None : fg::ExportOptions::PrettyPrintJson);
		require(r3.error() == fg::Error::None, "pretty", "exporting with the other formatting failed");
		Json x, y; std::string er; require(js::parse(r3.get().output, x, er), "pretty JSON", [&] { return "not JSON (" + er + "): " + r3.get().output; }); js::parse(out, y, er); dp::same(x, y, "pretty");
		auto& lines = pretty ? out : r3.get().output; auto& plain = pretty ? r3.get().output : out;
		require(lines.find('\n') != std::string::npos && lines.size() > plain.size(), "no lines", [&] { return "pretty-printed text has no lines: " + lines; });
	}
	if (g.chance(1, 8)) { auto v = e.writeGltfJson(c.asset, fg::ExportOptions::ValidateAsset); auto ok = fg::validate(c.asset); require((v.error() == fg::Error::None) == (ok == fg::Error::None), "validate", [&] { return "exporting with validation gives " + dp::err(v.error()) + ", validating " + dp::err(ok); }); if (v.error() == fg::Error::None && !pretty) require(v.get().output == out, "validated text", "validation changes the text"); }
}
static gg::Opts opts(Gen& g) {
	gg::Opts o; o.wild = g.chance(1, 4); o.maxNodes = 4; o.maxObjects = 3; o.external = g.flip(); o.meshoptRequired = g.flip();
	if (g.chance(1, 8)) {} else if (g.chance(1, 3)) { for (auto& e : gg::allExts()) if (g.chance(1, 10)) o.exts.insert(e); } else o.exts = gg::allExts();
	return o;
}

PROPERTY(round_trip, 9000, 600000) {
	ex::Case c; ex::make(c, g, opts(g));
	for (auto& x : c.asset.extensionsUsed) g.label(std::string(x.data(), x.size()));
	if (c.doc.objects() > 3) g.nontrivial();
	trip(c, g, "round trip");
}
// assets as applications build them: any finite numbers, trailing variants without mapping, data held in other ways
PROPERTY(edited, 7000, 500000) {
	ex::Case c; ex::Want w; w.numbers = true; ex::make(c, g, opts(g), w);
	for (auto& m : c.asset.meshes) for (auto& p : m.primitives) while (!p.mappings.empty() && !p.mappings.back().has_value() && g.flip()) { p.mappings.resize(p.mappings.size() - 1); g.label("short mappings"); }
	if (g.chance(1, 4)) { c.asset.assetInfo.reset(); g.label("no asset info"); fg::Exporter e; auto r = e.writeGltfJson(c.asset); require(r.error() == fg::Error::None, "export", "exporting without asset info failed"); Json j; std::string er; require(js::parse(r.get().output, j, er), "JSON", er); require(j.at("asset").at("version").s == "2.0", "version", "no version: " + r.get().output); return; }
	if (c.changed) { g.nontrivial(); g.label("numbers changed"); }
	trip(c, g, "edited");
}

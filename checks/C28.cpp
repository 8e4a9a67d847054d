// C28: objects that a program builds itself mean what a document means that omits the same members.
#include <lib/build.hpp>
using namespace pbt;
namespace fg = fastgltf;
using js::Json;

static void run(Gen& g, gg::Opts o) {
	auto d = gg::document(g, o); auto all = gg::allExts(); all.insert("KHR_accessor_float64");
	auto text = js::text(d.root); g.note(text); g.key(hashStr(text));
	bl::Builder b(d, all, static_cast<uint8_t>(g.pick<int>({0xff, 0x5a, 1, 2, 0x80, 0x40})));
	auto a = b.build();
	if (b.unset) { g.nontrivial(); g.label("unset members"); }
	for (auto& e : d.used) g.label(e);
	auto want = gs::normRoot(d.root, all); gg::addData(want, d, false, false);
	dp::same(dp::dump(a), want, "built"); // the defaults of the specification, which are also what a load gives
	fg::Parser parser(dp::extBits(all)); auto buf = dp::bytes(text);
	auto l = parser.loadGltfJson(buf, "", fg::Options::AllowDouble);
	require(l.error() == fg::Error::None, "load", [&] { return "loading a valid document failed: " + dp::err(l.error()); });
	dp::same(dp::dump(l.get()), want, "loaded");
	for (auto* x : {&a, &l.get()}) { auto v = fg::validate(*x); require(v == fg::Error::None, "validate", [&] { return std::string(x == &a ? "built" : "loaded") + " asset is invalid: " + dp::err(v); }); }
	fg::Exporter e; auto opt = g.flip() ? fg::ExportOptions::PrettyPrintJson : fg::ExportOptions::None;
	auto x = e.writeGltfJson(a, opt), y = e.writeGltfJson(l.get(), opt);
	require(x.error() == fg::Error::None && y.error() == fg::Error::None, "export", [&] { return "exporting failed: built " + dp::err(x.error()) + ", loaded " + dp::err(y.error()); });
	require(x.get().output == y.get().output, "text", [&] { return "the same content exports as\n" + x.get().output + "\nwhen built and as\n" + y.get().output + "\nwhen loaded"; });
	if (g.chance(1, 3)) { // and in a binary container
		auto p = e.writeGltfBinary(a, opt), q = e.writeGltfBinary(l.get(), opt); g.label("binary");
		require(p.error() == fg::Error::None && q.error() == fg::Error::None, "export binary", [&] { return "exporting as binary failed: built " + dp::err(p.error()) + ", loaded " + dp::err(q.error()); });
		require(p.get().output == q.get().output, "container", "the same content exports as another container when built than when loaded");
	}
}
PROPERTY(all_extensions, 9000, 600000) {
	gg::Opts o; o.wild = g.chance(1, 6); o.exts = gg::allExts(); o.maxNodes = g.thorough ? 8 : 4; o.external = g.chance(1, 3); o.unknowns = g.chance(1, 4); o.meshoptRequired = g.chance(1, 4);
	run(g, o);
}
PROPERTY(one_extension, 9000, 600000) {
	gg::Opts o; o.wild = false; o.maxNodes = 3; o.maxObjects = 2; o.external = g.chance(1, 4);
	auto all = gg::allExts(); std::vector<std::string> v(all.begin(), all.end()); o.exts.insert(g.pick(v)); if (g.flip()) o.exts.insert(g.pick(v));
	if (o.exts.count("EXT_meshopt_compression")) o.meshoptRequired = g.flip();
	run(g, o);
}
// the parts that a document always gives, and the sources a document never has
PROPERTY(parts, 3000, 30000) {
	gg::Doc d; bl::Builder b(d, {}, static_cast<uint8_t>(g.draw(255))); g.note("memory full of " + std::to_string(b.fill)); g.nontrivial();
	auto none = [&](const char* n, fg::MimeType m) { require(m == fg::MimeType::None, "media type", [&] { return std::string("a new sources::") + n + " has the media type " + dp::mime(m); }); };
	none("BufferView", b.fresh<fg::sources::BufferView>().mimeType); none("URI", b.fresh<fg::sources::URI>().mimeType); none("Vector", b.fresh<fg::sources::Vector>().mimeType); none("CustomBuffer", b.fresh<fg::sources::CustomBuffer>().mimeType); none("ByteView", b.fresh<fg::sources::ByteView>().mimeType);
	require(std::holds_alternative<std::monostate>(b.fresh<fg::Buffer>().data) && std::holds_alternative<std::monostate>(b.fresh<fg::Image>().data), "data", "a new buffer or image has data");
	auto bi = b.fresh<fg::sources::ByteView>(); require(bi.bytes.empty() && bi.bytes.data() == nullptr, "byte view", "a new byte view is not empty");
	auto a = b.fresh<fg::Asset>(); require(!a.assetInfo.has_value() && !a.defaultScene.has_value(), "asset", "a new asset has information or a scene"); auto w = dp::dump(a);
	for (auto& [k, v] : w.o) require(v.isArr() && v.a.empty(), "asset", [&] { return "a new asset has " + k; });
	auto x = b.fresh<fg::Accessor>(); require(!x.max && !x.min && !x.sparse.has_value() && !x.bufferViewIndex.has_value() && x.byteOffset == 0 && !x.normalized, "accessor", "a new accessor has members that were not set");
	auto v = b.fresh<fg::BufferView>(); require(!v.byteStride.has_value() && !v.target.has_value() && !v.meshoptCompression && v.byteOffset == 0, "view", "a new buffer view has members that were not set");
}

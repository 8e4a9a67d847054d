// C14: binary export gives a well-formed container with the exact bytes; what cannot be represented is refused.
#include <lib/export.hpp>
#include <lib/glb.hpp>
#include <lib/sources.hpp>
using namespace pbt;
namespace fg = fastgltf;
using js::Json; using gg::Bytes;

static uint32_t u32(const Bytes& b, size_t p) { return uint32_t(b[p]) | uint32_t(b[p + 1]) << 8 | uint32_t(b[p + 2]) << 16 | uint32_t(b[p + 3]) << 24; }
struct Container { std::string json; bool hasBin = false; Bytes bin; };
static Container take(const Bytes& b) {
	Container c; auto need = [&](bool ok, const char* tag, std::string msg) { if (!ok) fail(tag, msg + " (" + std::to_string(b.size()) + " bytes: " + hex(b.data(), std::min<size_t>(b.size(), 40)) + ")"); };
	need(b.size() >= 20, "header", "the container is too short");
	need(u32(b, 0) == glb::Magic, "magic", "wrong magic"); need(u32(b, 4) == 2, "version", "wrong version");
	need(u32(b, 8) == b.size(), "length", "the length field says " + std::to_string(u32(b, 8))); need(b.size() % 4 == 0, "alignment", "the total length is no multiple of 4");
	size_t p = 12; uint32_t n = u32(b, p); need(u32(b, p + 4) == glb::Json, "JSON chunk", "the first chunk is no JSON chunk"); need(n % 4 == 0 && n <= b.size() - 20, "JSON chunk length", "JSON chunk length " + std::to_string(n));
	c.json.assign(b.begin() + 20, b.begin() + 20 + n); size_t pad = 0; while (!c.json.empty() && c.json.back() == ' ') { c.json.pop_back(); ++pad; } need(pad < 4, "JSON padding", "more padding than needed"); need(!c.json.empty() && c.json.back() == '}', "JSON padding", "the JSON chunk is padded with something else than spaces");
	p = 20 + n; if (p == b.size()) return c;
	need(b.size() - p >= 8, "chunk header", "left-over bytes"); n = u32(b, p); need(u32(b, p + 4) == glb::Bin, "BIN chunk", "the second chunk is no binary chunk"); need(n % 4 == 0 && n == b.size() - p - 8, "BIN chunk length", "binary chunk length " + std::to_string(n));
	c.hasBin = true; c.bin.assign(b.begin() + long(p) + 8, b.end()); return c;
}
static gg::Opts opts(Gen& g) {
	gg::Opts o; o.wild = g.chance(1, 6); o.maxNodes = 3; o.maxObjects = 2; o.external = g.chance(1, 3); o.meshoptRequired = g.chance(1, 4);
	if (g.flip()) o.exts = gg::allExts();
	return o;
}
template <class R> Bytes toBytes(const R& r) { Bytes b(r.output.size()); if (!b.empty()) memcpy(b.data(), r.output.data(), b.size()); return b; }

static void exportAndCheck(ex::Case& c, Gen& g, fg::Exporter& e) {
	auto& a = c.asset; auto before = dp::dump(a);
	auto r = e.writeGltfBinary(a, g.chance(1, 6) ? fg::ExportOptions::PrettyPrintJson : fg::ExportOptions::None);
	require(r.error() == fg::Error::None, "export", [&] { return "exporting failed: " + dp::err(r.error()); });
	dp::same(dp::dump(a), before, "asset changed");
	auto k = take(toBytes(r.get())); g.note("JSON chunk: " + k.json);
	dp::same(ex::content(k.json, c.names), ex::expected(a, r.get(), true), "JSON chunk");
	size_t n = 0; const std::byte* p = a.buffers.empty() ? nullptr : dp::dataPtr(a.buffers[0].data, n); bool embedded = p != nullptr;
	require(k.hasBin == embedded, "embedded", [&] { return std::string("binary chunk ") + (k.hasBin ? "unexpected" : "missing"); });
	if (embedded) {
		g.label("chunk"); g.nontrivial(); size_t len = a.buffers[0].byteLength;
		require(k.bin.size() == (len + 3) / 4 * 4, "BIN size", [&] { return "binary chunk of " + std::to_string(k.bin.size()) + " bytes for a buffer of " + std::to_string(len); });
		require(memcmp(k.bin.data(), p, len) == 0, "BIN bytes", "the binary chunk has other bytes than the buffer");
		for (size_t i = len; i < k.bin.size(); ++i) require(k.bin[i] == 0, "BIN padding", "the binary chunk is not padded with zeros");
		if (len % 4) g.label("padded chunk");
	} else g.label("no chunk");
	// and back
	fg::Parser parser(c.exts); Bytes bytes = toBytes(r.get()); sources::Strict src(bytes);
	auto b = g.flip() ? parser.loadGltfBinary(src, "", fg::Options::None) : parser.loadGltf(src, "", fg::Options::None);
	require(b.error() == fg::Error::None, "reload", [&] { return "the container is refused: " + dp::err(b.error()); });
	auto want = dp::dump(a), got = dp::dump(b.get());
	for (auto* k2 : {"buffers", "images"}) { // external data is found under the paths of the result
		auto& l = want[k2].a; bool img = k2[0] == 'i';
		for (size_t i = 0; i < l.size(); ++i) {
			auto& path = img ? r.get().imagePaths[i] : r.get().bufferPaths[i]; auto& d = l[i]["data"];
			if (path.has_value()) { auto s = Json::obj(); s["uri"] = ex::u8(*path); if (img && d.find("mime")) s["mime"] = d.at("mime"); d = s; }
			else if (!img && i == 0 && embedded) { auto pad = k.bin; d = Json::obj(); d["bytes"] = gg::hexs(pad); auto* m = got["buffers"].a[0].find("data"); if (m) m->erase("mime"); }
			else if (!img) d.erase("mime");
		}
	}
	for (auto& m : want["materials"].a) if (m.at("alphaMode").s != "MASK") m["alphaCutoff"] = 0.5;
	dp::same(got, want, "reloaded");
	if (g.chance(1, 4)) { auto r2 = e.writeGltfBinary(a); require(r2.error() == fg::Error::None && toBytes(r2.get()) == bytes, "again", "exporting the same asset again gives another container"); }
	if (g.chance(1, 6)) {
		auto v = e.writeGltfBinary(a, fg::ExportOptions::ValidateAsset); auto ok = fg::validate(a);
		require((v.error() == fg::Error::None) == (ok == fg::Error::None), "validate", [&] { return "exporting with validation gives " + dp::err(v.error()) + ", validating " + dp::err(ok); });
		if (v.error() == fg::Error::None) require(toBytes(v.get()) == bytes, "validated", "validation changes the container");
	}
}

PROPERTY(container, 9000, 500000) {
	ex::Case c; ex::make(c, g, opts(g)); auto& a = c.asset; fg::Exporter e;
	// more bytes than the byte length says: only the length counts
	if (!a.buffers.empty() && g.chance(1, 4)) {
		size_t n; auto* p = dp::dataPtr(a.buffers[0].data, n);
		if (p) { Bytes more(n); memcpy(more.data(), p, n); auto add = gg::randBytes(g, 1 + g.draw(9)); more.insert(more.end(), add.begin(), add.end()); fg::sources::Vector v; v.bytes.resize(more.size()); memcpy(v.bytes.data(), more.data(), more.size()); a.buffers[0].data = std::move(v); ex::otherSource(a.buffers[0].data, c, g); g.label("more bytes"); }
	}
	if (g.chance(1, 6)) { auto r = e.writeGltfJson(a); require(r.error() == fg::Error::None, "json first", "JSON export failed"); g.label("reused exporter"); }
	exportAndCheck(c, g, e);
}
// every length of the embedded buffer
PROPERTY(lengths, 2500, 100000) {
	ex::Case c; c.names = gg::allExts(); size_t n = 1 + (g.chance(1, 10) ? g.draw(100000) : g.draw(70)); g.label("length " + std::to_string(n % 4)); g.key(n);
	auto b = gg::randBytes(g, n); fg::Buffer buf; buf.byteLength = n; fg::sources::Vector v; v.bytes.resize(n); memcpy(v.bytes.data(), b.data(), n); buf.data = std::move(v); c.asset.buffers.emplace_back(std::move(buf));
	c.asset.assetInfo = fg::AssetInfo{}; c.asset.assetInfo->gltfVersion = "2.0"; auto gen = gg::str(g, 6, false); c.asset.assetInfo->generator.assign(gen.data(), gen.size()); // any length of the text
	ex::otherSource(c.asset.buffers[0].data, c, g); g.note(std::to_string(n) + " bytes"); fg::Exporter e; exportAndCheck(c, g, e);
}

// what has no form in a file is refused, by both exports, and the exporter works again afterwards
PROPERTY(refused, 5000, 200000) {
	ex::Case c; ex::make(c, g, opts(g)); auto& a = c.asset; fg::Exporter e; g.nontrivial();
	std::string what; bool glbOnly = false; size_t bi = a.buffers.empty() ? 0 : g.draw(a.buffers.size() - 1), ii = a.images.empty() ? 0 : g.draw(a.images.size() - 1);
	fg::DataSource old; fg::DataSource* at = nullptr; size_t n; size_t oldLen = 0;
	switch (g.draw(4)) {
		case 0: if (a.buffers.empty()) throw Discard{}; what = "custom buffer"; at = &a.buffers[bi].data; old = std::move(*at); *at = fg::sources::CustomBuffer{g.draw(9), fg::MimeType::None}; break;
		case 1: if (a.buffers.empty()) throw Discard{}; what = "buffer without data"; at = &a.buffers[bi].data; old = std::move(*at); *at = std::monostate{}; break;
		case 2: if (a.images.empty()) throw Discard{}; what = "custom image"; at = &a.images[ii].data; old = std::move(*at); *at = fg::sources::CustomBuffer{g.draw(9), fg::MimeType::PNG}; break;
		case 3: if (a.images.empty()) throw Discard{}; what = "image without data"; at = &a.images[ii].data; old = std::move(*at); *at = std::monostate{}; break;
		default: { if (a.buffers.empty() || !dp::dataPtr(a.buffers[0].data, n)) throw Discard{}; what = "too few bytes"; glbOnly = true; oldLen = a.buffers[0].byteLength; a.buffers[0].byteLength = n + (g.chance(1, 8) ? size_t(1) << (20 + g.draw(20)) : 1 + g.draw(70)); break; }
	}
	g.label(what); g.note(what);
	auto r = e.writeGltfBinary(a); require(r.error() != fg::Error::None, "accepted", [&] { return "binary export of a " + what + " succeeded"; });
	if (!glbOnly) { auto j = e.writeGltfJson(a); require(j.error() != fg::Error::None, "accepted JSON", [&] { return "JSON export of a " + what + " succeeded"; }); }
	if (at) *at = std::move(old); else a.buffers[0].byteLength = oldLen;
	exportAndCheck(c, g, e); // the same exporter, the repaired asset
}

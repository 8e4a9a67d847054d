// C09: binary containers are accepted exactly when well-formed; file type detection.
#include <lib/dump.hpp>
#include <lib/gen_gltf.hpp>
#include <lib/glb.hpp>
#include <lib/sources.hpp>
using namespace pbt;
namespace fg = fastgltf;
using js::Json; using files::Bytes; namespace fs = std::filesystem;
static bool validObject(const std::string& t) { Json j; std::string e; return js::parse(t, j, e) && j.t == Json::Obj; }

static uint32_t rd(const Bytes& b, size_t at) { uint32_t v; memcpy(&v, &b[at], 4); return v; }
// what the container holds; open: the rules leave it open
struct Reading { bool ok = false, open = false; Bytes json; bool hasBin = false; Bytes bin; const char* why = ""; bool version = false; };
static Reading readGlb(const Bytes& b) {
	Reading r;
	if (b.size() < 20) { r.why = "shorter than a header and a chunk"; return r; }
	if (rd(b, 0) != glb::Magic) { r.why = "magic"; return r; }
	if (rd(b, 4) != 2) { r.why = "version"; r.version = true; return r; }
	uint64_t len = rd(b, 8);
	if (len > b.size()) { r.why = "length beyond the data"; return r; }
	if (len < 20) { r.why = "length without room for a chunk"; return r; }
	uint64_t jl = rd(b, 12);
	if (rd(b, 16) != glb::Json) { r.why = "first chunk is no JSON chunk"; return r; }
	if (jl > len - 20) { r.why = "JSON chunk beyond the container"; return r; }
	r.json.assign(b.begin() + 20, b.begin() + 20 + long(jl));
	uint64_t at = 20 + jl;
	if (len - at > 0 && len - at < 8) { r.open = true; return r; }
	if (len - at >= 8) {
		uint64_t bl = rd(b, at);
		if (rd(b, at + 4) != glb::Bin) { r.why = "second chunk is no binary chunk"; return r; }
		if (bl > len - at - 8) { r.why = "binary chunk beyond the container"; return r; }
		r.hasBin = true; r.bin.assign(b.begin() + long(at + 8), b.begin() + long(at + 8 + bl)); at += 8 + bl;
		// further chunks are for extensions to this format
		while (len - at >= 8 && !r.open) { uint64_t l = rd(b, at); if (l > len - at - 8) r.open = true; else at += 8 + l; }
		if (len - at && len - at < 8) r.open = true;
	}
	r.ok = true; return r;
}

PROPERTY(container, 25000, 1500000) {
	gg::Opts o; o.wild = false; o.maxNodes = 2; o.maxObjects = 1; o.unknowns = false; o.glb = g.chance(4, 5); o.sparse = o.noView = false;
	auto d = gg::document(g, o); std::string text = js::text(d.root);
	struct Ch { uint32_t type; Bytes data; int64_t declared = -1; };
	std::vector<Ch> ch; Bytes j(text.begin(), text.end()); bool aligned = !g.chance(1, 6); if (aligned) j.resize((j.size() + 3) / 4 * 4 + 4 * g.size(2), ' ');
	ch.push_back({glb::Json, j});
	Bytes bin = d.hasChunk ? d.chunk : gg::randBytes(g, g.size(12)); if (aligned) bin.resize((bin.size() + 3) / 4 * 4);
	if (d.hasChunk && g.chance(1, 5)) bin.resize(bin.size() + g.draw(9)); // more than the buffer needs
	bool withBin = d.hasChunk ? !g.chance(1, 10) : g.flip();
	if (withBin) ch.push_back({glb::Bin, bin});
	if (g.chance(1, 8)) ch.push_back({static_cast<uint32_t>(g.flip() ? glb::Bin : g.draw(0xffffffffu)), gg::randBytes(g, g.size(9))});
	uint32_t magic = glb::Magic, version = 2; int64_t length = -1; int cut = 0; size_t extra = 0; std::string what = "as generated";
	auto near = [&](uint64_t v) { // values around the right one, and extreme ones
		switch (g.draw(4)) { case 0: return static_cast<int64_t>(v) + g.range<int64_t>(-9, 9); case 1: return static_cast<int64_t>(g.draw(v)); case 2: return static_cast<int64_t>(g.pick<uint32_t>({0, 1, 2, 3, 4, 7, 8, 12, 19, 20, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xfffffff8u, 0xffffffffu})); case 3: return static_cast<int64_t>(v) * 2; default: return static_cast<int64_t>(uint32_t(-static_cast<int64_t>(g.draw(64)))); } };
	size_t total = 12; for (auto& c : ch) total += 8 + c.data.size();
	for (size_t n = g.draw(2); n > 0; --n) {
		switch (g.draw(9)) {
			case 0: what += "; magic"; magic = g.flip() ? magic ^ (1u << g.draw(31)) : static_cast<uint32_t>(g.draw(0xffffffffu)); break;
			case 1: what += "; version"; version = g.pick<uint32_t>({0, 1, 3, 0x200, 0x02000000, 0xffffffff, 0x10002}); break;
			case 2: case 3: what += "; length"; length = near(total); break;
			case 4: { size_t i = g.draw(ch.size() - 1); what += "; type of chunk " + std::to_string(i); ch[i].type = g.pick<uint32_t>({glb::Json, glb::Bin, 0, glb::Json ^ 0x20, glb::Bin ^ 1, 0x4E49420Au, glb::Magic}); break; }
			case 5: case 6: { size_t i = g.draw(ch.size() - 1); what += "; length of chunk " + std::to_string(i); ch[i].declared = near(ch[i].data.size()); break; }
			case 7: what += "; cut"; cut = static_cast<int>(g.flip() ? 1 + g.draw(8) : g.draw(total)); break;
			case 8: if (ch.size() > 1) { what += "; order"; std::swap(ch[0], ch[1]); } break;
			default: what += "; bytes after the end"; extra = g.size(16); break;
		}
	}
	Bytes b; glb::u32(b, magic); glb::u32(b, version); glb::u32(b, static_cast<uint32_t>(length < 0 ? total : length));
	for (auto& c : ch) { glb::u32(b, static_cast<uint32_t>(c.declared < 0 ? c.data.size() : c.declared)); glb::u32(b, c.type); b.insert(b.end(), c.data.begin(), c.data.end()); }
	if (cut) b.resize(b.size() > size_t(cut) ? b.size() - size_t(cut) : 0);
	for (size_t i = 0; i < extra; ++i) b.push_back(static_cast<uint8_t>(g.draw(255)));
	if (what != "as generated" && g.chance(1, 4) && !b.empty() && length < 0) { uint32_t n = static_cast<uint32_t>(b.size()); if (b.size() >= 12) memcpy(&b[8], &n, 4); what += "; total length adapted"; }
	auto r = readGlb(b);
	g.note(what + (r.ok ? (r.open ? " -> open" : " -> well-formed") : std::string(" -> ") + r.why) + "\n" + hex(b.data(), std::min<size_t>(b.size(), 64)) + "\n" + text); g.key(hashBytes(b.data(), b.size()));
	if (what != "as generated") g.nontrivial();
	sources::Strict src(b); fg::Parser parser; bool detect = g.chance(1, 4);
	auto a = detect ? parser.loadGltf(src, "", fg::Options::None) : parser.loadGltfBinary(src, "", fg::Options::None);
	auto e = a.error(); bool beyond = src.beyond;
	require(!beyond, "read beyond", "more bytes were read from the source than it has");
	if (r.open) { g.label("open"); return; }
	if (!r.ok) {
		g.label(r.why);
		require(e != fg::Error::None, "accepted", [&] { return std::string("a container with a bad ") + r.why + " was loaded"; });
		return;
	}
	std::string jt(r.json.begin(), r.json.end()), head = jt.substr(0, std::min(jt.size(), text.size()));
	bool same = head == text && jt.find_first_not_of(' ', text.size()) == std::string::npos;
	bool shrt = d.hasChunk && (r.bin.size() < d.chunk.size());
	if (!same) { g.label("other JSON"); if (!validObject(jt)) require(e != fg::Error::None, "json", "a JSON chunk that is no JSON was accepted"); return; }
	if (d.hasChunk && r.bin.empty()) { g.label("chunk missing"); require(e != fg::Error::None, "missing chunk", "the document needs the binary chunk, there is none, and it was loaded"); return; }
	if (shrt) { g.label("chunk too short"); return; } // decided by C10
	g.label("well-formed"); if (d.hasChunk) g.label("well-formed with chunk");
	require(e == fg::Error::None, "refused", [&] { return what + ": well-formed, but loading failed: " + dp::err(e); });
	auto want = gs::normRoot(d.root, {}); gg::addData(want, d, false, false);
	for (size_t i = 0; i < d.buffers.size(); ++i) if (d.buffers[i].kind == gg::BufferPlan::Chunk) want["buffers"].a[i]["data"]["bytes"] = gg::hexs(r.bin);
	auto got = dp::dump(a.get()); dp::openMimes(got, want); dp::same(got, want, "content");
}

PROPERTY(detection, 25000, 800000) {
	std::string t; std::string how;
	switch (g.draw(5)) {
		case 0: how = "arbitrary"; for (size_t n = g.size(12); n > 0; --n) t += static_cast<char>(g.byte()); break;
		case 1: { how = "magic"; t = "glTF"; for (size_t n = g.size(20); n > 0; --n) t += static_cast<char>(g.byte()); if (g.chance(1, 3)) t.resize(g.draw(t.size())); break; }
		case 2: case 3: { how = "object"; t = js::text(Json::obj({{"a", 1}})); if (g.flip()) t = "{}"; else if (g.flip()) t = "{ \n}"; std::string ws; for (size_t n = g.flip() ? g.size(6) : g.size(100); n > 0; --n) ws += g.pick({' ', '\t', '\n', '\r'}); t = ws + t; if (g.chance(1, 8)) t = "\xEF\xBB\xBF" + t; break; }
		case 4: { how = "other JSON"; t = g.pick<std::string>({"[]", "1", "\"{\"", "null", "[{}]", "-0", "true"}); std::string ws; for (size_t n = g.size(6); n > 0; --n) ws += g.pick({' ', '\t', '\n', '\r'}); t = ws + t; break; }
		default: { how = "almost"; t = g.pick<std::string>({"gltf", "glTf", "GLTF", "FTlg", "g", "gl", "glT", "", " ", "\xEF\xBB\xBF", "\xEF\xBB", "\xEF", "\xEF\xBB\xBF ", "\v{}", "\f{}", "x{}"}); if (g.flip()) t += std::string(1, '\0') + "{}"; break; }
	}
	using T = fg::GltfType;
	Bytes b(t.begin(), t.end());
	T want = T::Invalid; bool open = false;
	if (t.compare(0, 4, "glTF") == 0 && t.size() >= 4) want = T::GLB;
	else {
		size_t i = t.compare(0, 3, "\xEF\xBB\xBF") == 0 ? 3 : 0; bool bom = i;
		i = t.find_first_not_of(" \t\n\r", i);
		if (i != std::string::npos && t[i] == '{') { want = T::glTF; open = bom || !validObject(t); }
	}
	g.note(how + ": " + hex(t.data(), t.size(), 400)); g.key(hashStr(t)); g.nontrivial(); g.label(how); g.label(want == T::GLB ? "GLB" : want == T::glTF ? "JSON" : "invalid");
	int k = static_cast<int>(g.draw(sources::Kinds - 1)); std::unique_ptr<files::Dir> dir; fs::path f;
	if (k == sources::Mapped && b.empty()) k = sources::Memory;
	if (k == sources::FileBuffer || k == sources::Mapped || k == sources::Stream) { if (!g.chance(1, 4)) k = sources::Own; else { dir = std::make_unique<files::Dir>(); f = dir->put("f", b); } }
	auto s = sources::make(k, b, f); if (!s) fail("source", "refused");
	for (int i = 0; i < 2; ++i) {
		auto got = fg::determineGltfFileType(*s);
		if (open) require(got == T::glTF || got == T::Invalid, "open", "text that starts with { is called binary");
		else require(got == want, "type", [&] { return std::string("detected as ") + std::to_string(int(got)) + ", is " + std::to_string(int(want)) + " (" + sources::name(k) + ")"; });
	}
	if (auto* st = dynamic_cast<sources::Strict*>(s.get())) require(!st->beyond, "read beyond", "more bytes were read from the source than it has");
	fg::Parser p; auto a = p.loadGltf(*s, "", fg::Options::DontRequireValidAssetMember);
	require((a.error() == fg::Error::None) == (want == T::glTF && validObject(t)) || open, "load", [&] { return "loading gave " + dp::err(a.error()); });
	if (want == T::Invalid) require(a.error() == fg::Error::InvalidFileData, "invalid", [&] { return "loading something unrecognised gave " + dp::err(a.error()); });
}

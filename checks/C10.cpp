// C10: buffers and images resolve to exactly the data they refer to, or loading fails.
#include <lib/dump.hpp>
#include <lib/gen_gltf.hpp>
#include <lib/glb.hpp>
#include <lib/sources.hpp>
#include <lib/user.hpp>
using namespace pbt;
namespace fg = fastgltf; namespace fs = std::filesystem;
using js::Json; using files::Bytes;

// callbacks with memory of exactly the size asked for
struct Host {
	struct Block { std::unique_ptr<uint8_t[]> mem; uint64_t n = 0; uint64_t id = 0; size_t unmaps = 0; Bytes atUnmap; };
	std::vector<Block> blocks; uint64_t firstId = 0; unsigned nullEvery = 0; size_t calls = 0; std::vector<std::pair<std::string, size_t>> decoded; std::string bad; size_t nulls = 0;
	static fg::BufferInfo map(std::uint64_t n, void* u) {
		auto& h = *static_cast<Host*>(user::get(u)); ++h.calls; fg::BufferInfo i; i.mappedMemory = nullptr; i.customId = 0xdead;
		if (h.nullEvery && h.calls % h.nullEvery == 0) { ++h.nulls; return i; }
		Block b; b.n = n; b.mem.reset(new uint8_t[n]); memset(b.mem.get(), 0xEE, n); b.id = h.firstId + h.blocks.size() * 3; i.mappedMemory = b.mem.get(); i.customId = b.id; h.blocks.push_back(std::move(b)); return i;
	}
	static void unmap(fg::BufferInfo* i, void* u) {
		auto& h = *static_cast<Host*>(user::get(u));
		for (auto& b : h.blocks) if (b.mem.get() == i->mappedMemory) { if (b.id != i->customId) h.bad = "unmap with another id"; ++b.unmaps; b.atUnmap.assign(b.mem.get(), b.mem.get() + b.n); return; }
		h.bad = "unmap of memory that was not mapped";
	}
	static void decode(std::string_view t, std::uint8_t* out, std::size_t pad, std::size_t n, void* u) {
		auto& h = *static_cast<Host*>(user::get(u)); h.decoded.emplace_back(std::string(t), n);
		size_t p = 0; while (p < t.size() && t[t.size() - 1 - p] == '=') ++p;
		if (p != pad) h.bad = "decode told of " + std::to_string(pad) + " padding characters in " + std::string(t);
		if (t.size() / 4 * 3 - p != n) h.bad = "decode told of the wrong size for " + std::string(t);
		uint32_t acc = 0; int bits = 0; size_t o = 0;
		for (char c : t) { int v = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; if (v < 0) break; acc = acc << 6 | uint32_t(v); bits += 6; if (bits >= 8) { bits -= 8; if (o < n) out[o++] = static_cast<uint8_t>(acc >> bits); } }
	}
};
static Bytes bytesOf(const fg::DataSource& d, const Host& h, std::string& kind, const Host::Block** blk = nullptr) {
	size_t n = 0;
	if (auto* c = std::get_if<fg::sources::CustomBuffer>(&d)) { kind = "custom"; for (auto& b : h.blocks) if (b.id == c->id) { if (blk) *blk = &b; return Bytes(b.mem.get(), b.mem.get() + b.n); } kind = "custom with an unknown id"; return {}; }
	if (auto* p = dp::dataPtr(d, n)) { kind = "bytes"; Bytes b(n); memcpy(b.data(), p, n); return b; }
	if (std::holds_alternative<fg::sources::Array>(d)) { kind = "bytes"; return {}; }
	kind = std::holds_alternative<fg::sources::URI>(d) ? "uri" : std::holds_alternative<fg::sources::BufferView>(d) ? "view" : std::holds_alternative<fg::sources::Fallback>(d) ? "fallback" : "none";
	return {};
}
static std::string encode(Gen& g, const std::string& n) { // a relative reference to a file
	std::string o; bool raw = g.flip(), all = g.chance(1, 10);
	for (unsigned char c : n) { bool plain = isalnum(c) || strchr("/._-~!$&'()*+,;=@", c); if ((plain && !all) || (c == '/' && all) || (c >= 0x80 && raw)) o += static_cast<char>(c); else { char b[4]; snprintf(b, 4, g.flip() ? "%%%02X" : "%%%02x", c); o += b; } }
	return o;
}
static std::string fileName(Gen& g, size_t i) {
	std::string n = g.pick<std::string>({"a", "Data", "a b", "\xc3\xa9t\xc3\xa9", "x%20y", "q?r", "s#t", "u:v", "w+x", "c,d;e", "p=q&r", "(1)", "'", "\xe6\x97\xa5", "dot.dot", "...", "-", "~", "@", "100%"});
	n += std::to_string(i) + g.pick<std::string>({".bin", "", ".png", ".glbin"});
	switch (g.draw(5)) { case 0: n = "sub/" + n; break; case 1: n = "sub dir/deep/" + n; break; case 2: n = "./" + n; break; case 3: n = "sub/../" + n; break; default: break; }
	return n;
}
struct Item { enum K { Data, File, Remote, Chunk, View } k = Data; Bytes data; std::string mime, file, uri; bool mimeGiven = false; size_t declared = 0; bool noUri = false; };

struct Setup {
	std::vector<Item> buffers, images; Json root; std::unique_ptr<files::Dir> dir; fg::Options opt = fg::Options::None; bool glb = false; Bytes chunk; bool loadB = false, loadI = false; bool hasRel = false; std::string dirHow; fs::path given;
};
static Setup setup(Gen& g, bool allowGlb) {
	Setup s; s.glb = allowGlb && g.chance(1, 2); s.loadB = g.flip(); s.loadI = g.flip();
	if (s.loadB) s.opt |= fg::Options::LoadExternalBuffers;
	if (s.loadI) s.opt |= fg::Options::LoadExternalImages;
	size_t nb = 1 + g.draw(2), ni = g.draw(3);
	for (size_t i = 0; i < nb; ++i) {
		Item b; b.data = gg::randBytes(g, 1 + (g.chance(1, 6) ? g.draw(5000) : g.size(70))); b.declared = b.data.size(); if (g.chance(1, 4)) b.declared = 1 + g.draw(b.declared - 1); // more data than declared is fine
		if (i == 0 && s.glb && g.chance(2, 3)) { b.k = Item::Chunk; s.chunk = b.data; b.data.resize((b.data.size() + 3) / 4 * 4); }
		else if (g.chance(1, 2)) { b.k = Item::Data; b.mime = g.pick<std::string>({"application/octet-stream", "application/gltf-buffer"}); }
		else if (g.chance(1, 6)) b.k = Item::Remote;
		else b.k = Item::File;
		s.buffers.push_back(b);
	}
	if (s.glb && s.chunk.empty() && g.chance(1, 2)) s.chunk = gg::randBytes(g, 1 + g.size(90)); // a chunk that no buffer refers to
	for (size_t i = 0; i < ni; ++i) {
		Item m; m.data = gg::randBytes(g, 1 + g.size(60)); m.mime = g.pick(gs::mimes());
		size_t r = g.draw(9); m.k = r < 4 ? Item::Data : r < 7 ? Item::File : r < 8 ? Item::Remote : Item::View; m.mimeGiven = m.k == Item::View || g.flip(); s.images.push_back(m);
	}
	auto place = [&](Item& x, size_t i, bool loaded) {
		if (x.k == Item::Data) x.uri = "data:" + x.mime + ";base64," + gg::b64(x.data);
		else if (x.k == Item::Remote) { x.uri = g.pick<std::string>({"http://localhost/", "https://user@example.com:80/", "ftp://h/"}) + "f" + std::to_string(i) + g.pick<std::string>({"", "?q=1", "#frag", "/a/b"}); x.file = x.uri; }
		else if (x.k == Item::File) {
			x.file = fileName(g, i); x.uri = encode(g, x.file);
			// a relative reference must not look like a scheme
			(void)loaded;
		}
	};
	for (size_t i = 0; i < nb; ++i) place(s.buffers[i], i, s.loadB);
	for (size_t i = 0; i < ni; ++i) place(s.images[i], nb + i, s.loadI);
	return s;
}
static void build(Setup& s, Gen& g) {
	s.root = Json::obj({{"asset", Json::obj({{"version", "2.0"}})}});
	auto bs = Json::arr(), is = Json::arr();
	for (auto& b : s.buffers) { auto j = Json::obj(); j["byteLength"] = static_cast<uint64_t>(b.declared); if (b.k != Item::Chunk && !b.noUri) j["uri"] = b.uri; bs.push(j); }
	s.root["buffers"] = bs; s.root["bufferViews"] = Json::arr({Json::obj({{"buffer", 0}, {"byteLength", 1}})});
	for (auto& m : s.images) { auto j = Json::obj(); if (m.k == Item::View) j["bufferView"] = 0; else j["uri"] = m.uri; if (m.mimeGiven) j["mimeType"] = m.mime; is.push(j); }
	if (!s.images.empty()) s.root["images"] = is;
	bool need = false; for (auto& b : s.buffers) need |= b.k == Item::File && s.loadB; for (auto& m : s.images) need |= m.k == Item::File && s.loadI;
	if (need || s.loadB || s.loadI) {
		s.dir = std::make_unique<files::Dir>(); s.given = s.dir->path; fs::create_directories(s.dir->path / "sub");
		fs::path base = s.dir->path;
		switch (g.draw(2)) { case 0: s.given = s.dir->path / ""; break; case 1: base = s.dir->path / "models \xc3\xa9"; s.given = base; break; default: break; }
		fs::create_directories(base / "sub"); s.dirHow = base.string();
		auto put = [&](Item& x) { auto p = base / fs::u8path(x.file); fs::create_directories(p.parent_path()); std::ofstream o(p, std::ios::binary); o.write(reinterpret_cast<const char*>(x.data.data()), long(x.data.size())); };
		for (auto& b : s.buffers) if (b.k == Item::File && s.loadB) put(b);
		for (auto& m : s.images) if (m.k == Item::File && s.loadI) put(m);
	}
}
static fg::Expected<fg::Asset> run(Setup& s, Gen& g, fg::Parser& p, Bytes* over = nullptr) {
	std::string t = js::text(s.root);
	Bytes b; if (over) b = *over; else if (s.glb) b = glb::pack(t, s.chunk.empty() ? nullptr : &s.chunk); else b.assign(t.begin(), t.end());
	sources::Strict src(b); fs::path d = s.given;
	return g.flip() ? p.loadGltf(src, d, s.opt) : s.glb ? p.loadGltfBinary(src, d, s.opt) : p.loadGltfJson(src, d, s.opt);
}
static std::string show(const Setup& s, const std::string& extra = "") { std::string o = extra + (s.glb ? "binary " : "JSON ") + (s.loadB ? "load-buffers " : "") + (s.loadI ? "load-images " : ""); return o + "\n" + js::text(s.root); }

PROPERTY(resolve, 14000, 700000) {
	auto s = setup(g, true); build(s, g);
	Host h; h.firstId = g.pick<uint64_t>({0, 1, 77, 0xffffffffffffff00ull}); bool map = g.flip(), unmap = map && g.chance(3, 4), dec = g.chance(1, 3);
	// a callback may decline to provide memory; a declined binary chunk may fail the load
	if (map && g.chance(1, 4)) h.nullEvery = 1 + static_cast<unsigned>(g.draw(2));
	fg::Parser p; user::pass(g, p, &h); if (map) p.setBufferAllocationCallback(Host::map, unmap ? Host::unmap : nullptr); if (dec) p.setBase64DecodeCallback(Host::decode);
	g.note(show(s, std::string(map ? "map " : "") + (unmap ? "unmap " : "") + (dec ? "decode " : "") + (h.nullEvery ? "declining " : ""))); g.key(hashStr(js::text(s.root), (map ? 1 : 0) + (dec ? 2 : 0) + (s.loadB ? 4 : 0) + (s.loadI ? 8 : 0)));
	auto a = run(s, g, p);
	bool declinedChunk = h.nullEvery == 1 && s.buffers[0].k == Item::Chunk;
	if (h.nullEvery && s.buffers[0].k == Item::Chunk && a.error() != fg::Error::None) { declinedChunk = h.nulls > 0; if (declinedChunk) { g.label("declined chunk"); return; } }
	require(a.error() == fg::Error::None, "load", [&] { return "loading failed: " + dp::err(a.error()); });
	require(h.bad.empty(), "callback", h.bad); user::check();
	size_t want = 0, wantDec = 0; std::vector<Bytes> expectMapped;
	auto check = [&](const Item& x, const fg::DataSource& d, const std::string& what, bool load, bool image) {
		std::string kind; const Host::Block* blk = nullptr; Bytes b = bytesOf(d, h, kind, &blk);
		if (x.k == Item::View) { require(kind == "view" && std::get<fg::sources::BufferView>(d).bufferViewIndex == 0, "view", what + " is no view but " + kind); }
		else if (x.k == Item::Remote || (x.k == Item::File && !load)) {
			require(kind == "uri", "uri kind", what + " is no URI but " + kind);
			auto& u = std::get<fg::sources::URI>(d); require(std::string(u.uri.string()) == x.file, "uri", [&] { return what + ": URI is \"" + std::string(u.uri.string()) + "\", refers to \"" + x.file + "\""; });
			require(u.fileByteOffset == 0, "offset", what + " has an offset"); g.label(x.k == Item::Remote ? "remote" : "kept URI");
		} else {
			++want; if (x.k == Item::Data) ++wantDec;
			std::string how = x.k == Item::Data ? "data URI" : x.k == Item::File ? "file" : "chunk"; g.label(how + (map ? " mapped" : ""));
			if (!map) require(kind == "bytes", "kind", what + " (" + how + ") is no byte array but " + kind);
			else require(kind == "custom" || (h.nulls && kind == "bytes"), "kind", what + " (" + how + ") is not in memory of the callback but " + kind);
			require(b == x.data, "bytes", [&] { return what + " (" + how + ") holds " + hex(b.data(), b.size()) + " (" + std::to_string(b.size()) + " bytes), refers to " + hex(x.data.data(), x.data.size()) + " (" + std::to_string(x.data.size()) + " bytes)"; });
			if (blk) { if (unmap) { require(blk->unmaps == 1, "unmap count", [&] { return what + " (" + how + "): unmap called " + std::to_string(blk->unmaps) + " times"; }); require(blk->atUnmap == x.data, "unmap early", what + " (" + how + "): unmapped before the data was written"); } }
		}
		if (image && (x.mimeGiven || x.k == Item::Data)) { fg::MimeType m = fg::MimeType::None; std::visit([&](auto& v) { using T = std::decay_t<decltype(v)>; if constexpr (!std::is_same_v<T, std::monostate> && !std::is_same_v<T, fg::sources::Fallback>) m = v.mimeType; }, d); require(dp::mime(m) == x.mime, "mime", [&] { return what + ": media type " + dp::mime(m) + ", is " + x.mime; }); }
		if (!image && x.k == Item::Data) { fg::MimeType m = fg::MimeType::None; if (auto* v = std::get_if<fg::sources::Array>(&d)) m = v->mimeType; if (auto* v = std::get_if<fg::sources::CustomBuffer>(&d)) m = v->mimeType; require(dp::mime(m) == x.mime, "mime", [&] { return what + ": media type " + dp::mime(m) + ", is " + x.mime; }); }
	};
	require(a->buffers.size() == s.buffers.size() && a->images.size() == s.images.size(), "counts", "number of buffers or images");
	for (size_t i = 0; i < s.buffers.size(); ++i) { require(a->buffers[i].byteLength == s.buffers[i].declared, "byteLength", "byteLength"); check(s.buffers[i], a->buffers[i].data, "buffer " + std::to_string(i), s.loadB, false); }
	for (size_t i = 0; i < s.images.size(); ++i) check(s.images[i], a->images[i].data, "image " + std::to_string(i), s.loadI, true);
	if (map) require(h.calls == want + (s.glb && !s.chunk.empty() && s.buffers[0].k != Item::Chunk ? 1 : 0), "map calls", [&] { return "memory asked for " + std::to_string(h.calls) + " times for " + std::to_string(want) + " pieces of data"; });
	if (dec) require(h.decoded.size() == wantDec, "decode calls", [&] { return "decoding asked for " + std::to_string(h.decoded.size()) + " times for " + std::to_string(wantDec) + " data URIs"; });
	if (want + s.images.size() > 1) g.nontrivial();
}

// one reference whose data cannot be had
PROPERTY(broken, 14000, 500000) {
	auto s = setup(g, true);
	bool image = !s.images.empty() && g.flip(); auto& list = image ? s.images : s.buffers; auto& x = list[g.draw(list.size() - 1)]; bool load = image ? s.loadI : s.loadB;
	std::string how; int act = 0; Bytes over; bool unreadable = false;
	auto needLoad = [&] { if (!load) { (image ? s.loadI : s.loadB) = true; s.opt |= image ? fg::Options::LoadExternalImages : fg::Options::LoadExternalBuffers; } };
	if (!image && (&x != &s.buffers[0] || s.chunk.empty()) && x.k != Item::Chunk && g.chance(1, 5)) { how = s.chunk.empty() ? "buffer without data" : "buffer without data next to a chunk"; x.noUri = true; x.declared = std::min(x.declared, s.chunk.empty() ? x.declared : s.chunk.size()); }
	else switch (x.k) {
		case Item::Data: {
			std::string b = gg::b64(x.data);
			switch (g.draw(image ? 4 : 5)) {
				case 0: how = "incomplete base64"; b.resize(b.size() - 1 - g.draw(std::min<size_t>(2, b.size() - 1))); x.uri = "data:" + x.mime + ";base64," + b; break;
				case 1: how = "no encoding"; x.uri = "data:" + x.mime + "," + b; break;
				case 2: how = "other encoding"; x.uri = "data:" + x.mime + ";" + g.pick<std::string>({"base32", "utf8", "BASE65", "base6", "", "charset=utf-8", "base64x"}) + "," + b; break;
				case 3: how = "no data"; x.uri = g.pick<std::string>({"data:" + x.mime + ";base64", "data:;base64", "data:", "data:" + x.mime, "data:base64", "data:,;base64"}); break;
				case 4: how = "stray character"; b += g.pick<std::string>({"A", "AA", "AAA"}); x.uri = "data:" + x.mime + ";base64," + b; break;
				default: how = "data URI too short"; x.declared = x.data.size() + 1 + g.draw(5); break;
			}
			break;
		}
		case Item::File: needLoad(); act = 1 + static_cast<int>(g.draw(image ? 2 : 3)); how = act == 1 ? "file missing" : act == 2 ? "folder instead of file" : act == 3 ? "file unreadable" : "file too short"; if (act == 4) x.declared = x.data.size() + 1 + g.draw(9); break;
		case Item::Remote: case Item::View: throw Discard{};
		case Item::Chunk: {
			switch (g.draw(2)) { case 0: how = "chunk missing"; s.chunk.clear(); break; case 1: how = "chunk in a plain document"; s.glb = false; break; default: how = "chunk too short"; x.declared = x.data.size() + 1 + g.draw(9); break; }
			break;
		}
	}
	build(s, g);
	fs::path p; if (act) p = fs::path(s.dirHow) / fs::u8path(x.file);
	if (act == 1) fs::remove(p);
	if (act == 2) { fs::remove(p); fs::create_directory(p); }
	if (act == 3) { unreadable = true; fs::permissions(p, fs::perms::none); for (auto d = p.parent_path(); d.string().size() >= s.dir->path.string().size(); d = d.parent_path()) fs::permissions(d, fs::perms(0755)); auto par = s.dir->path.parent_path(); if (par != "/tmp" && par.string().rfind("/tmp/", 0) == 0) fs::permissions(par, fs::perms(0755)); }
	bool dup = false; if (act) { for (auto* l : {&s.buffers, &s.images}) for (auto& y : *l) if (&y != &x && y.file == x.file) dup = true; } (void)dup;
	Host h; fg::Parser parser; user::pass(g, parser, &h); bool map = g.chance(1, 3); if (map) parser.setBufferAllocationCallback(Host::map, Host::unmap);
	g.note(show(s, how + "\n")); g.key(hashStr(js::text(s.root) + how)); g.nontrivial(); g.label(how);
	bool drop = unreadable && geteuid() == 0; if (drop && seteuid(65534) != 0) throw Discard{};
	auto a = run(s, g, parser);
	if (drop) (void)!seteuid(0);
	require(a.error() != fg::Error::None, "accepted", [&] { return how + ": loading succeeded"; });
}

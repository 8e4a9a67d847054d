// C08: every data source and container form loads the same content.
#include <lib/dump.hpp>
#include <lib/gen_gltf.hpp>
#include <lib/glb.hpp>
#include <lib/guard.hpp>
#include <lib/sources.hpp>
using namespace pbt;
namespace fg = fastgltf; namespace fs = std::filesystem;
using js::Json; using files::Bytes;

static std::unique_ptr<fg::GltfDataGetter> moved(std::unique_ptr<fg::GltfDataGetter> s, Gen& g) { // the same source, moved a few times
	for (size_t n = g.draw(2); n > 0; --n) {
		if (auto* b = dynamic_cast<fg::GltfDataBuffer*>(s.get())) {
			auto t = std::make_unique<fg::GltfDataBuffer>(std::move(*b));
			if (g.flip()) { fg::GltfDataBuffer o = std::move(fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>("other"), 5).get()); o = std::move(*t); *t = std::move(o); }
			s = std::move(t);
		} else if (auto* m = dynamic_cast<fg::MappedGltfFile*>(s.get())) {
			auto t = std::make_unique<fg::MappedGltfFile>(std::move(*m));
			if (g.flip()) { auto o = fg::MappedGltfFile::FromPath("/proc/self/exe"); if (o.error() == fg::Error::None) { o.get() = std::move(*t); *t = std::move(o.get()); } }
			s = std::move(t);
		}
	}
	return s;
}

PROPERTY(forms, 5000, 400000) {
	gg::Opts o; o.wild = g.chance(1, 6); o.maxNodes = 3; o.maxObjects = 2; if (g.flip()) o.exts = gg::allExts();
	bool chunk = g.chance(1, 3); o.glb = chunk;
	auto d = gg::document(g, o); chunk = d.hasChunk;
	std::string text = g.chance(1, 3) ? js::textWith(d.root, g) : js::text(d.root);
	// sizes around the page size matter to a memory map
	if (g.chance(1, 3)) {
		size_t page = 4096 * (1 + (text.size() + 200) / 4096), want = g.flip() ? page - 70 + g.draw(140) : page - g.pick<size_t>({0, 0, 1, 8, 20, 20, 28, 44});
		if (want > text.size()) { size_t lead = g.chance(1, 4) ? 0 : g.chance(1, 3) ? g.draw(want - text.size()) : want - text.size(); text = std::string(lead, ' ') + text + std::string(want - text.size() - lead, g.pick({' ', '\n', '\t', '\r'})); g.label("page size"); }
	}
	gs::Exts enabled(gg::allExts()); enabled.insert("KHR_accessor_float64"); enabled.insert("GODOT_single_root");
	g.note(text); g.key(hashStr(text)); g.nontrivial(); if (text.size() > 2 && text[text.size() - 1] == '}' && text.substr(text.size() > 24 ? text.size() - 24 : 0).find('"') != text.npos) g.label("string near the end");
	struct Form { std::string what; Bytes bytes; bool glb; };
	std::vector<Form> forms;
	if (!chunk) forms.push_back({"JSON", Bytes(text.begin(), text.end()), false});
	forms.push_back({"GLB", glb::pack(text, chunk ? &d.chunk : nullptr), true});
	size_t pad = 1 + g.draw(20); forms.push_back({"GLB with padding", glb::pack(text, chunk ? &d.chunk : nullptr, pad), true});
	if (!chunk) { Bytes empty; forms.push_back({"GLB with empty chunk", glb::pack(text, &empty), true}); Bytes some = gg::randBytes(g, 1 + g.draw(9)); forms.push_back({"GLB with unused chunk", glb::pack(text, &some), true}); }
	auto want = gs::normRoot(d.root, enabled); gg::addData(want, d, false, false);
	if (!chunk && !d.buffers.empty()) { }
	fg::Parser parser(dp::extBits(enabled));
	files::Dir dir; size_t fi = 0;
	for (auto& f : forms) {
		auto file = dir.put("f" + std::to_string(fi++), f.bytes);
		int only = g.chance(1, 2) ? static_cast<int>(g.draw(sources::Kinds - 1)) : -1;
		for (int k = 0; k < sources::Kinds; ++k) {
			if (only >= 0 && k != only) continue;
			guard::Sizes guarded(text.size(), f.bytes.size() + 256); // the parser must not read beyond what the source provides
			guard::Mappings guardedMaps; fg::Error e = fg::Error::None; auto s = sources::make(k, f.bytes, file, &e);
			std::string how = f.what + " from " + sources::name(k); g.label(how);
			if (!s) fail("refused", how + ": the source was refused: " + dp::err(e));
			s = moved(std::move(s), g);
			require(s->totalSize() == f.bytes.size(), "size", [&] { return how + ": totalSize is " + std::to_string(s->totalSize()) + " for " + std::to_string(f.bytes.size()) + " bytes"; });
			if (g.chance(1, 3)) { auto t = fg::determineGltfFileType(*s); require(t == (f.glb ? fg::GltfType::GLB : fg::GltfType::glTF), "type", [&] { return how + ": detected as " + std::to_string(int(t)); }); }
			bool detect = g.flip();
			auto a = detect ? parser.loadGltf(*s, "", fg::Options::None) : f.glb ? parser.loadGltfBinary(*s, "", fg::Options::None) : parser.loadGltfJson(*s, "", fg::Options::None);
			require(a.error() == fg::Error::None, "load", [&] { return how + (detect ? " (detected)" : "") + ": loading failed: " + dp::err(a.error()); });
			s.reset(); guard::hi = 0; guard::maps = false;
			auto got = dp::dump(a.get()); dp::openMimes(got, want); dp::same(got, want, "content");
		}
	}
}

// reading through a source delivers the bytes it was made from
PROPERTY(reads, 12000, 600000) {
	size_t n = g.chance(1, 3) ? 4096 * (1 + g.draw(1)) - 70 + g.draw(140) : 1 + g.size(300);
	Bytes b = gg::randBytes(g, n); files::Dir dir; fs::path file;
	int k = static_cast<int>(g.draw(3)); if (k != sources::Memory) file = dir.put(g.pick<std::string>({"f", "f.glb", "\xc3\xa9 x", "a%20b"}), b);
	auto s = sources::make(k, b, file); if (!s) fail("refused", std::string("the source was refused: ") + sources::name(k));
	g.label(sources::name(k)); size_t pos = 0; std::string note = sources::name(k); note += " of " + std::to_string(n) + " bytes\n"; size_t ops = 0;
	if (k == sources::FileBuffer && g.flip()) { fs::remove(file); }
	for (size_t steps = 1 + g.size(8); steps > 0; --steps) {
		s = moved(std::move(s), g);
		switch (g.draw(4)) {
			case 0: { size_t c = g.chance(1, 3) ? n - pos : g.draw(n - pos); Bytes out(c + 1, 0xEE); note += "read " + std::to_string(c) + "\n"; g.note(note); s->read(out.data(), c); ++ops; require(out[c] == 0xEE, "overrun", "read wrote more than asked for"); out.resize(c); require(out == Bytes(b.begin() + long(pos), b.begin() + long(pos + c)), "bytes", "read returned other bytes"); pos += c; break; }
			case 1: case 2: { // with padding: the padding may be anything, but must be there
				size_t c = g.chance(1, 3) ? n - pos : g.draw(n - pos); size_t pad = 64; note += "read " + std::to_string(c) + " padded\n"; g.note(note); auto sp = s->read(c, pad); ++ops;
				require(sp.size() >= c, "span", "span shorter than asked for"); Bytes out(c); if (c) memcpy(out.data(), sp.data(), c); require(out == Bytes(b.begin() + long(pos), b.begin() + long(pos + c)), "bytes", "read returned other bytes");
				volatile unsigned char sink = 0; for (size_t i = 0; i < pad; ++i) sink = sink + static_cast<unsigned char>(sp.data()[c + i]); pos += c; break; }
			case 3: note += "reset\n"; s->reset(); pos = 0; break;
			default: note += "bytesRead\n"; g.note(note); require(s->bytesRead() == pos, "position", [&] { return "bytesRead is " + std::to_string(s->bytesRead()) + " after " + std::to_string(pos); }); break;
		}
		require(s->totalSize() == n, "size", [&] { return "totalSize is " + std::to_string(s->totalSize()) + " for " + std::to_string(n) + " bytes"; });
	}
	g.note(note); g.key(hashStr(note, n)); if (ops > 1) g.nontrivial();
}

// what cannot be read is refused, and reading does not continue with something else
PROPERTY(refused, 2000, 40000) {
	files::Dir dir; std::string what; fs::path p;
	dir.put("file", Bytes(10, 'x')); fs::create_directories(dir.path / "folder");
	switch (g.draw(6)) {
		case 0: what = "missing"; p = dir.path / gg::str(g, 6, false); if (fs::exists(p)) throw Discard{}; break;
		case 1: what = "folder"; p = dir.path / "folder"; break;
		case 2: what = "below a file"; p = dir.path / "file" / "x"; break;
		case 3: what = "empty path"; break;
		case 4: what = "broken link"; fs::create_symlink("nowhere", dir.path / "link"); p = dir.path / "link"; break;
		case 5: what = "long name"; p = dir.path / std::string(300 + g.draw(5000), 'n'); break;
		default: what = "in a missing folder"; p = dir.path / "none" / "file"; break;
	}
	int k = 1 + static_cast<int>(g.draw(2)); g.label(what); g.nontrivial(); g.note(what + " as " + sources::name(k)); g.key(hashStr(p.string(), size_t(k)));
	if (k == sources::Stream) { // has no error of its own beyond isOpen
		fg::GltfFileStream s(p); if (s.isOpen() && what != "folder") fail("stream", what + ": the stream claims to be open");
		require(s.totalSize() == 0, "stream size", what + ": the stream claims to have content");
		fg::Parser parser; auto a = parser.loadGltf(s, "", fg::Options::None); require(a.error() != fg::Error::None, "stream load", what + ": loading succeeded"); return;
	}
	fg::Error e = fg::Error::None; auto s = sources::make(k, {}, p, &e);
	require(!s && e != fg::Error::None, "accepted", [&] { return what + " as " + sources::name(k) + ": no error"; });
}

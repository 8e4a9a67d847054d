// C16: a file exporter writes a complete folder that loads again, nothing else, and reports failures.
#include <lib/export.hpp>
#include <lib/files.hpp>
#include <unistd.h>
using namespace pbt;
namespace fg = fastgltf; namespace fs = std::filesystem;
using js::Json; using gg::Bytes;

struct Tree { std::map<std::string, Bytes> files; };
static Tree tree(const fs::path& p) { Tree t; for (auto& f : files::list(p)) t.files[f] = fs::is_symlink(p / fs::u8path(f)) ? Bytes{'l'} : files::read(p / fs::u8path(f)); return t; }
// a name that, taken for a path, never leads out of the scratch directory (the target is at least three folders deep in it)
static std::string name(Gen& g, const fs::path& scratch) {
	switch (g.draw(11)) {
		case 0: case 1: case 2: return g.pick<std::string>({"a", "b", "a", "buffer0", "buffer1", "image0", "image1", "scene", "out"});
		case 3: return g.pick<std::string>({"a.bin", "a.bin.bin", ".", "..", "...", ".hidden", "con", "buffer0_0", "buffer1_0", "image0_0", "a ", " a"});
		case 4: return g.pick<std::string>({"a/b", "../x", "../../x", "./a", "d/../a", "a/", "../a", "d/x/../../a", "..\\x"});
		case 5: return (scratch / g.pick<std::string>({"abs", "outside/abs", "x"})).string();
		case 6: return g.pick<std::string>({"a%20b", "a b", "%41", "A", "a#b", "a?b=c", "a:b", "data:x", "100%", "a+b", "a&b", "\xc3\xa4", "\xe2\x9d\xa4", "\xf0\x9f\x98\x80", "a\\b", "a\"b", "a\nb", "<a>", "http://a/b", "file:a", "~a", "a|b", "a*"});
		case 7: return std::string(g.pick<size_t>({100, 150, 196, 199, 200, 201, 230, 250, 251, 252, 255, 256, 300, 5000}), g.pick({'n', 'm'}));
		case 8: return "";
		default: { auto s = gg::str(g, 8); size_t i; while (!s.empty() && s[0] == '/') s.erase(0, 1); while ((i = s.find("..")) != std::string::npos) s.erase(i, 1); return s; }
	}
}
static const std::vector<std::string> targets{"scene.gltf", "out.glb", "a.bin", "buffer0.bin", "image0.png", "x y.gltf", "\xc3\xa4%20.gltf", "noext"};

struct Fake { std::vector<std::optional<fs::path>> bufferPaths, imagePaths; };

PROPERTY(folder, 5000, 300000) {
	gg::Opts o; o.wild = g.chance(1, 6); o.maxNodes = 2; o.maxObjects = 3; o.external = g.chance(1, 3); o.meshoptRequired = g.chance(1, 5); if (g.chance(1, 4)) o.exts = gg::allExts();
	ex::Case c; ex::make(c, g, o); auto& a = c.asset; files::Dir d; std::string note = js::text(c.doc.root);
	// more objects with bytes
	auto bytesSource = [&](fg::MimeType m) { auto b = gg::randBytes(g, 1 + g.size(30)); fg::sources::Vector v; v.bytes.resize(b.size()); memcpy(v.bytes.data(), b.data(), b.size()); v.mimeType = m; fg::DataSource s = std::move(v); ex::otherSource(s, c, g); return s; };
	for (size_t n = g.draw(3); n; --n) { fg::Buffer b; b.data = bytesSource(fg::MimeType::GltfBuffer); size_t l; dp::dataPtr(b.data, l); b.byteLength = l; a.buffers.emplace_back(std::move(b)); }
	for (size_t n = g.draw(3); n; --n) { fg::Image b; b.data = bytesSource(g.pick({fg::MimeType::PNG, fg::MimeType::JPEG, fg::MimeType::KTX2, fg::MimeType::DDS, fg::MimeType::WEBP, fg::MimeType::None, fg::MimeType::OctetStream})); a.images.emplace_back(std::move(b)); }
	for (auto& b : a.buffers) { auto s = name(g, d.path); b.name.assign(s.data(), s.size()); note += "\nbuffer " + s; }
	for (auto& b : a.images) { auto s = name(g, d.path); b.name.assign(s.data(), s.size()); note += "\nimage " + s; }
	// the folder
	fs::path base = d.path / "w" / "x" / "y"; bool fresh = g.chance(1, 3); if (fresh) base = base / g.pick<std::string>({"new", "new/er", "n e/\xc3\xa4"}); 
	fs::create_directories(d.path / "w" / "x" / "y"); d.put("outside/canary", Bytes{1, 2, 3}); d.put("w/x/canary", Bytes{4}); d.put("x.bin", Bytes{5}); d.put("w/x/x.bin", Bytes{6});
	std::string file = g.pick(targets); bool glb = g.flip(); note += "\ntarget " + (base / fs::u8path(file)).lexically_relative(d.path).generic_u8string() + (glb ? " binary" : " JSON");
	fg::FileExporter e; fg::Exporter plain;
	if (g.chance(1, 2)) { auto f = fs::path(g.pick<std::string>({"data", "data/b", "a", "b b", "./c", "\xc3\xa4"})); e.setBufferPath(f); plain.setBufferPath(f); note += "\nbuffer path " + f.string(); g.label("buffer path"); }
	if (g.chance(1, 2)) { auto f = fs::path(g.pick<std::string>({"data", "img", "a", "b b"})); e.setImagePath(f); plain.setImagePath(f); note += "\nimage path " + f.string(); g.label("image path"); }
	if (g.chance(1, 8)) { e.setBufferPath(d.path / "outside"); plain.setBufferPath(d.path / "outside"); e.setImagePath(d.path / "outside"); plain.setImagePath(d.path / "outside"); g.label("absolute path"); } // ignored
	// the files that URIs of the asset refer to
	std::map<std::string, Bytes> external = c.doc.files;
	if (fresh && !external.empty()) { fs::create_directories(base); fresh = false; }
	for (auto& [k, v] : external) { auto p = base / fs::u8path(k); fs::create_directories(p.parent_path()); std::ofstream f(p, std::ios::binary); f.write(reinterpret_cast<const char*>(v.data()), long(v.size())); }
	if (!fresh && g.chance(1, 3)) { g.label("old files"); for (auto* f : {"buffer0.bin", "image0.png", "scene.gltf", "out.glb", "a.bin"}) if (!external.count(f)) { std::ofstream s(base / f, std::ios::binary); s << std::string(20000, 'o'); } } // longer ones of an older export
	g.note(note); g.key(hashStr(note)); if (a.buffers.size() + a.images.size() > 1) g.nontrivial();
	auto opt = g.chance(1, 3) ? fg::ExportOptions::PrettyPrintJson : fg::ExportOptions::None;
	bool collides = false;
	{ auto see = [&](auto r) { require(r.error() == fg::Error::None, "plain export", [&] { return "exporting failed: " + dp::err(r.error()); }); for (auto* l : {&r.get().bufferPaths, &r.get().imagePaths}) for (auto& p : *l) if (p.has_value()) { collides |= p->lexically_normal() == fs::u8path(file).lexically_normal(); require(!p->is_absolute(), "absolute path", "the exporter gives the absolute path " + p->string()); } };
	  if (glb) see(plain.writeGltfBinary(a)); else see(plain.writeGltfJson(a)); }
	auto before = tree(d.path); auto dumped = dp::dump(a);
	for (int round = 0; round < (g.chance(1, 4) ? 2 : 1); ++round) { // the second time over the files of the first
		// a target relative to the current folder
		fs::path target = base / fs::u8path(file); auto cwd = fs::current_path(); bool rel = g.chance(1, 3);
		if (rel) { size_t up = fresh ? 0 : g.draw(1); if (up || fresh) { auto from = d.path / "w"; fs::current_path(from); target = target.lexically_relative(from); } else { fs::current_path(base); target = fs::u8path(file); g.label("current folder"); } g.label("relative target"); }
		auto r = glb ? e.writeGltfBinary(a, target, opt) : e.writeGltfJson(a, target, opt);
		fs::current_path(cwd);
		if (collides) { g.label("target collision"); if (r != fg::Error::None) { auto after = tree(d.path); for (auto& [f, b] : before.files) if (f.rfind(base.lexically_relative(d.path).generic_u8string() + "/", 0) != 0 && after.files[f] != b) fail("outside", "the file " + f + " outside the folder was changed"); return; } }
		require(r == fg::Error::None, "write", [&] { return "writing failed: " + dp::err(r); });
	}
	dp::same(dp::dump(a), dumped, "asset changed");
	auto after = tree(d.path); std::string pre = base.lexically_relative(d.path).generic_u8string() + "/";
	// the document
	require(after.files.count(pre + file), "no document", "the target was not written");
	auto raw = after.files[pre + file]; std::string text(raw.begin(), raw.end());
	if (glb) { require(raw.size() >= 20, "container", "short container"); uint32_t n, m; memcpy(&m, raw.data() + 8, 4); memcpy(&n, raw.data() + 12, 4); require(m == raw.size() && n <= raw.size() - 20, "container", "wrong lengths"); text = text.substr(20, n); while (!text.empty() && text.back() == ' ') text.pop_back(); }
	Json j; std::string er; require(js::parse(text, j, er), "JSON", [&] { return er + ": " + text; });
	Fake paths; std::map<std::string, std::string> written; // file -> object
	auto take = [&](const char* k, auto& objects, auto& out) {
		for (size_t i = 0; i < objects.size(); ++i) {
			out.emplace_back(); size_t n = 0; auto* p = dp::dataPtr(objects[i].data, n); if (!p && !std::holds_alternative<fg::sources::Array>(objects[i].data) && !std::holds_alternative<fg::sources::Vector>(objects[i].data) && !std::holds_alternative<fg::sources::ByteView>(objects[i].data)) continue;
			if (glb && k[0] == 'b' && i == 0) continue;
			std::string who = std::string(k) + " " + std::to_string(i); auto* u = j.at(k).a[i].find("uri"); require(u && u->t == Json::Str, "no uri", [&] { return who + " has no uri"; });
			auto rel = fs::u8path(ex::pctDecode(u->s)); auto norm = rel.lexically_normal(); auto f = norm.generic_u8string(); require(!rel.is_absolute() && *norm.begin() != ".." && f.find("://") == std::string::npos, "uri", [&] { return who + " has the uri " + u->s; });

			out.back() = rel; require(!written.count(f), "shared file", [&] { return who + " and " + written[f] + " share the file " + f; }); require(!external.count(f), "overwritten", [&] { return who + " overwrites the file " + f + ", which another object refers to"; }); written[f] = who;
			auto it = after.files.find(pre + f); require(it != after.files.end(), "missing file", [&] { return who + ": no file " + f + " was written"; });
			require(it->second.size() == n && (n == 0 || !memcmp(it->second.data(), p, n)), "file bytes", [&] { return who + ": the file " + f + " has other bytes (" + std::to_string(it->second.size()) + " instead of " + std::to_string(n) + ")"; });
			g.label(std::string("file of ") + k);
		}
	};
	take("buffers", a.buffers, paths.bufferPaths); take("images", a.images, paths.imagePaths);
	dp::same(ex::content(text, c.names), ex::expected(a, paths, glb), "document");
	// nothing else
	for (auto& [f, b] : after.files) { bool in = f.rfind(pre, 0) == 0; std::string r = in ? f.substr(pre.size()) : ""; if (in && (r == file || written.count(r))) continue; auto it = before.files.find(f); require(it != before.files.end(), "extra file", [&] { return "the file " + f + " was written"; }); require(it->second == b, "changed file", [&] { return "the file " + f + " was changed"; }); }
	for (auto& [f, b] : before.files) require(after.files.count(f), "removed file", [&] { return "the file " + f + " was removed"; });
	// and it loads
	auto src = fg::GltfDataBuffer::FromPath(base / fs::u8path(file)); require(src.error() == fg::Error::None, "open", "cannot open the target");
	fg::Parser parser(c.exts); auto l = parser.loadGltf(src.get(), base, fg::Options::LoadExternalBuffers | fg::Options::LoadExternalImages);
	require(l.error() == fg::Error::None, "reload", [&] { return "loading failed: " + dp::err(l.error()); });
	auto got = dp::dump(l.get()), want = dumped; for (auto& m : want["materials"].a) if (m.at("alphaMode").s != "MASK") m["alphaCutoff"] = 0.5;
	for (auto* k : {"buffers", "images"}) for (size_t i = 0; i < want[k].a.size(); ++i) {
		auto& w = want[k].a[i]["data"]; auto& x = got[k].a.at(i)["data"]; w.erase("mime"); x.erase("mime");
		if (auto* u = w.find("uri")) if (auto it = external.find(u->s); it != external.end()) { size_t n = it->second.size(); if (k[0] == 'b') n = std::min(n, a.buffers[i].byteLength); auto s = Json::obj(); s["bytes"] = gg::hexs(Bytes(it->second.begin(), it->second.begin() + long(n))); w = s; if (auto* y = x.find("bytes")) if (k[0] == 'b' && y->s.size() > 2 * n) x["bytes"] = y->s.substr(0, 2 * n); }
		if (k[0] == 'b' && i == 0 && glb && w.find("bytes")) { auto s = w.at("bytes").s; if (auto* y = x.find("bytes")) if (y->s.size() > s.size() && y->s.size() <= s.size() + 6) x["bytes"] = y->s.substr(0, s.size()); }
	}
	dp::same(got, want, "reloaded");
}

// what cannot be written is reported
PROPERTY(faults, 3000, 150000) {
	ex::Case c; auto& a = c.asset; files::Dir d; a.assetInfo = fg::AssetInfo{}; a.assetInfo->gltfVersion = "2.0"; g.nontrivial();
	size_t nb = g.draw(3), ni = g.draw(3); bool glb = g.flip();
	auto some = [&] { auto b = gg::randBytes(g, 1 + (g.chance(1, 4) ? g.draw(20000) : g.draw(20))); fg::sources::Vector v; v.bytes.resize(b.size()); memcpy(v.bytes.data(), b.data(), b.size()); v.mimeType = fg::MimeType::PNG; fg::DataSource s = std::move(v); ex::otherSource(s, c, g); return s; };
	for (size_t i = 0; i < nb; ++i) { fg::Buffer b; b.data = some(); size_t n; dp::dataPtr(b.data, n); b.byteLength = n; a.buffers.emplace_back(std::move(b)); }
	for (size_t i = 0; i < ni; ++i) { fg::Image b; b.data = some(); a.images.emplace_back(std::move(b)); }
	fg::FileExporter e; bool folders = g.flip(); if (folders) { e.setBufferPath("bufs"); e.setImagePath("imgs"); }
	fs::path base = d.path / "t"; fs::create_directories(base); fs::path target = base / (glb ? "s.glb" : "s.gltf");
	std::vector<std::string> outs; for (size_t i = glb ? 1 : 0; i < nb; ++i) outs.push_back(std::string(folders ? "bufs/" : "") + "buffer" + std::to_string(i) + ".bin"); for (size_t i = 0; i < ni; ++i) outs.push_back(std::string(folders ? "imgs/" : "") + "image" + std::to_string(i) + ".png");
	std::string what; auto victim = [&]() -> fs::path { if (outs.empty()) throw Discard{}; auto f = g.pick(outs); what += " " + f; return base / f; };
	fs::path v; bool fails = true;
	switch (g.draw(8)) {
		case 0: what = "nothing"; fails = false; break;
		case 1: what = "folder at the target"; fs::create_directories(target); break;
		case 2: what = "full disk at the target"; fs::create_symlink("/dev/full", target); break;
		case 3: what = "file as parent folder"; fs::remove_all(base); d.put("t", Bytes{1}); break;
		case 4: what = "file above the parent folder"; d.put("f", Bytes{1}); target = d.path / "f" / "g" / "s.gltf"; break;
		case 5: what = "target name too long"; target = base / std::string(400, 's'); break;
		case 6: what = "folder in place of"; v = victim(); fs::create_directories(v); break;
		case 7: what = "full disk for"; v = victim(); fs::create_directories(v.parent_path()); fs::create_symlink("/dev/full", v); break;
		default: if (!folders) throw Discard{}; what = "file as folder of"; v = victim(); { std::ofstream f(v.parent_path()); f << "x"; } break;
	}
	g.label(what.substr(0, what.find(" of "))); g.label(what.find(" bufs/") != std::string::npos || what.find(" buffer") != std::string::npos ? "buffer fault" : what.find("image") != std::string::npos ? "image fault" : "other fault");
	g.note(what + (glb ? " (binary, " : " (JSON, ") + std::to_string(nb) + " buffers, " + std::to_string(ni) + " images)"); g.key(hashStr(what, nb * 100 + ni * 10 + glb));
	auto r = glb ? e.writeGltfBinary(a, target) : e.writeGltfJson(a, target);
	require((r != fg::Error::None) == fails, fails ? "unreported" : "failed", [&] { return what + ": the result is " + dp::err(r); });
	// the same exporter works elsewhere
	fs::path next = d.path / "again" / (glb ? "s.glb" : "s.gltf"); r = glb ? e.writeGltfBinary(a, next) : e.writeGltfJson(a, next); require(r == fg::Error::None, "again", [&] { return what + ": the next export fails: " + dp::err(r); });
	for (auto& f : outs) require(fs::exists(next.parent_path() / f), "again missing", [&] { return "no file " + f; });
	if (g.chance(1, 4)) { // an asset that cannot be written
		fg::Buffer b; b.byteLength = 3; b.data = fg::sources::CustomBuffer{1, fg::MimeType::None}; a.buffers.emplace_back(std::move(b)); fs::path bad = d.path / "bad" / "s.gltf";
		r = glb ? e.writeGltfBinary(a, bad) : e.writeGltfJson(a, bad); require(r != fg::Error::None, "unwritable asset", "an asset with a custom buffer was written"); require(!fs::exists(bad), "partial", "a document was written for an asset that cannot be exported"); g.label("unwritable asset");
	}
}

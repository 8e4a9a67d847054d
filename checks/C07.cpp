// C07: a load depends only on its own inputs, and assets are self-contained.
#include <lib/defect.hpp>
#include <lib/dump.hpp>
#include <lib/gen_gltf.hpp>
#include <lib/glb.hpp>
#include <lib/observe.hpp>
#include <lib/sources.hpp>
#include <simdjson.h>
#include <optional>
#include <thread>
using namespace pbt;
namespace fg = fastgltf; namespace fs = std::filesystem;
using js::Json; using files::Bytes;

struct Input {
	Bytes bytes; fg::Options opt = fg::Options::None; fg::Category mask = fg::Category::All; bool glb = false, detect = false; std::string what;
	std::map<std::string, Bytes> files; bool loads = false;
};
static Input input(Gen& g, bool wantFiles) {
	gg::Opts o; o.wild = g.chance(1, 6); o.maxNodes = 2; o.maxObjects = 2; o.extras = g.chance(1, 3); o.external = wantFiles;
	if (g.flip()) o.exts = gg::allExts();
	Input in; in.glb = g.chance(2, 5); o.glb = in.glb; in.detect = g.chance(1, 3);
	auto d = gg::document(g, o); Json root = d.root; in.files = d.files;
	if (g.chance(1, 5)) { try { gg::plantDefect(root, g); in.what = "defect "; } catch (Discard&) {} }
	std::string text = js::text(root);
	if (g.chance(1, 12)) { text.resize(g.draw(text.size())); in.what = "cut "; }
	if (in.glb) { in.bytes = glb::pack(text, d.hasChunk && !g.chance(1, 5) ? &d.chunk : nullptr); if (g.chance(1, 12)) { in.bytes.resize(g.draw(in.bytes.size())); in.what += "cut glb "; } }
	else in.bytes.assign(text.begin(), text.end());
	if (g.chance(1, 3)) in.mask = static_cast<fg::Category>(g.draw(0xffffffffull));
	if (wantFiles && g.chance(2, 3)) in.opt |= fg::Options::LoadExternalBuffers;
	if (wantFiles && g.flip()) in.opt |= fg::Options::LoadExternalImages;
	if (g.chance(1, 4)) in.opt |= fg::Options::DecomposeNodeMatrices;
	if (g.chance(1, 6)) in.opt |= fg::Options::DontRequireValidAssetMember;
	if (g.chance(1, 6)) in.opt |= fg::Options::AllowDouble;
	in.loads = fg::hasBit(in.opt, fg::Options::LoadExternalBuffers) || fg::hasBit(in.opt, fg::Options::LoadExternalImages);
	in.what += (in.glb ? "glb " : "json ") + text;
	return in;
}

// what the callbacks of a parser work on
struct Ctx { std::vector<Bytes> maps; std::string log; };
static fg::BufferInfo mapCb(std::uint64_t n, void* u) { auto& c = *static_cast<Ctx*>(u); c.maps.emplace_back(n + 1); fg::BufferInfo i; i.mappedMemory = c.maps.back().data(); i.customId = c.maps.size() - 1; return i; }
static void unmapCb(fg::BufferInfo* i, void* u) { auto& c = *static_cast<Ctx*>(u); c.log += "unmap " + std::to_string(i->customId) + ";"; }
static void decodeCb(std::string_view b, std::uint8_t* out, std::size_t, std::size_t n, void* u) { static_cast<Ctx*>(u)->log += "decode " + std::to_string(b.size()) + ";"; for (size_t i = 0; i < n; ++i) out[i] = static_cast<uint8_t>(b[i] ^ 0x55); }
static void extrasCb(simdjson::dom::object* o, std::size_t i, fg::Category c, void* u) { static_cast<Ctx*>(u)->log += "extras " + std::to_string(i) + "/" + std::to_string(unsigned(c)) + "=" + simdjson::to_string(*o) + ";"; }

struct Config { gs::Exts exts; bool map = false, unmap = false, decode = false, extras = false; };
static Config config(Gen& g) {
	Config c; auto all = gg::allExts(); unsigned p = static_cast<unsigned>(g.draw(3));
	for (auto& e : all) if (p == 3 || (p && g.flip())) c.exts.insert(e);
	c.map = g.chance(1, 4); c.unmap = c.map && g.flip(); c.decode = g.chance(1, 4); c.extras = g.chance(1, 3); return c;
}
static void apply(fg::Parser& p, const Config& c, Ctx* ctx) {
	p.setUserPointer(ctx); p.setBufferAllocationCallback(c.map ? mapCb : nullptr, c.unmap ? unmapCb : nullptr);
	p.setBase64DecodeCallback(c.decode ? decodeCb : nullptr); p.setExtrasParseCallback(c.extras ? extrasCb : nullptr);
}
struct Result { fg::Error err = fg::Error::None; Json asset; std::string log; std::vector<Bytes> maps; };

static fg::Expected<fg::Asset> load(fg::Parser& p, const Input& in, fg::GltfDataGetter& src, const fs::path& dir) {
	if (in.detect) return p.loadGltf(src, dir, in.opt, in.mask);
	return in.glb ? p.loadGltfBinary(src, dir, in.opt, in.mask) : p.loadGltfJson(src, dir, in.opt, in.mask);
}
static Json snap(const fg::Asset& a) { auto j = dp::dump(a); j["available"] = Json(static_cast<uint64_t>(a.availableCategories)); return j; }
// the result of a load with everything fresh
static Result reference(const Input& in, const Config& c, const fs::path& dir) {
	Result r; Ctx ctx; fg::Parser p(dp::extBits(c.exts)); apply(p, c, &ctx);
	sources::Strict src(in.bytes); auto a = load(p, in, src, dir);
	r.err = a.error(); if (r.err == fg::Error::None) { r.asset = snap(a.get()); r.maps = ctx.maps; } r.log = ctx.log; return r;
}
static void compare(const Result& want, fg::Error err, const fg::Asset* a, const Ctx& ctx, const std::string& how) {
	require(err == want.err, "result", [&] { return how + " gave " + dp::err(err) + ", with everything fresh it gives " + dp::err(want.err); });
	if (a) { auto got = snap(*a); dp::same(got, want.asset, "content"); require(ctx.maps == want.maps, "mapped", [&] { return how + ": mapped memory differs"; }); }
	require(ctx.log == want.log, "callbacks", [&] { return how + ": the callbacks saw [" + ctx.log + "], with everything fresh [" + want.log + "]"; });
}

PROPERTY(history, 5000, 600000) {
	bool wantFiles = g.chance(1, 3);
	std::vector<Input> in; std::vector<std::unique_ptr<files::Dir>> dirs; std::vector<Bytes> raw;
	size_t n = 2 + g.draw(2); std::string note;
	std::unique_ptr<files::Dir> store;
	for (size_t i = 0; i < n; ++i) {
		in.push_back(input(g, wantFiles)); note += "input " + std::to_string(i) + ": " + in.back().what + "\n";
		dirs.push_back(nullptr);
		if (in.back().loads) { dirs.back() = std::make_unique<files::Dir>(); for (auto& f : in.back().files) if (!g.chance(1, 8)) dirs.back()->put(f.first, f.second); }
	}
	auto dirOf = [&](size_t i) { return dirs[i] ? dirs[i]->path : fs::path(); };
	auto fileOf = [&](size_t i) { if (!store) store = std::make_unique<files::Dir>(); auto p = store->path / std::to_string(i); if (!fs::exists(p)) store->put(std::to_string(i), in[i].bytes); return p; };
	struct P { std::optional<fg::Parser> p; Config c; std::unique_ptr<Ctx> ctx; };
	std::vector<P> ps(2 + g.draw(1));
	size_t ci = 0; std::vector<Config> cfgs; for (size_t i = 0; i < 2; ++i) cfgs.push_back(config(g));
	for (auto& p : ps) { p.c = cfgs[ci++ % 2]; p.ctx = std::make_unique<Ctx>(); p.p.emplace(dp::extBits(p.c.exts)); apply(*p.p, p.c, p.ctx.get()); }
	struct Slot { std::optional<fg::Asset> a; Json snap; };
	std::vector<Slot> slots(3);
	struct Src { std::unique_ptr<fg::GltfDataGetter> s; size_t in = 0; int kind = 0; };
	std::vector<Src> srcs(2);
	size_t steps = 2 + g.draw(g.thorough ? 14 : 7), loads = 0, fails = 0, moves = 0;
	for (size_t s = 0; s < steps; ++s) {
		switch (g.draw(6)) {
			case 0: case 1: case 2: case 3: {
				size_t pi = g.draw(ps.size() - 1), si = g.draw(srcs.size() - 1); auto& p = ps[pi]; auto& src = srcs[si];
				if (!src.s || !g.chance(1, 3)) {
					src.s.reset(); src.in = g.draw(n - 1); src.kind = g.chance(1, 2) ? 4 : static_cast<int>(g.draw(3));
					if (in[src.in].bytes.empty()) src.kind = 4;
					src.s = sources::make(src.kind, in[src.in].bytes, src.kind == 1 || src.kind == 2 || src.kind == 3 ? fileOf(src.in) : fs::path()); g.label(sources::name(src.kind));
					if (!src.s) fail("source", "source refused");
				} else g.label("source reused");
				auto& I = in[src.in]; auto want = reference(I, p.c, dirOf(src.in));
				p.ctx->maps.clear(); p.ctx->log.clear();
				std::string how = "load of input " + std::to_string(src.in) + " with parser " + std::to_string(pi) + " from " + sources::name(src.kind); note += how + "\n"; g.note(note);
				{
					auto r = load(*p.p, I, *src.s, dirOf(src.in)); ++loads; if (r.error() != fg::Error::None) ++fails;
					compare(want, r.error(), r.error() == fg::Error::None ? &r.get() : nullptr, *p.ctx, how);
					if (r.error() == fg::Error::None) {
						auto& sl = slots[g.draw(slots.size() - 1)];
						if (sl.a && g.chance(2, 3)) { *sl.a = std::move(r.get()); g.label("assigned over an asset"); note += "  assigned over an asset\n"; } else sl.a.emplace(std::move(r.get()));
						sl.snap = want.asset;
					}
				}
				if (g.flip()) src.s.reset();
				break;
			}
			case 4: { // parsers are moved, or their configuration changes
				size_t a = g.draw(ps.size() - 1), b = g.draw(ps.size() - 1);
				switch (g.draw(3)) {
					case 0: { std::optional<fg::Parser> q(std::move(*ps[a].p)); ps[a].p.reset(); ps[a].p.emplace(std::move(*q)); q.reset(); ++moves; note += "parser moved\n"; break; }
					case 1: if (a != b) { *ps[b].p = std::move(*ps[a].p); ps[b].c = ps[a].c; std::swap(ps[b].ctx, ps[a].ctx); ps[a].p.reset(); ps[a].c = cfgs[g.draw(1)]; ps[a].ctx = std::make_unique<Ctx>(); ps[a].p.emplace(dp::extBits(ps[a].c.exts)); apply(*ps[a].p, ps[a].c, ps[a].ctx.get()); ++moves; note += "parser move-assigned\n"; } break;
					case 2: { auto ex = ps[a].c.exts; ps[a].c = cfgs[g.draw(1)]; ps[a].c.exts = ex; apply(*ps[a].p, ps[a].c, ps[a].ctx.get()); note += "callbacks changed\n"; break; }
					default: ps[a].p.reset(); ps[a].p.emplace(dp::extBits(ps[a].c.exts)); ps[a].ctx = std::make_unique<Ctx>(); apply(*ps[a].p, ps[a].c, ps[a].ctx.get()); note += "parser destroyed\n"; break;
				}
				break;
			}
			case 5: { // assets are moved or destroyed
				size_t a = g.draw(slots.size() - 1), b = g.draw(slots.size() - 1);
				if (!slots[a].a) break;
				if (a == b) { slots[a].a.reset(); note += "asset destroyed\n"; break; }
				if (slots[b].a && g.flip()) { *slots[b].a = std::move(*slots[a].a); note += "asset move-assigned\n"; g.label("assigned over an asset"); } else { slots[b].a.emplace(std::move(*slots[a].a)); note += "asset moved\n"; }
				slots[b].snap = slots[a].snap; ++moves;
				if (g.flip()) slots[a].a.reset();
				else { // a moved-from asset can be assigned to again
					slots[a].a.reset(); }
				break;
			}
			default: { // files change or vanish after loading
				if (store) { files::Bytes junk(64, 'x'); for (size_t i = 0; i < n; ++i) { bool used = false; for (auto& x : srcs) used |= x.s && x.in == i && (x.kind == 2 || x.kind == 3); if (!used) { std::error_code ec; fs::remove(store->path / std::to_string(i), ec); } } note += "files removed\n"; }
				break;
			}
		}
		g.note(note);
		for (auto& sl : slots) if (sl.a) dp::same(snap(*sl.a), sl.snap, "intact");
	}
	srcs.clear(); ps.clear(); dirs.clear();
	for (auto& sl : slots) if (sl.a) dp::same(snap(*sl.a), sl.snap, "intact at the end");
	if (loads >= 2) g.nontrivial();
	if (fails && loads > fails) g.label("failures and successes");
	if (moves) g.label("moved");
	g.key(hashStr(note));
}

// parsers of their own in several threads at once
PROPERTY(t_loads, 200, 20000) {
	bool wantFiles = g.chance(1, 4);
	std::vector<Input> in; size_t n = 2 + g.draw(2); std::string note; std::vector<std::unique_ptr<files::Dir>> dirs; files::Dir store;
	for (size_t i = 0; i < n; ++i) {
		in.push_back(input(g, wantFiles)); note += in.back().what + "\n"; store.put(std::to_string(i), in[i].bytes); dirs.push_back(nullptr);
		if (in.back().loads) { dirs.back() = std::make_unique<files::Dir>(); for (auto& f : in.back().files) if (!g.chance(1, 8)) dirs.back()->put(f.first, f.second); }
	}
	auto dirOf = [&](size_t i) { return dirs[i] ? dirs[i]->path : fs::path(); };
	auto c = config(g); bool same = g.flip(); auto c2 = same ? c : config(g);
	size_t nt = 2 + g.draw(2); struct Job { size_t in; int kind; bool writes, fresh; }; std::vector<std::vector<Job>> plan(nt);
	for (auto& p : plan) for (size_t k = 2 + g.draw(6); k > 0; --k) { Job j; j.in = g.draw(n - 1); j.kind = g.flip() ? 4 : static_cast<int>(g.draw(3)); if (in[j.in].bytes.empty()) j.kind = 4; j.writes = g.flip(); j.fresh = g.chance(1, 4); g.label(std::string("thread ") + sources::name(j.kind)); p.push_back(j); }
	g.note(note); g.key(hashStr(note)); g.nontrivial();
	std::vector<Result> want, want2; for (size_t i = 0; i < n; ++i) { want.push_back(reference(in[i], c, dirOf(i))); want2.push_back(reference(in[i], c2, dirOf(i))); }
	std::vector<std::string> bad(nt); std::vector<std::vector<std::string>> text(nt); std::vector<std::thread> ts;
	for (size_t t = 0; t < nt; ++t) { text[t].resize(n); ts.emplace_back([&, t] {
		try {
			auto& cfg = t % 2 ? c2 : c; Ctx ctx; std::optional<fg::Parser> p(fg::Parser(dp::extBits(cfg.exts))); apply(*p, cfg, &ctx); fg::Exporter ex;
			for (auto& j : plan[t]) {
				ctx.log.clear(); ctx.maps.clear(); if (j.fresh) { p.reset(); p.emplace(dp::extBits(cfg.exts)); apply(*p, cfg, &ctx); }
				auto src = sources::make(j.kind, in[j.in].bytes, store.path / std::to_string(j.in)); require(src != nullptr, "source", "source refused in a thread");
				auto r = load(*p, in[j.in], *src, dirOf(j.in)); compare((t % 2 ? want2 : want)[j.in], r.error(), r.error() == fg::Error::None ? &r.get() : nullptr, ctx, "load in a thread");
				if (r.error() == fg::Error::None && j.writes) { auto o = ex.writeGltfJson(r.get(), fg::ExportOptions::PrettyPrintJson); auto s = dp::err(fg::validate(r.get())) + " " + dp::err(o.error()); if (o.error() == fg::Error::None) s += " " + o.get().output; if (text[t][j.in].empty()) text[t][j.in] = s; else require(text[t][j.in] == s, "export", "two exports of one input in one thread differ"); }
			}
		} catch (const Failure& f) { bad[t] = f.what(); } catch (const std::exception& e) { bad[t] = e.what(); }
	}); }
	for (auto& t : ts) t.join();
	for (auto& b : bad) require(b.empty(), "threads", [&] { return b; });
	for (size_t t = 2; t < nt; ++t) for (size_t i = 0; i < n; ++i) if (!text[t][i].empty() && !text[t - 2][i].empty()) require(text[t][i] == text[t - 2][i], "export", "two threads export one input differently");
}

// one asset read by several threads at once
static std::string observed(const fg::Asset& a, bool read) {
	auto r = Json::obj(); auto v = fg::validate(a); r["validate"] = dp::err(v); r["asset"] = snap(a);
	if (v == fg::Error::None && read) { r["accessors"] = observe::accessors(a); r["scenes"] = observe::scenes(a); }
	fg::Exporter e; auto t = e.writeGltfJson(a); r["export"] = dp::err(t.error()); if (t.error() == fg::Error::None) r["text"] = t.get().output;
	auto b = e.writeGltfBinary(a); r["binary"] = dp::err(b.error()); if (b.error() == fg::Error::None) r["glb"] = pbt::hex(b.get().output.data(), b.get().output.size(), ~size_t(0));
	return js::text(r);
}
PROPERTY(t_shared_asset, 200, 20000) {
	Input in = input(g, false); auto c = config(g); Ctx ctx; fg::Parser p(dp::extBits(c.exts)); apply(p, c, &ctx);
	sources::Strict src(in.bytes); auto r = load(p, in, src, {}); if (r.error() != fg::Error::None) throw Discard{};
	const fg::Asset& a = r.get(); bool all = fg::to_underlying(in.mask) == fg::to_underlying(fg::Category::All); g.note(in.what); g.key(hashStr(in.what)); if (!a.accessors.empty() || !a.nodes.empty()) g.nontrivial();
	if (all && fg::validate(a) == fg::Error::None) g.label("shared and read");
	auto want = observed(a, all); size_t nt = 2 + g.draw(2); std::vector<std::string> got(nt); std::vector<std::thread> ts;
	for (size_t t = 0; t < nt; ++t) ts.emplace_back([&, t] { try { for (int k = 0; k < 2; ++k) { got[t] = observed(a, all); if (got[t] != want) break; } } catch (const std::exception& e) { got[t] = e.what(); } });
	for (auto& t : ts) t.join();
	for (auto& x : got) require(x == want, "shared", [&] { return "several threads reading one asset see\n" + x + "\nalone it is\n" + want; });
}

// One build of the library behind a C function: loads a document and says, as JSON, everything that can be seen of it.
// The library's sources are part of this translation unit, so that every configuration is one shared object.
#include FG_SRC_BASE64
#include FG_SRC_IO
#include FG_SRC_FASTGLTF
#include <lib/dump.hpp>
#include <lib/observe.hpp>
namespace fg = fastgltf; using js::Json;

using observe::accessors; using observe::scenes;
static void finite(Json& j) { // infinities cannot be written as JSON numbers
	if (j.isNum()) { double v = j.num(); if (!(v - v == 0)) j = Json(v != v ? "nan" : v > 0 ? "inf" : "-inf"); }
	for (auto& x : j.a) finite(x);
	for (auto& kv : j.o) finite(kv.second);
}
extern "C" __attribute__((visibility("default"))) void probe(const char* p, size_t n, int kind, uint64_t options, uint64_t exts, uint32_t cats, void* to, void (*put)(void*, const char*, size_t)) {
	auto r = Json::obj();
	{
		fg::Parser parser(static_cast<fg::Extensions>(exts));
		auto extras = Json::arr();
		struct U { Json* j; } u{&extras};
		if (options & (1ull << 32)) { parser.setUserPointer(&u); parser.setExtrasParseCallback([](simdjson::dom::object* o, std::size_t i, fg::Category c, void* v) { auto e = Json::arr(); e.push(Json(static_cast<uint64_t>(i))); e.push(Json(static_cast<uint64_t>(fg::to_underlying(c)))); e.push(Json(std::string(simdjson::minify(*o)))); static_cast<U*>(v)->j->push(e); }); }
		auto buf = dp::bytes(std::string_view(p, n)); auto opt = static_cast<fg::Options>(options & 0xffff); auto cat = static_cast<fg::Category>(cats);
		r["type"] = Json(static_cast<uint64_t>(fg::determineGltfFileType(buf)));
		auto a = kind == 0 ? parser.loadGltfJson(buf, "", opt, cat) : kind == 1 ? parser.loadGltfBinary(buf, "", opt, cat) : parser.loadGltf(buf, "", opt, cat);
		r["error"] = dp::err(a.error()); r["extras"] = extras;
		if (a.error() == fg::Error::None) {
			auto d = dp::dump(a.get()); r["asset"] = d;
			r["available"] = Json(static_cast<uint64_t>(fg::to_underlying(a->availableCategories)));
			auto v = fg::validate(a.get()); r["validate"] = dp::err(v);
			if (v == fg::Error::None && cats == static_cast<uint32_t>(fg::Category::All)) {
				r["accessors"] = accessors(a.get()); r["scenes"] = scenes(a.get());
				fg::Exporter e; auto t = e.writeGltfJson(a.get(), options & (1ull << 33) ? fg::ExportOptions::PrettyPrintJson : fg::ExportOptions::None);
				r["export"] = dp::err(t.error());
				if (t.error() == fg::Error::None) {
					r["text"] = t.get().output; auto files = Json::arr(); for (auto* l : {&t.get().bufferPaths, &t.get().imagePaths}) for (auto& f : *l) files.push(f.has_value() ? Json(f->generic_string()) : Json());
					r["files"] = files;
					auto b2 = dp::bytes(t.get().output); fg::Parser q(static_cast<fg::Extensions>(exts)); auto a2 = q.loadGltfJson(b2, "", fg::Options::AllowDouble);
					r["reload"] = dp::err(a2.error());
					if (a2.error() == fg::Error::None) { fg::Exporter e2; auto t2 = e2.writeGltfJson(a2.get(), options & (1ull << 33) ? fg::ExportOptions::PrettyPrintJson : fg::ExportOptions::None); r["again"] = t2.error() == fg::Error::None ? Json(t2.get().output == t.get().output) : Json("error"); }
				}
				auto g = e.writeGltfBinary(a.get()); r["binary"] = dp::err(g.error());
				if (g.error() == fg::Error::None) r["glb"] = pbt::hex(g.get().output.data(), g.get().output.size(), ~size_t(0));
			}
		}
	}
	finite(r); auto s = js::text(r); put(to, s.data(), s.size());
}

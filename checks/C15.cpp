// C15: the exported text is valid JSON with the original strings, whatever characters they have; the escape and pretty-print
// helpers preserve every string and every JSON text.
#include <simdjson.h>
#include <lib/export.hpp>
using namespace pbt;
namespace fg = fastgltf;
using js::Json;

// arbitrary JSON values
static Json value(Gen& g, int depth = 0) {
	switch (g.draw(depth > 5 ? 6 : 9)) {
		case 0: return Json();
		case 1: return Json(g.flip());
		case 2: return Json(static_cast<int64_t>(g.draw(2000)) - 1000);
		case 3: return Json(gg::real(g, -1e6, 1e6));
		case 4: case 5: case 6: return Json(gg::str(g, 12));
		case 7: { auto a = Json::arr(); for (size_t n = g.size(4); n; --n) a.push(value(g, depth + 1)); return a; }
		default: { auto o = Json::obj(); for (size_t n = g.size(4); n; --n) o[gg::str(g, 8)] = value(g, depth + 1); return o; }
	}
}
// the text without the white space between its tokens
static std::string squeeze(const std::string& s) {
	std::string o; bool in = false;
	for (size_t i = 0; i < s.size(); ++i) {
		if (in) { o += s[i]; if (s[i] == '\\' && i + 1 < s.size()) o += s[++i]; else if (s[i] == '"') in = false; continue; }
		if (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') continue;
		o += s[i]; if (s[i] == '"') in = true;
	}
	return o;
}
static void prettyCheck(const std::string& in) {
	std::string out = in; fg::prettyPrintJson(out);
	require(squeeze(out) == squeeze(in), "pretty", [&] { return "pretty-printing\n" + in + "\ngives\n" + out; });
}

PROPERTY(pretty, 20000, 2000000) {
	auto j = value(g); if (g.chance(3, 4) && !j.isObj()) { auto o = Json::obj(); o[gg::str(g, 8)] = j; j = o; }
	std::string t = g.chance(1, 3) ? js::textWith(j, g) : js::text(j);
	g.note(t); g.key(hashStr(t)); if (t.find('"') != std::string::npos) g.nontrivial();
	if (t.find("\\\\\"") != std::string::npos) g.label("string ends in backslash"); if (t.find("\\\"") != std::string::npos) g.label("quote");
	prettyCheck(t);
	if (g.chance(1, 3)) { std::string once = t; fg::prettyPrintJson(once); prettyCheck(once); g.label("twice"); }
}
// texts of any kind: nothing is read or written beyond them, no matter what they are
PROPERTY(any_text, 6000, 500000) {
	std::string t; for (size_t n = g.size(30); n; --n) t += g.chance(2, 3) ? g.pick({'"', '\\', '{', '}', '[', ']', ',', ':', ' ', 'u', '/', '\n', '0'}) : static_cast<char>(g.byte());
	g.note(hex(reinterpret_cast<const uint8_t*>(t.data()), t.size())); g.key(hashStr(t)); if (t.size() > 3) g.nontrivial();
	std::string p = t; fg::prettyPrintJson(p);
	std::string a, b; for (char c : t) if (!strchr(" \n\t\r", c) || !c) a += c; for (char c : p) if (!strchr(" \n\t\r", c) || !c) b += c;
	require(a == b, "characters", "pretty-printing changed more than white space");
	auto e = fg::escapeString(t); require(e.size() >= t.size(), "escape", "escaping loses characters");
}
PROPERTY(escape, 20000, 2000000) {
	std::string s; if (g.chance(1, 4)) { for (size_t n = g.size(20); n; --n) s += g.pick({'\\', '"', '/', '\b', '\f', '\n', '\r', '\t', '\0', 'u', 'n', '\x1f', '\x7f'}); } else s = gg::str(g, g.chance(1, 8) ? 200 : 20);
	g.key(hashStr(s)); auto e = fg::escapeString(s); g.note(s + "\n->\n" + e); if (e != s) g.nontrivial();
	std::string t = "\"" + e + "\""; Json j; std::string er;
	require(js::parse(t, j, er), "escape JSON", [&] { return "the escaped text is no JSON string: " + er; });
	require(j.t == Json::Str && j.s == s, "escape value", "the escaped text is another string");
	// what needs no escape is kept
	bool plain = true; for (char c : s) plain &= static_cast<unsigned char>(c) >= 0x20 && c != '"' && c != '\\' && c != '/'; if (plain) require(e == s, "escape plain", "text without special characters changes");
	prettyCheck("{" + t + ":[" + t + "," + t + "]}");
}

struct Extras { std::vector<std::string> texts; size_t next = 0; };
static std::optional<std::string> extras(std::size_t, fg::Category, void* p) { auto& e = *static_cast<Extras*>(p); auto& t = e.texts[e.next++ % e.texts.size()]; if (t.empty()) return std::nullopt; return t; }

PROPERTY(asset, 9000, 600000) {
	gg::Opts o; o.wild = g.flip(); o.maxNodes = 3; o.maxObjects = 3; o.external = g.flip(); o.meshoptRequired = g.flip();
	if (!g.chance(1, 8)) o.exts = gg::allExts();
	ex::Case c; ex::Want w; w.strings = true; ex::make(c, g, o, w); if (c.changed) { g.nontrivial(); g.label("strings changed"); }
	auto opt = g.flip() ? fg::ExportOptions::PrettyPrintJson : fg::ExportOptions::None;
	fg::Exporter e; Extras x; if (g.chance(1, 3)) { for (size_t n = 1 + g.draw(2); n; --n) x.texts.push_back(g.chance(1, 4) ? "" : js::text(Json::obj({{gg::str(g, 6), value(g, 4)}}))); e.setExtrasWriteCallback(extras); e.setUserPointer(&x); g.label("extras"); }
	auto r = e.writeGltfJson(c.asset, opt);
	require(r.error() == fg::Error::None, "export", [&] { return "exporting failed: " + dp::err(r.error()); });
	g.note("exported: " + r.get().output);
	dp::same(ex::content(r.get().output, c.names), ex::expected(c.asset, r.get(), false), "exported strings");
	auto b = e.writeGltfBinary(c.asset, opt);
	require(b.error() == fg::Error::None, "binary export", [&] { return "binary export failed: " + dp::err(b.error()); });
	auto& bytes = b.get().output; uint32_t n; require(bytes.size() >= 20, "binary", "short container"); memcpy(&n, bytes.data() + 12, 4); require(n <= bytes.size() - 20, "binary", "wrong JSON chunk length");
	std::string text(reinterpret_cast<const char*>(bytes.data()) + 20, n); while (!text.empty() && text.back() == ' ') text.pop_back();
	dp::same(ex::content(text, c.names), ex::expected(c.asset, b.get(), true), "JSON chunk strings");
	// another JSON parser agrees
	simdjson::dom::parser p; auto doc = p.parse(r.get().output); require(!doc.error() && doc.is_object(), "simdjson", "the exported text is not a JSON object");
}

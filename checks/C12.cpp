// C12: URIs decompose per RFC 3986; views and owned URIs stay consistent under copy, move and assignment.
#include <fastgltf/core.hpp>
#include <memory>
#include <optional>
#include <pbt/pbt.hpp>

using namespace pbt;
using fastgltf::URI; using fastgltf::URIView;

static int hexv(char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
static std::string dec(std::string_view s) {
	std::string o;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '%' && i + 2 < s.size() && hexv(s[i + 1]) >= 0 && hexv(s[i + 2]) >= 0) { o += static_cast<char>(hexv(s[i + 1]) * 16 + hexv(s[i + 2])); i += 2; }
		else o += s[i];
	}
	return o;
}
struct Parts {
	std::string all, scheme, userinfo, host, port, path, query, fragment; bool valid = true;
	bool operator==(const Parts& o) const { return all == o.all && scheme == o.scheme && userinfo == o.userinfo && host == o.host && port == o.port && path == o.path && query == o.query && fragment == o.fragment && valid == o.valid; }
	std::string str() const { return "{'" + all + "' scheme='" + scheme + "' userinfo='" + userinfo + "' host='" + host + "' port='" + port + "' path='" + path + "' query='" + query + "' fragment='" + fragment + "' valid=" + (valid ? "1" : "0") + "}"; }
	Parts decoded() const { return {dec(all), dec(scheme), dec(userinfo), dec(host), dec(port), dec(path), dec(query), dec(fragment), valid}; }
};
template <class U> static Parts parts(const U& u) {
	return {std::string(u.string()), std::string(u.scheme()), std::string(u.userinfo()), std::string(u.host()), std::string(u.port()), std::string(u.path()), std::string(u.query()), std::string(u.fragment()), u.valid()};
}
static void same(const Parts& got, const Parts& want, const char* tag, const char* what) {
	require(got == want, tag, [&] { return std::string(what) + ": got " + got.str() + " expected " + want.str(); });
}

static const std::string unreserved = "abcxyzABCXYZ0189-._~", subdelims = "!$&'()*+,;=";
static std::string chars(Gen& g, const std::string& alphabet, size_t max, bool pct) {
	std::string o;
	for (size_t n = g.size(max); n > 0; --n) {
		if (pct && g.chance(1, 5)) {
			char b[4]; unsigned v = g.chance(1, 2) ? static_cast<unsigned char>("%/?#:@[] \"\\\x00\xc3\xa9.A"[g.draw(15)]) : g.byte();
			snprintf(b, 4, g.flip() ? "%%%02x" : "%%%02X", v); o += b;
		} else o += alphabet[g.draw(alphabet.size() - 1)];
	}
	return o;
}
static Parts genUri(Gen& g) {
	Parts p; std::string s;
	const std::string pchar = unreserved + subdelims + ":@";
	bool hasScheme = g.chance(2, 3), hasAuth = g.chance(1, 2);
	if (hasScheme) {
		switch (g.draw(3)) { case 0: p.scheme = "file"; break; case 1: p.scheme = "https"; break; default: p.scheme = "abcXYZ"[g.draw(5)]; p.scheme += chars(g, "abcXYZ019+-.", 6, false); if (p.scheme == "data") p.scheme = "dat"; }
		s += p.scheme + ":"; g.label("scheme");
	}
	if (hasAuth) {
		s += "//"; g.label("authority");
		if (g.chance(1, 3)) { p.userinfo = chars(g, unreserved + subdelims + ":", 8, true); s += p.userinfo + "@"; g.label("userinfo"); }
		if (g.chance(1, 4)) { p.host = chars(g, "0123456789abcdefABCDEF:.", 12, false); s += "[" + p.host + "]"; g.label("ip-literal"); }
		else { p.host = chars(g, unreserved + subdelims, 12, true); s += p.host; }
		if (g.chance(1, 3)) { p.port = chars(g, "0123456789", 5, false); s += ":" + p.port; g.label("port"); }
		else if (p.userinfo.empty()) g.label("no-port");
	}
	// path
	size_t segs = g.size(4);
	for (size_t i = 0; i < segs; ++i) {
		std::string alpha = pchar; if (!hasScheme && !hasAuth && i == 0) alpha = unreserved + subdelims + "@";
		std::string seg = chars(g, alpha, 8, true);
		if (i == 0 && !hasAuth) { // relative, rootless or absolute without a leading "//"
			if (g.flip()) p.path += "/";
			if (seg.empty() && segs > 1) seg = "s";
			p.path += seg;
		} else p.path += "/" + seg;
	}
	s += p.path;
	if (!hasAuth && hasScheme && p.path.empty()) g.label("scheme-only");
	if (hasAuth && p.path.empty()) g.label("authority-no-path");
	if (g.chance(1, 3)) { p.query = chars(g, pchar + "/?", 10, true); s += "?" + p.query; g.label("query"); }
	if (g.chance(1, 3)) { p.fragment = chars(g, pchar + "/?", 10, true); s += "#" + p.fragment; g.label("fragment"); if (p.fragment.find('?') != std::string::npos) g.label("fragment-with-?"); }
	if (s.empty()) { p.path = s = "x"; }
	if (s.find('%') != std::string::npos) g.label("percent");
	p.all = s; p.valid = true;
	return p;
}
static Parts genData(Gen& g) {
	Parts p; p.scheme = "data"; p.path = "application" + chars(g, unreserved + "/;,", 12, false) + ";base64," + chars(g, "ABCD+/=09?#:@", 60, false);
	p.all = "data:" + p.path; g.label("data-uri"); return p;
}
static void checkClass(const URI& u, const URIView& v, const Parts& p) {
	Parts d = p.decoded();
	require(v.isDataUri() == (p.scheme == "data") && u.isDataUri() == (p.scheme == "data"), "isDataUri", "isDataUri disagrees with the scheme");
	bool local = p.scheme.empty() || (p.scheme == "file" && p.host.empty());
	require(v.isLocalPath() == local && u.isLocalPath() == local, "isLocalPath", "isLocalPath disagrees with scheme and host");
	if (local) require(u.fspath() == std::filesystem::u8path(d.path), "fspath", "fspath is not the decoded path");
	else require(u.fspath().empty(), "fspath", "fspath of a non-local URI is not empty");
	require(std::string_view(u.c_str(), u.string().size()) == u.string() && u.c_str()[u.string().size()] == 0, "c_str", "c_str is not the string");
}

PROPERTY(components, 120000, 1200000) {
	Parts p = g.chance(1, 8) ? genData(g) : genUri(g);
	g.note(p.str()); g.nontrivial(p.all.size() > 3); g.key(hashStr(p.all));
	std::unique_ptr<char[]> mem(new char[p.all.size()]); memcpy(mem.get(), p.all.data(), p.all.size());
	std::string_view sv(mem.get(), p.all.size());
	URIView v(sv);
	same(parts(v), p, "view", "URIView");
	URI u(sv); same(parts(u), p.decoded(), "uri", "URI(string_view)");
	URI u2{std::string(sv)}; same(parts(u2), p.decoded(), "uri", "URI(string)");
	URI u3{v}; same(parts(u3), p.decoded(), "uri", "URI(URIView)");
	std::string d = p.all; URI::decodePercents(d);
	require(d == dec(p.all), "decodePercents", [&] { return "decodePercents(" + p.all + ") = " + d; });
	checkClass(u, v, p);
}

static std::string genText(Gen& g) {
	if (g.chance(1, 3)) { // mutate a valid URI
		std::string s = genUri(g).all;
		for (size_t k = 1 + g.draw(2); k > 0; --k) {
			size_t i = s.empty() ? 0 : g.draw(s.size() - 1);
			switch (g.draw(2)) { case 0: if (!s.empty()) s.erase(i, 1 + g.draw(3)); break; case 1: s.insert(i, 1, ":/?#[]@%"[g.draw(7)]); break; default: s = s.substr(0, i); }
		}
		return s;
	}
	std::string s; for (size_t n = g.size(24); n > 0; --n) s += g.chance(1, 8) ? static_cast<char>(g.byte()) : "a:/?#[]@%0f"[g.draw(10)];
	return s;
}
static void inside(std::string_view c, std::string_view all, const char* n) {
	if (c.empty()) return;
	require(c.data() >= all.data() && c.data() + c.size() <= all.data() + all.size(), "outside", [&] { return std::string(n) + " is not inside the URI text"; });
}
PROPERTY(arbitrary_text, 120000, 1200000) {
	std::string s = genText(g);
	g.note("text " + hex(s.data(), s.size()) + " = " + s); g.nontrivial(!s.empty()); g.key(hashStr(s));
	std::unique_ptr<char[]> mem(new char[s.size()]); memcpy(mem.get(), s.data(), s.size());
	std::string_view sv(mem.get(), s.size());
	URIView v(sv);
	for (auto [c, n] : {std::pair{v.scheme(), "scheme"}, {v.userinfo(), "userinfo"}, {v.host(), "host"}, {v.port(), "port"}, {v.path(), "path"}, {v.query(), "query"}, {v.fragment(), "fragment"}}) inside(c, v.string(), n);
	require(v.string() == s, "string", "string() is not the text");
	g.label(v.valid() ? "arbitrary-valid" : "arbitrary-invalid");
	if (v.valid() && s.find('[') == std::string::npos) { // nothing of the text is lost: the components and their delimiters tile it
		Parts p = parts(v); std::string r;
		size_t sum = p.scheme.size() + p.userinfo.size() + p.host.size() + p.port.size() + p.path.size() + p.query.size() + p.fragment.size();
		require(sum <= s.size() && s.size() - sum <= 9, "tile", [&] { return "components do not cover the text: " + p.str(); });
	}
	// An owned URI has the same components as the view, decoded.
	URI u(sv); same(parts(u), parts(v).decoded(), "uri-vs-view", "URI vs URIView");
	URI w(v); same(parts(w), parts(v).decoded(), "uri-vs-view", "URI(URIView) vs URIView");
	std::string d = s; URI::decodePercents(d); require(d == dec(s), "decodePercents", "decodePercents of arbitrary text");
}

// Model-based: owned URIs and views under copies, moves and assignments.
PROPERTY(histories, 60000, 600000) {
	struct Slot { std::optional<URI> u; Parts p; };
	Slot slot[3]; URIView view; Parts vp; vp.valid = view.valid();
	std::vector<std::unique_ptr<std::string>> texts;
	auto newText = [&]() -> std::string& { texts.push_back(std::make_unique<std::string>(g.chance(1, 4) ? genText(g) : g.chance(1, 8) ? genData(g).all : genUri(g).all)); return *texts.back(); };
	const Parts moved{"", "", "", "", "", "", "", "", false};
	size_t steps = 2 + g.draw(12); unsigned muts = 0;
	for (auto& s : slot) { s.u.emplace(); s.p = parts(*s.u); }
	for (size_t k = 0; k < steps; ++k) {
		size_t i = g.draw(2), j = g.draw(2); Slot &a = slot[i], &b = slot[j];
		bool bMoved = false;
		switch (g.draw(9)) {
			case 0: { auto& t = newText(); a.u.emplace(std::string_view(t)); a.p = parts(URIView(t)).decoded(); g.note("s" + std::to_string(i) + " = URI(string_view " + t + ")"); break; }
			case 1: { auto& t = newText(); a.u.emplace(std::string(t)); a.p = parts(URIView(t)).decoded(); g.note("s" + std::to_string(i) + " = URI(string " + t + ")"); break; }
			case 2: { *a.u = *b.u; a.p = b.p; ++muts; g.note("s" + std::to_string(i) + " = s" + std::to_string(j)); break; }
			case 3: if (i != j) { *a.u = std::move(*b.u); a.p = b.p; bMoved = true; ++muts; g.note("s" + std::to_string(i) + " = move(s" + std::to_string(j) + ")"); } break;
			case 4: if (i != j) { a.u.emplace(*b.u); a.p = b.p; ++muts; g.note("s" + std::to_string(i) + " = URI(s" + std::to_string(j) + ")"); } break;
			case 5: if (i != j) { a.u.emplace(std::move(*b.u)); a.p = b.p; ++muts; g.note("s" + std::to_string(i) + " = URI(move(s" + std::to_string(j) + "))"); b.u.emplace(); b.p = parts(*b.u); } break;
			case 6: { auto& t = newText(); view = std::string_view(t); vp = parts(URIView(t)); g.note("view = " + t); break; }
			case 7: { *a.u = view; a.p = vp.decoded(); ++muts; g.note("s" + std::to_string(i) + " = view"); break; }
			case 8: { a.u.emplace(view); a.p = vp.decoded(); g.note("s" + std::to_string(i) + " = URI(view)"); break; }
			case 9: { URIView tmp(view); URIView t2; t2 = tmp; view = t2; ++muts; g.note("view copies"); break; }
		}
		if (bMoved) { same(parts(*b.u), moved, "moved-from", "moved-from URI"); b.u.emplace(); b.p = parts(*b.u); }
		same(parts(view), vp, "view-state", "view");
		for (auto& s : slot) {
			same(parts(*s.u), s.p, "state", "URI after the step");
			for (auto c : {s.u->scheme(), s.u->userinfo(), s.u->host(), s.u->port(), s.u->path(), s.u->query(), s.u->fragment()}) inside(c, s.u->string(), "component of an owned URI");
		}
		URIView conv = *a.u; same(parts(conv), a.p, "conversion", "URI to URIView");
	}
	g.nontrivial(muts > 0); if (muts > 2) g.label("long-history");
}

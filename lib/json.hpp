// Independent JSON value, strict RFC 8259 parser, and printer with arbitrary insignificant formatting.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include <pbt/pbt.hpp>

namespace js {
struct Json {
	enum T { Null, Bool, Int, Uint, Num, Str, Arr, Obj } t = Null;
	bool b = false; int64_t i = 0; uint64_t u = 0; double d = 0; std::string s;
	std::vector<Json> a; std::vector<std::pair<std::string, Json>> o;
	Json() = default;
	Json(bool v) : t(Bool), b(v) {}
	Json(int v) : Json(static_cast<int64_t>(v)) {}
	Json(int64_t v) { if (v < 0) { t = Int; i = v; } else { t = Uint; u = static_cast<uint64_t>(v); } }
	Json(uint64_t v) : t(Uint), u(v) {}
	Json(unsigned v) : t(Uint), u(v) {}
	Json(unsigned long long v) : t(Uint), u(v) {}
	Json(double v) : t(Num), d(v) {}
	Json(float v) : t(Num), d(v) {}
	Json(const char* v) : t(Str), s(v) {}
	Json(std::string v) : t(Str), s(std::move(v)) {}
	Json(std::string_view v) : t(Str), s(v) {}
	static Json arr() { Json j; j.t = Arr; return j; }
	static Json arr(std::vector<Json> v) { Json j; j.t = Arr; j.a = std::move(v); return j; }
	static Json obj() { Json j; j.t = Obj; return j; }
	static Json obj(std::vector<std::pair<std::string, Json>> v) { Json j; j.t = Obj; j.o = std::move(v); return j; }
	bool isNum() const { return t == Int || t == Uint || t == Num; }
	bool isObj() const { return t == Obj; }
	bool isArr() const { return t == Arr; }
	double num() const { return t == Int ? static_cast<double>(i) : t == Uint ? static_cast<double>(u) : d; }
	Json* find(std::string_view k) { for (auto& p : o) if (p.first == k) return &p.second; return nullptr; }
	const Json* find(std::string_view k) const { for (auto& p : o) if (p.first == k) return &p.second; return nullptr; }
	const Json& at(std::string_view k) const { static const Json null; auto* p = find(k); return p ? *p : null; }
	Json& operator[](std::string_view k) { if (t == Null) t = Obj; if (auto* p = find(k)) return *p; o.emplace_back(std::string(k), Json()); return o.back().second; }
	bool erase(std::string_view k) { for (size_t n = 0; n < o.size(); ++n) if (o[n].first == k) { o.erase(o.begin() + static_cast<long>(n)); return true; } return false; }
	Json& push(Json v) { if (t == Null) t = Arr; a.push_back(std::move(v)); return a.back(); }
	size_t size() const { return t == Arr ? a.size() : o.size(); }
};

inline void utf8(std::string& o, uint32_t c) {
	if (c < 0x80) o += static_cast<char>(c);
	else if (c < 0x800) { o += static_cast<char>(0xc0 | (c >> 6)); o += static_cast<char>(0x80 | (c & 63)); }
	else if (c < 0x10000) { o += static_cast<char>(0xe0 | (c >> 12)); o += static_cast<char>(0x80 | ((c >> 6) & 63)); o += static_cast<char>(0x80 | (c & 63)); }
	else { o += static_cast<char>(0xf0 | (c >> 18)); o += static_cast<char>(0x80 | ((c >> 12) & 63)); o += static_cast<char>(0x80 | ((c >> 6) & 63)); o += static_cast<char>(0x80 | (c & 63)); }
}
// decodes one code point of valid UTF-8; returns its length, or 0 when the text is not valid there
inline size_t cpAt(std::string_view s, size_t p, uint32_t& cp) {
	auto c = static_cast<unsigned char>(s[p]);
	size_t n = c < 0x80 ? 1 : (c >> 5) == 6 ? 2 : (c >> 4) == 14 ? 3 : (c >> 3) == 30 ? 4 : 0;
	if (!n || p + n > s.size()) return 0;
	cp = n == 1 ? c : c & (0xff >> (n + 1));
	for (size_t k = 1; k < n; ++k) { auto x = static_cast<unsigned char>(s[p + k]); if ((x & 0xc0) != 0x80) return 0; cp = (cp << 6) | (x & 63); }
	if ((n == 2 && cp < 0x80) || (n == 3 && cp < 0x800) || (n == 4 && cp < 0x10000) || cp > 0x10ffff || (cp >= 0xd800 && cp < 0xe000)) return 0;
	return n;
}

bool parse(std::string_view text, Json& out, std::string& err); // strict parse of a whole text; on failure err is set
std::string text(const Json& j);
std::string textWith(const Json& j, pbt::Gen& g); // arbitrary formatting of the same value
std::string numText(double d); // shortest decimal text that reads back to exactly d
std::string diff(const Json& got, const Json& want, double tol = 0, const std::string& path = ""); // first difference, "" when equal

#ifdef PBT_GEN // bodies live in lib/gen.cpp, compiled without sanitizers
struct Parse {
	std::string_view t; size_t p = 0; std::string err; int depth = 0;
	bool fail(const char* m) { if (err.empty()) { err = std::string(m) + " at offset " + std::to_string(p); } return false; }
	void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) ++p; }
	bool lit(const char* l) { std::string_view v(l); if (t.substr(p, v.size()) != v) return fail("bad literal"); p += v.size(); return true; }
	bool hex4(uint32_t& v) {
		if (p + 4 > t.size()) return fail("short \\u");
		v = 0;
		for (int k = 0; k < 4; ++k) { char c = t[p++]; int h = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (h < 0) return fail("bad \\u digit"); v = v * 16 + static_cast<uint32_t>(h); }
		return true;
	}
	bool str(std::string& o) {
		++p;
		for (;;) {
			if (p >= t.size()) return fail("unterminated string");
			auto c = static_cast<unsigned char>(t[p]);
			if (c == '"') { ++p; return true; }
			if (c < 0x20) return fail("control character in string");
			if (c == '\\') {
				if (++p >= t.size()) return fail("unterminated escape");
				char e = t[p++];
				switch (e) {
					case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break;
					case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
					case 'u': {
						uint32_t v; if (!hex4(v)) return false;
						if (v >= 0xd800 && v < 0xdc00) { if (t.substr(p, 2) != "\\u") return fail("lone surrogate"); p += 2; uint32_t w; if (!hex4(w)) return false; if (w < 0xdc00 || w >= 0xe000) return fail("bad surrogate"); v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); }
						else if (v >= 0xdc00 && v < 0xe000) return fail("lone surrogate");
						utf8(o, v); break;
					}
					default: --p; return fail("invalid escape");
				}
				continue;
			}
			uint32_t cp; size_t n = cpAt(t, p, cp);
			if (!n) return fail("invalid UTF-8");
			o.append(t.substr(p, n)); p += n;
		}
	}
	bool number(Json& j) {
		size_t b = p; bool integer = true;
		if (t[p] == '-') ++p;
		auto digits = [&] { size_t q = p; while (p < t.size() && t[p] >= '0' && t[p] <= '9') ++p; return p > q; };
		if (p < t.size() && t[p] == '0') ++p; else if (!digits()) return fail("bad number");
		if (p < t.size() && t[p] == '.') { integer = false; ++p; if (!digits()) return fail("bad fraction"); }
		if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) { integer = false; ++p; if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p; if (!digits()) return fail("bad exponent"); }
		std::string s(t.substr(b, p - b));
		if (integer && s.size() < 19) j = Json(static_cast<int64_t>(strtoll(s.c_str(), nullptr, 10)));
		else if (integer && s[0] != '-' && s.size() < 21) { errno = 0; auto v = strtoull(s.c_str(), nullptr, 10); j = errno ? Json(strtod(s.c_str(), nullptr)) : Json(static_cast<uint64_t>(v)); }
		else if (integer && s[0] == '-' && s.size() < 21) { errno = 0; auto v = strtoll(s.c_str(), nullptr, 10); j = errno ? Json(strtod(s.c_str(), nullptr)) : Json(static_cast<int64_t>(v)); }
		else j = Json(strtod(s.c_str(), nullptr));
		return true;
	}
	bool value(Json& j) {
		ws();
		if (p >= t.size()) return fail("missing value");
		if (++depth > 200) return fail("too deep");
		bool ok = true;
		switch (t[p]) {
			case '{': {
				j = Json::obj(); ++p; ws();
				if (p < t.size() && t[p] == '}') { ++p; break; }
				for (;;) {
					ws(); if (p >= t.size() || t[p] != '"') return fail("expected a key");
					std::string k; if (!str(k)) return false;
					ws(); if (p >= t.size() || t[p] != ':') return fail("expected ':'");
					++p; Json v; if (!value(v)) return false;
					if (j.find(k)) return fail(("duplicate key " + k).c_str());
					j.o.emplace_back(std::move(k), std::move(v));
					ws(); if (p < t.size() && t[p] == ',') { ++p; continue; }
					if (p < t.size() && t[p] == '}') { ++p; break; }
					return fail("expected ',' or '}'");
				}
				break;
			}
			case '[': {
				j = Json::arr(); ++p; ws();
				if (p < t.size() && t[p] == ']') { ++p; break; }
				for (;;) {
					Json v; if (!value(v)) return false;
					j.a.push_back(std::move(v));
					ws(); if (p < t.size() && t[p] == ',') { ++p; continue; }
					if (p < t.size() && t[p] == ']') { ++p; break; }
					return fail("expected ',' or ']'");
				}
				break;
			}
			case '"': j = Json(""); ok = str(j.s); break;
			case 't': ok = lit("true"); j = Json(true); break;
			case 'f': ok = lit("false"); j = Json(false); break;
			case 'n': ok = lit("null"); j = Json(); break;
			default: ok = (t[p] == '-' || (t[p] >= '0' && t[p] <= '9')) ? number(j) : fail("unexpected character");
		}
		--depth;
		return ok;
	}
};
// strict parse of a whole text; on failure err is set
bool parse(std::string_view text, Json& out, std::string& err) {
	Parse p{text}; bool ok = p.value(out);
	if (ok) { p.ws(); if (p.p != text.size()) ok = p.fail("trailing characters"); }
	err = p.err; return ok;
}

// ---- printing. G is any source of draw(max) (or null for the plain form)
struct NoFmt { uint64_t draw(uint64_t) { return 0; } bool on(unsigned) { return false; } };
// formatting decisions of one text from one seed, so that a text costs two choices however long it is
struct Fmt {
	enum { Space = 1, Escape = 2, Order = 4, Number = 8 };
	uint64_t s; unsigned mask; uint64_t c = 0;
	bool on(unsigned m) const { return mask & m; }
	uint64_t draw(uint64_t n) { uint64_t z = s + 0x9e3779b97f4a7c15ull * ++c; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return (z >> 20) % (n + 1); }
};
template <class G> void wsp(std::string& o, G* g) { if (!g || !g->on(1)) return; switch (g->draw(5)) { case 1: o += ' '; break; case 2: o += "\n\t"; break; case 3: o += "\r\n  "; break; default: break; } }
template <class G> void printStr(std::string& o, std::string_view s, G* g) {
	o += '"';
	for (size_t p = 0; p < s.size();) {
		uint32_t cp = 0; size_t n = cpAt(s, p, cp); if (!n) { n = 1; cp = static_cast<unsigned char>(s[p]); }
		auto u = [&](uint32_t v) { char b[8]; snprintf(b, sizeof b, g && g->draw(1) ? "\\u%04X" : "\\u%04x", v); o += b; };
		bool esc = g && g->on(2) && g->draw(15) == 1;
		if (cp == '"' || cp == '\\') { if (esc) u(cp); else { o += '\\'; o += static_cast<char>(cp); } }
		else if (cp < 0x20) {
			const char* m = cp == '\n' ? "\\n" : cp == '\t' ? "\\t" : cp == '\r' ? "\\r" : cp == '\b' ? "\\b" : cp == '\f' ? "\\f" : nullptr;
			if (m && !esc) o += m; else u(cp);
		} else if (esc) { if (cp == '/') o += "\\/"; else if (cp >= 0x10000) { u(0xd800 + ((cp - 0x10000) >> 10)); u(0xdc00 + ((cp - 0x10000) & 0x3ff)); } else u(cp); }
		else o.append(s.substr(p, n));
		p += n;
	}
	o += '"';
}
// shortest decimal text that reads back to exactly d
std::string numText(double d) {
	char b[40];
	for (int p = 1; p <= 17; ++p) { snprintf(b, sizeof b, "%.*g", p, d); if (strtod(b, nullptr) == d) break; }
	return b;
}
template <class G> std::string numSpelling(double d, G* g) {
	std::string s = numText(d);
	if (!g || !g->on(8)) return s;
	// s is one of: [-]digits[.digits][e[+-]digits]
	auto e = s.find('e');
	std::string mant = s.substr(0, e), ex = e == std::string::npos ? "" : s.substr(e + 1);
	switch (g->draw(5)) {
		case 1: if (mant.find('.') == std::string::npos) mant += ".0"; else mant += "0"; break;
		case 2: if (ex.empty()) ex = "+00"; break;
		case 3: { // shift the decimal point
			if (d == 0) break;
			int x = ex.empty() ? 0 : atoi(ex.c_str());
			auto dot = mant.find('.');
			if (dot == std::string::npos) { mant += "0"; ex = std::to_string(x - 1); }
			else if (dot + 1 < mant.size()) { std::swap(mant[dot], mant[dot + 1]); if (mant.back() == '.') mant += "0"; size_t z = mant[0] == '-'; while (mant[z] == '0' && z + 1 < mant.size() && mant[z + 1] != '.') mant.erase(z, 1); ex = std::to_string(x - 1); }
			break;
		}
		default: break;
	}
	std::string r = mant;
	if (!ex.empty()) { r += g->draw(1) ? 'E' : 'e'; r += ex; }
	return strtod(r.c_str(), nullptr) == d ? r : s;
}
template <class G> void print(std::string& o, const Json& j, G* g) {
	switch (j.t) {
		case Json::Null: o += "null"; break;
		case Json::Bool: o += j.b ? "true" : "false"; break;
		case Json::Int: o += std::to_string(j.i); break;
		case Json::Uint: o += std::to_string(j.u); break;
		case Json::Num: o += numSpelling(j.d, g); break;
		case Json::Str: printStr(o, j.s, g); break;
		case Json::Arr: {
			o += '['; wsp(o, g); bool first = true;
			for (auto& v : j.a) { if (!first) { o += ','; wsp(o, g); } first = false; print(o, v, g); wsp(o, g); }
			o += ']'; break;
		}
		case Json::Obj: {
			o += '{'; wsp(o, g);
			std::vector<size_t> idx(j.o.size());
			for (size_t k = 0; k < idx.size(); ++k) idx[k] = k;
			if (g && g->on(4) && idx.size() > 1 && g->draw(2) != 0) for (size_t k = idx.size() - 1; k > 0; --k) std::swap(idx[k], idx[k - g->draw(k)]);
			bool first = true;
			for (auto k : idx) { if (!first) { o += ','; wsp(o, g); } first = false; printStr(o, j.o[k].first, g); wsp(o, g); o += ':'; wsp(o, g); print(o, j.o[k].second, g); wsp(o, g); }
			o += '}'; break;
		}
	}
}
std::string text(const Json& j) { std::string o; print<NoFmt>(o, j, nullptr); return o; }
std::string textWith(const Json& j, pbt::Gen& g) { Fmt f{g.draw(0xffff), static_cast<unsigned>(g.draw(15))}; std::string o; wsp(o, &f); print(o, j, &f); wsp(o, &f); return o; }

// ---- comparison; tol = relative tolerance for non-integer numbers
inline bool numEq(const Json& x, const Json& y, double tol) {
	if (x.t != Json::Num && y.t != Json::Num) return x.t == y.t && x.i == y.i && x.u == y.u;
	double a = x.num(), b = y.num();
	if (a == b || (a != a && b != b)) return true;
	return std::fabs(a - b) <= tol * std::max(std::fabs(a), std::fabs(b));
}
// first difference as text ("" when equal); objects compare as maps
std::string diff(const Json& got, const Json& want, double tol, const std::string& path) {
	auto say = [&] { return path + ": got " + text(got).substr(0, 300) + " expected " + text(want).substr(0, 300); };
	if (got.isNum() && want.isNum()) return numEq(got, want, tol) ? "" : say();
	if (got.t != want.t) return say();
	switch (got.t) {
		case Json::Bool: return got.b == want.b ? "" : say();
		case Json::Str: return got.s == want.s ? "" : say();
		case Json::Arr: {
			if (got.a.size() != want.a.size()) return path + ": got " + std::to_string(got.a.size()) + " elements, expected " + std::to_string(want.a.size()) + "; " + say();
			for (size_t k = 0; k < got.a.size(); ++k) { auto r = diff(got.a[k], want.a[k], tol, path + "[" + std::to_string(k) + "]"); if (!r.empty()) return r; }
			return "";
		}
		case Json::Obj: {
			for (auto& [k, v] : want.o) { auto* x = got.find(k); if (!x) return path + "." + k + ": missing, expected " + text(v).substr(0, 300); auto r = diff(*x, v, tol, path + "." + k); if (!r.empty()) return r; }
			for (auto& [k, v] : got.o) if (!want.find(k)) return path + "." + k + ": unexpected " + text(v).substr(0, 300);
			return "";
		}
		default: return "";
	}
}
#endif
} // namespace js

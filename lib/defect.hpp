// One structural defect planted at a random place of a valid document.
#pragma once
#include "gen_gltf.hpp"
namespace gg {
struct Defect { std::string key, what, near; bool inExt = false; };
Defect plantDefect(Json& root, Gen& g); // may throw Discard
#ifdef PBT_GEN
using pbt::Discard;
struct Site { Json* parent; std::string member; size_t index; const Ty* ty; bool req; };
using Sites = std::map<std::string, std::vector<Site>>;

static void walkVal(Json& v, const Ty& t, const std::string& key, Sites& out);
static void walkObj(Json& o, const gs::Schema& s, Sites& out) {
	for (auto& f : s.f) {
		if (f.key == "name" && s.name != "variant") continue;
		if (f.ext.empty()) {
			auto* v = o.find(f.key); if (!v) continue;
			std::string k = s.name + "." + f.key;
			bool need = f.req || (s.name == "camera" && f.key == o.at("type").s) || (s.name == "light" && f.key == "spot" && o.at("type").s == "spot");
			out[k].push_back({&o, f.key, 0, &f.ty, need}); walkVal(*v, f.ty, k, out);
		} else if (auto* ex = o.find("extensions")) {
			auto* v = ex->find(f.ext); if (!v) continue;
			out[s.name + ".extensions." + f.ext].push_back({ex, f.ext, 0, &f.ty, false}); walkVal(*v, f.ty, f.ext, out);
		}
	}
	static const Ty obj = [] { Ty t; t.k = Ty::Map; return t; }();
	if (o.find("extensions")) out[s.name + ".extensions"].push_back({&o, "extensions", 0, &obj, false});
}
static void walkVal(Json& v, const Ty& t, const std::string& key, Sites& out) {
	if (t.k == Ty::Obj) walkObj(v, *t.s, out);
	if (t.k == Ty::Arr) for (size_t i = 0; i < v.a.size(); ++i) { out[key + "[]"].push_back({&v, "", i, t.elem.get(), false}); walkVal(v.a[i], *t.elem, key + "[]", out); }
	if (t.k == Ty::Map) for (auto& kv : v.o) { out[key + "{}"].push_back({&v, kv.first, 0, t.elem.get(), false}); walkVal(kv.second, *t.elem, key + "{}", out); }
}
static Json wrongType(Gen& g, const Ty& t) {
	std::vector<Json> c;
	auto arr = Json::arr(), obj = Json::obj(), arr1 = Json::arr(); arr1.push(Json(0u));
	bool isArr = t.k == Ty::Arr, isObj = t.k == Ty::Obj || t.k == Ty::Map, isStr = t.k == Ty::Str || t.k == Ty::EnumS, isBool = t.k == Ty::Bool, isNum = t.k == Ty::Num || t.k == Ty::Dbl, isUint = t.k == Ty::Uint || t.k == Ty::Ref || t.k == Ty::EnumI;
	c.push_back(Json()); // null
	if (!isArr) { c.push_back(arr); c.push_back(arr1); }
	if (!isObj) c.push_back(obj);
	if (!isStr) { c.push_back(Json("0")); c.push_back(Json("")); }
	if (!isBool) { c.push_back(Json(true)); c.push_back(Json(false)); }
	if (!isNum && !isUint) { c.push_back(Json(0u)); c.push_back(Json(2.5)); }
	if (isUint) { c.push_back(Json(1.5)); c.push_back(Json(static_cast<int64_t>(-1))); c.push_back(Json(1e30)); c.push_back(Json(-0.5)); c.push_back(Json(-1e300)); }
	return g.pick(c);
}


Defect plantDefect(Json& root, Gen& g) {
	auto& sp = gs::spec();
	Sites sites;
	static const Ty objT = [] { Ty t; t.k = Ty::Map; return t; }(), strT = gs::S(), uintT = gs::U(), strArr = gs::A(gs::S());
	static std::map<std::string, Ty> arrTys;
	sites["asset"].push_back({&root, "asset", 0, &objT, true}); walkObj(root["asset"], sp["asset"], sites);
	for (auto& [k, s] : sp.arrays) if (auto* v = root.find(k)) { auto& t = arrTys[k]; t = gs::A(gs::O(sp[s])); sites[k].push_back({&root, k, 0, &t, false}); walkVal(*v, t, k, sites); }
	if (root.find("scene")) sites["scene"].push_back({&root, "scene", 0, &uintT, false});
	for (auto k : {"extensionsUsed", "extensionsRequired"}) if (auto* v = root.find(k)) { sites[k].push_back({&root, k, 0, &strArr, false}); walkVal(*v, strArr, k, sites); }
	if (auto* ex = root.find("extensions")) {
		sites["extensions"].push_back({&root, "extensions", 0, &objT, false});
		for (auto& [e, k, s] : sp.extArrays) if (auto* x = ex->find(e)) {
			// (a root extension value that is no object is skipped by design)
			if (auto* v = x->find(k)) { auto& t = arrTys[k]; t = gs::A(gs::O(sp[s])); sites[e + "." + k].push_back({x, k, 0, &t, k == "lights" || k == "variants" || k == "shapes"}); walkVal(*v, t, k, sites); }
		}
	}
	// rarely present kinds first: every kind present in the document is equally likely
	auto inExt = [](const std::string& k) { for (auto p : {"KHR_", "EXT_", "MSFT_"}) if (k.find(p) != std::string::npos) return true; return false; };
	bool wantExt = g.flip(); std::vector<std::string> keys;
	for (auto& kv : sites) if (inExt(kv.first) == wantExt) keys.push_back(kv.first);
	if (keys.empty()) for (auto& kv : sites) keys.push_back(kv.first);
	std::string key = keys[g.draw(keys.size() - 1)];
	auto& list = sites[key]; Site s = list[g.draw(list.size() - 1)];
	Json& v = s.member.empty() ? s.parent->a[s.index] : *s.parent->find(s.member);
	std::string what;
	std::vector<int> kinds{0}; // 0 type, 1 delete, 2 enum, 3 length
	if (s.req) kinds.push_back(1);
	// mime types are open ended: an image may use any, the library keeps the ones it knows
	bool open = key == "image.mimeType";
	if ((s.ty->k == Ty::EnumS && !open) || s.ty->k == Ty::EnumI) { kinds.push_back(2); kinds.push_back(2); }
	if (s.ty->k == Ty::Arr && s.ty->lo == s.ty->hi) { kinds.push_back(3); kinds.push_back(3); }
	switch (kinds[g.draw(kinds.size() - 1)]) {
		case 0: { what = "type"; Json w = wrongType(g, *s.ty); v = w; break; }
		case 1: what = "missing"; s.parent->erase(s.member); break;
		case 2:
			what = "enum";
			if (s.ty->k == Ty::EnumS) { auto base = v.s; static const std::vector<std::string> odd{"", "X", "scalar", "VEC5", "VEC1", "MAT1", "MAT5", "S", "VEC", "SCALARS", "linear ", "mask", "OPAQU", "force1", "spot\0light", "image/gif", "pointlight", "LINEA"}; Json w = g.chance(1, 3) ? Json(unknownName(g, g.flip() ? base : g.pick(s.ty->es))) : g.flip() ? Json(g.pick(odd)) : Json(g.flip() ? base + "x" : g.flip() ? base.substr(0, base.size() - 1) : base + std::string(1, '\0')); for (auto& e : s.ty->es) if (e == w.s) throw Discard{}; v = w; }
			else { static const std::vector<uint64_t> odd{0, 1, 7, 255, 256, 5119, 5124, 5127, 5130, 9727, 9988, 10496, 34961, 34964, 65536, 4294967296ull, 34962ull + 65536, 5126ull + 65536, 4ull + 256, 4ull + 65536, 9728ull + 65536, 10497ull + 65536, 5126ull + (1ull << 32)}; uint64_t w = g.pick(odd); for (auto e : s.ty->ei) if (e == w) throw Discard{};
				if (key == "accessor.componentType" && (w == 5124 || w == 5130)) throw Discard{}; // signed int is a documented addition, double an extension that is enabled here
				v = Json(w); }
			break;
		default:
			what = "length";
			if (g.flip() && !v.a.empty()) { size_t n = g.draw(v.a.size() - 1); v.a.resize(n); } else { Json e = v.a.back(); size_t n = 1 + g.draw(2); for (size_t i = 0; i < n; ++i) v.a.push_back(e); }
	}
	return {key, what, js::text(*s.parent).substr(0, 300), inExt(key)};
}
#endif
} // namespace gg

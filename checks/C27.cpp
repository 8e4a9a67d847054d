// C27: the bounds of an accessor are the extremes of the values added to them, in memory, in exports and after reloading.
#include <lib/accessor.hpp>
#include <lib/dump.hpp>
#include <lib/json.hpp>
using namespace pbt;
namespace fg = fastgltf; namespace fm = fg::math;
using js::Json; using B = fg::AccessorBoundsArray;

template <class T> static T number(Gen& g, bool wide) {
	if constexpr (std::is_same_v<T, double>) {
		switch (g.draw(7)) {
			case 0: return static_cast<double>(static_cast<int64_t>(g.draw(20)) - 10);
			case 1: return static_cast<double>(static_cast<int64_t>(g.draw(2000)) - 1000) / 8;
			case 2: return -0.0;
			case 3: return g.pick({1e-320, -1e-320, 5e-324, 1e300, -1e300, 0.1, -0.1, 1.0 / 3, 3.4028234663852886e38, -3.4028234663852886e38, 9007199254740993.0, 123456789.125});
			case 4: return static_cast<double>(g.draw(1000)) + 1; // positive
			case 5: return -static_cast<double>(g.draw(1000)) - 1; // negative
			default: { uint64_t b = g.draw(~0ull); double d; memcpy(&d, &b, 8); return std::isfinite(d) ? d : 1; }
		}
	} else {
		switch (g.draw(4)) {
			case 0: return static_cast<int64_t>(g.draw(20)) - 10;
			case 1: return static_cast<int64_t>(g.draw(70000)) + 1;
			case 2: return -static_cast<int64_t>(g.draw(70000)) - 1;
			case 3: return wide ? g.pick({INT64_MIN, INT64_MAX, INT64_MAX - 1, INT64_MIN + 1, int64_t(0)}) : g.pick({int64_t(-2147483647) - 1, int64_t(2147483647), int64_t(4294967295), int64_t(0)});
			default: return wide ? static_cast<int64_t>(g.draw(~0ull)) : static_cast<int64_t>(g.draw(0xffffffff));
		}
	}
}
template <class T> static std::string show(const std::vector<T>& v) { std::string s; for (auto x : v) { char b[40]; if constexpr (std::is_same_v<T, double>) snprintf(b, 40, "%.17g ", x); else snprintf(b, 40, "%lld ", static_cast<long long>(x)); s += b; } return s; }
template <class T> static void add(fg::Accessor& a, const std::vector<T>& v) {
	switch (v.size()) {
		case 1: a.updateBoundsToInclude(v[0]); break;
		case 2: a.updateBoundsToInclude(fm::vec<T, 2>(v[0], v[1])); break;
		case 3: a.updateBoundsToInclude(fm::vec<T, 3>(v[0], v[1], v[2])); break;
		default: a.updateBoundsToInclude(fm::vec<T, 4>(v[0], v[1], v[2], v[3]));
	}
}
template <class T> struct Model { bool any = false; std::vector<T> mn, mx; };
template <class T> static void grow(std::vector<T>& b, const std::vector<T>& v, bool up) { if (b.empty()) { b = v; return; } for (size_t i = 0; i < v.size(); ++i) if (up ? v[i] > b[i] : v[i] < b[i]) b[i] = v[i]; }
template <class T> static void is(const std::optional<B>& b, const std::vector<T>& want, const char* tag) {
	require(b.has_value() == !want.empty(), tag, [&] { return b.has_value() ? std::string("bounds without any value") : "no bounds"; }); if (!b.has_value()) return;
	require(b->isType<T>() && b->type() == (std::is_same_v<T, double> ? B::BoundsType::float64 : B::BoundsType::int64), tag, "bounds of the other number type");
	require(b->size() == want.size(), tag, [&] { return std::to_string(b->size()) + " components instead of " + std::to_string(want.size()); });
	for (size_t i = 0; i < want.size(); ++i) require(b->get<T>(i) == want[i] && b->data<T>()[i] == want[i], tag, [&] { return "component " + std::to_string(i) + " is " + show(std::vector<T>{b->get<T>(i)}) + "instead of " + show(std::vector<T>{want[i]}); });
}
template <class T> static B array(const std::vector<T>& v) { auto b = B::ForType<T>(v.size()); for (size_t i = 0; i < v.size(); ++i) b.template set<T>(i, v[i]); return b; }
template <class T> static void history(Gen& g) {
	size_t n = 1 + g.draw(3), steps = g.size(12); fg::Accessor a; std::vector<T> mn, mx; std::string note = std::string(std::is_same_v<T, double> ? "double x" : "int64 x") + std::to_string(n) + ": ";
	auto value = [&] { std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(number<T>(g, true)); return v; };
	// bounds that are there already: both, one of them or none
	unsigned have = g.chance(1, 3) ? static_cast<unsigned>(g.draw(3)) : 0;
	if (have == 3) { auto x = value(), y = value(); mn = x; mx = y; for (size_t i = 0; i < n; ++i) { if (mn[i] > mx[i]) std::swap(mn[i], mx[i]); } g.label("bounds before"); }
	else if (have == 1) mn = value(); else if (have == 2) mx = value();
	if (have & 1) { a.min = array(mn); note += "min before " + show(mn); } if (have & 2) { a.max = array(mx); note += "max before " + show(mx); } if (have == 1 || have == 2) g.label("one bound before");
	is<T>(a.min, mn, "before"); is<T>(a.max, mx, "before");
	std::vector<std::vector<T>> all; auto mn0 = mn, mx0 = mx;
	for (size_t k = 0; k < steps; ++k) {
		auto v = !all.empty() && g.chance(1, 6) ? g.pick(all) : value(); all.push_back(v); note += "| " + show(v); g.note(note);
		add(a, v); grow(mn, v, false); grow(mx, v, true); is<T>(a.min, mn, "min"); is<T>(a.max, mx, "max");
		if (g.chance(1, 5)) { fg::Accessor b(std::move(a)); is<T>(b.min, mn, "moved"); if (g.flip()) a = std::move(b); else { fg::Accessor c; if (g.flip()) { c.min = B::ForType<double>(2); c.max = B::ForType<std::int64_t>(5); } c = std::move(b); is<T>(c.min, mn, "move-assigned"); is<T>(c.max, mx, "move-assigned"); if (g.flip()) a = fg::Accessor(); a = std::move(c); } is<T>(a.min, mn, "move-assigned"); is<T>(a.max, mx, "move-assigned"); g.label("moved"); }
	}
	if (steps > 1) g.nontrivial(); g.key(hashStr(note)); if (steps && std::all_of(all.begin(), all.end(), [](auto& v) { return v[0] > 0; })) g.label("all positive"); if (steps && std::all_of(all.begin(), all.end(), [](auto& v) { return v[0] < 0; })) g.label("all negative");
	// in another order
	for (size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[g.draw(i - 1)]);
	fg::Accessor b; if (have & 1) b.min = array(mn0); if (have & 2) b.max = array(mx0); for (auto& v : all) add(b, v); is<T>(b.min, mn, "order"); is<T>(b.max, mx, "order");
}
PROPERTY(included, 30000, 3000000) { if (g.flip()) history<double>(g); else history<std::int64_t>(g); }

// bounds of the elements of an accessor, exported and loaded again
template <class T> static void same(const Json* j, const std::vector<T>& want, const std::string& text) {
	require(j && j->isArr() && j->a.size() == want.size(), "exported", [&] { return "bounds missing or of the wrong length in " + text; });
	for (size_t i = 0; i < want.size(); ++i) {
		bool ok; if constexpr (std::is_same_v<T, double>) ok = j->a[i].isNum() && j->a[i].num() == want[i]; else ok = js::text(j->a[i]) == std::to_string(want[i]);
		require(ok, "exported", [&] { return "component " + std::to_string(i) + " is " + js::text(j->a[i]) + " instead of " + show(std::vector<T>{want[i]}); });
	}
}
template <class T> static void writeRead(Gen& g, fg::Asset& asset, fg::Accessor&& acc, size_t comp, const std::vector<T>& mn, const std::vector<T>& mx) {
	asset.accessors.emplace_back(std::move(acc)); fg::Exporter e; auto opt = g.flip() ? fg::ExportOptions::PrettyPrintJson : fg::ExportOptions::None;
	auto r = e.writeGltfJson(asset, opt); require(r.error() == fg::Error::None, "export", [&] { return dp::err(r.error()); }); auto& text = r.get().output; g.note(text);
	Json j; std::string er; require(js::parse(text, j, er), "json", [&] { return er; }); auto* l = j.find("accessors"); require(l && l->isArr() && l->a.size() == 1, "json", "no accessor"); same<T>(l->a[0].find("min"), mn, text); same<T>(l->a[0].find("max"), mx, text);
	fg::Parser p; auto b = dp::bytes(text); auto a = p.loadGltfJson(b, "", comp == 7 ? fg::Options::AllowDouble : fg::Options::None); require(a.error() == fg::Error::None, "reload", [&] { return dp::err(a.error()); });
	require(a->accessors.size() == 1, "reload", "no accessor"); is<T>(a->accessors[0].min, mn, "reloaded min"); is<T>(a->accessors[0].max, mx, "reloaded max");
}
PROPERTY(elements, 8000, 800000) {
	ac::withType(g, [&](auto* ptr) {
		using E = std::remove_pointer_t<decltype(ptr)>; using T = typename fg::ElementTraits<E>::component_type; constexpr size_t n = fg::getNumComponents(fg::ElementTraits<E>::type);
		if constexpr (n > 4 || fg::isMatrix(fg::ElementTraits<E>::type)) throw Discard{};
		else {
			using W = std::conditional_t<std::is_floating_point_v<T>, double, std::int64_t>;
			size_t comp = ac::destComp<E>(); ac::Case c; ac::Want w; ac::make(g, c, ac::typeIndex<E>(), comp, comp, false, w); auto mx0 = std::vector<W>(), mn0 = mx0; c.acc.normalized = false;
			for (auto& e : c.elems) { std::vector<W> v; for (auto& x : e) v.push_back(x.real ? static_cast<W>(x.d) : static_cast<W>(x.i)); grow(mn0, v, false); grow(mx0, v, true); }
			fg::Accessor out; bool bad = false; for (auto& row : c.elems) for (auto& x : row) bad |= x.real && !std::isfinite(x.d);
			if (bad) throw Discard{};
			fg::iterateAccessor<E>(c.asset, c.acc, [&](const E& e) { T got[16]; memcpy(got, &e, n * sizeof(T)); std::vector<W> v; for (size_t k = 0; k < n; ++k) v.push_back(static_cast<W>(got[k])); add(c.acc, v); });
			is<W>(c.acc.min, mn0, "min of the elements"); is<W>(c.acc.max, mx0, "max of the elements"); g.nontrivial();
			auto acc = std::move(c.acc); writeRead<W>(g, c.asset, std::move(acc), comp, mn0, mx0);
		}
	});
}
// any bounds, also of matrices
template <class T> static void anyBounds(Gen& g) {
	size_t t = g.draw(6), comp = std::is_same_v<T, double> ? 6 + g.draw(1) : g.draw(5), n = ac::typeComps[t]; std::vector<T> mn, mx; for (size_t i = 0; i < n; ++i) { mn.push_back(number<T>(g, true)); mx.push_back(number<T>(g, true)); }
	fg::Asset as; fg::Accessor a; a.type = ac::types[t]; a.componentType = ac::comps[comp]; a.count = 1 + g.draw(9); a.normalized = false; a.byteOffset = 0;
	if (g.chance(1, 5)) mn.clear(); else a.min = array(mn); if (g.chance(1, 5)) mx.clear(); else a.max = array(mx);
	g.key(hashStr(show(mn) + show(mx))); g.nontrivial(n > 1); g.label(ac::typeNames[t]);
	as.accessors.emplace_back(std::move(a)); fg::Exporter e; auto r = e.writeGltfJson(as); require(r.error() == fg::Error::None, "export", "refused"); auto& text = r.get().output; g.note(text);
	Json j; std::string er; require(js::parse(text, j, er), "json", [&] { return er; }); auto* l = j.find("accessors"); require(l && l->a.size() == 1, "json", "no accessor"); auto& o = l->a[0];
	if (mn.empty()) require(!o.find("min"), "exported", "min out of nothing"); else same<T>(o.find("min"), mn, text); if (mx.empty()) require(!o.find("max"), "exported", "max out of nothing"); else same<T>(o.find("max"), mx, text);
	fg::Parser p; auto b = dp::bytes(text); auto x = p.loadGltfJson(b, "", fg::Options::AllowDouble); require(x.error() == fg::Error::None, "reload", [&] { return dp::err(x.error()); }); is<T>(x->accessors[0].min, mn, "reloaded min"); is<T>(x->accessors[0].max, mx, "reloaded max");
}
PROPERTY(written, 10000, 1000000) { if (g.flip()) anyBounds<double>(g); else anyBounds<std::int64_t>(g); }

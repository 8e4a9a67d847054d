// C18: iteration and bulk copies deliver the elements that element access delivers, and write nothing else.
#include <lib/accessor.hpp>
using namespace pbt;
namespace fg = fastgltf;

template <typename E> static bool sameElem(const E& a, const E& b) { using T = typename fg::ElementTraits<E>::component_type; return memcmp(&a, &b, sizeof(T) * fg::getNumComponents(fg::ElementTraits<E>::type)) == 0; }
template <typename E> static std::string hexOf(const E& e) { return pbt::hex(reinterpret_cast<const uint8_t*>(&e), sizeof(E), 128); }

// destination memory with a known background
struct Dest {
	std::vector<uint64_t> mem; std::vector<uint8_t> before; uint8_t* p; size_t n;
	explicit Dest(size_t n, uint8_t lead) : mem(n / 8 + 10), n(n) { auto* b = reinterpret_cast<uint8_t*>(mem.data()); for (size_t i = 0; i < mem.size() * 8; ++i) b[i] = static_cast<uint8_t>(i * 37 + 11) | 1; p = b + lead; before.assign(b, b + mem.size() * 8); }
	// every byte outside the ranges [i*stride, i*stride+size) is as before
	void check(size_t count, size_t stride, size_t size, const char* tag) {
		auto* b = reinterpret_cast<uint8_t*>(mem.data()); size_t lead = static_cast<size_t>(p - b);
		for (size_t i = 0; i < before.size(); ++i) { bool in = i >= lead && (i - lead) / stride < count && (i - lead) % stride < size; if (!in) require(b[i] == before[i], tag, [&] { return "byte " + std::to_string(static_cast<long>(i) - static_cast<long>(lead)) + " of the destination was written (" + std::to_string(count) + " elements of " + std::to_string(size) + " bytes every " + std::to_string(stride) + ")"; }); }
	}
};
template <typename E, size_t Stride, typename A> static void copyTest(Gen& g, const ac::Case& c, const std::vector<E>& ref, const A& adapter) {
	Dest d(ref.size() * Stride, static_cast<uint8_t>(alignof(E) * g.draw(16 / alignof(E)))); g.label(Stride == sizeof(E) ? "contiguous copy" : "strided copy");
	fg::copyFromAccessor<E, Stride>(c.asset, c.acc, d.p, adapter);
	for (size_t i = 0; i < ref.size(); ++i) { E e; memcpy(static_cast<void*>(&e), d.p + i * Stride, sizeof(E)); require(sameElem(e, ref[i]), c.sparse ? "copy of a sparse accessor" : !c.view ? "copy without a view" : c.acc.normalized ? "normalized copy" : "copy", [&] { return "element " + std::to_string(i) + " copied as " + hexOf(e) + " instead of " + hexOf(ref[i]); }); }
	d.check(ref.size(), Stride, sizeof(E), "copy writes elsewhere");
}
template <typename T, typename A> static void componentsTest(Gen& g, const ac::Case& c, const A& adapter) {
	size_t n = ac::typeComps[c.type]; Dest d(c.elems.size() * n * sizeof(T), static_cast<uint8_t>(sizeof(T) * g.draw(16 / sizeof(T)))); g.label("components");
	fg::copyComponentsFromAccessor<T>(c.asset, c.acc, d.p, adapter);
	for (size_t i = 0; i < c.elems.size(); ++i) for (size_t k = 0; k < n; ++k) { T got; memcpy(&got, d.p + (i * n + k) * sizeof(T), sizeof(T)); auto s = ac::judge<T>(c.elems[i][k], c.comp, c.acc.normalized, got); require(s.empty(), !c.view ? "components without a view" : "components", [&] { return "component " + std::to_string(k) + " of element " + std::to_string(i) + " " + s; }); }
	d.check(c.elems.size() * n, sizeof(T), sizeof(T), "components written elsewhere");
}
template <typename E, typename A> static void all(Gen& g, const ac::Case& c, const A& adapter) {
	std::vector<E> ref; ref.reserve(c.elems.size()); for (size_t i = 0; i < c.elems.size(); ++i) ref.push_back(fg::getAccessorElement<E>(c.asset, c.acc, i, adapter));
	auto at = [&](const E& e, size_t i, const char* tag) { require(i < ref.size(), tag, [&] { return "delivers more than " + std::to_string(ref.size()) + " elements"; }); require(sameElem(e, ref[i]), tag, [&] { return "element " + std::to_string(i) + " delivered as " + hexOf(e) + " instead of " + hexOf(ref[i]); }); };
	auto end = [&](size_t n, const char* tag) { require(n == ref.size(), tag, [&] { return "delivered " + std::to_string(n) + " of " + std::to_string(ref.size()) + " elements"; }); };
	{ size_t n = 0; fg::iterateAccessor<E>(c.asset, c.acc, [&](E e) { at(e, n, "callback"); ++n; }, adapter); end(n, "callback"); }
	{ size_t n = 0; fg::iterateAccessorWithIndex<E>(c.asset, c.acc, [&](E e, size_t i) { require(i == n, "indexed callback", [&] { return "index " + std::to_string(i) + " instead of " + std::to_string(n); }); at(e, n, "indexed callback"); ++n; }, adapter); end(n, "indexed callback"); }
	{ // iterators
		auto r = fg::iterateAccessor<E>(c.asset, c.acc, adapter); auto it = r.begin(), stop = r.end();
		require(stop - it == static_cast<std::ptrdiff_t>(ref.size()), "distance", "end - begin is not the count");
		int style = static_cast<int>(g.draw(4)); size_t n = 0;
		if (style == 0) { for (auto&& e : r) { at(e, n, "range"); ++n; } end(n, "range"); }
		else if (style == 1) { while (it != stop) { at(*it++, n, "post-increment"); ++n; } end(n, "post-increment"); }
		else { // a history of moves, reads and copies of iterators
			g.label("iterator history"); std::vector<std::pair<decltype(it), size_t>> live{{it, 0}}; size_t steps = 3 + g.draw(60), mark = 0;
			for (size_t s = 0; s < steps; ++s) {
				auto& [x, pos] = live[g.draw(live.size() - 1)];
				switch (g.weighted({5, 3, 1, 1, 1})) {
					case 0: if (pos < ref.size()) { at(*x, pos, "iterator"); ++mark; } break;
					case 1: for (size_t k = 1 + g.draw(c.overlaid.empty() || !g.chance(1, 4) ? 3 : c.overlaid.back() + 1); k && pos < ref.size(); --k) { ++x; ++pos; } break;
					case 2: if (live.size() < 4) { auto copy = live[g.draw(live.size() - 1)]; live.push_back(copy); } break;
					case 3: { auto from = live[g.draw(live.size() - 1)]; x = from.first; pos = from.second; break; }
					default: require((x == stop) == (pos == ref.size()), "end", "comparison with the end is wrong"); require(stop - x == static_cast<std::ptrdiff_t>(ref.size() - pos), "distance", "distance to the end is wrong"); require((x == live[0].first) == (pos == live[0].second), "equality", "iterators at different positions are equal or at equal ones are not");
				}
			}
		}
	}
	switch (g.draw(3)) {
		case 0: copyTest<E, sizeof(E)>(g, c, ref, adapter); break;
		case 1: copyTest<E, sizeof(E) + alignof(E)>(g, c, ref, adapter); break;
		case 2: copyTest<E, sizeof(E) * 2 + alignof(E) * 3>(g, c, ref, adapter); break;
		default: if constexpr (sizeof(E) <= 32) copyTest<E, 32>(g, c, ref, adapter); else copyTest<E, 128>(g, c, ref, adapter);
	}
}
PROPERTY(elements, 24000, 800000) {
	ac::withType(g, [&](auto* tag) {
		using E = std::remove_pointer_t<decltype(tag)>; bool own = g.chance(1, 5); size_t dest = ac::destComp<E>(), comp = g.chance(2, 5) ? dest : g.draw(7);
		ac::Case c; ac::make(g, c, ac::typeIndex<E>(), comp, dest, own);
		if (own) all<E>(g, c, ac::Adapter{&c}); else all<E>(g, c, fg::DefaultBufferDataAdapter{});
	});
}
PROPERTY(components, 12000, 400000) {
	size_t dest = g.draw(7), comp = g.chance(1, 3) ? dest : g.draw(7), type = g.draw(6); bool own = g.chance(1, 5); ac::Case c; ac::Want w; w.sparseAllowed = false; ac::make(g, c, type, comp, dest, own, w);
	auto run = [&](auto adapter) {
		switch (dest) {
			case 0: componentsTest<std::int8_t>(g, c, adapter); break; case 1: componentsTest<std::uint8_t>(g, c, adapter); break; case 2: componentsTest<std::int16_t>(g, c, adapter); break; case 3: componentsTest<std::uint16_t>(g, c, adapter); break;
			case 4: componentsTest<std::int32_t>(g, c, adapter); break; case 5: componentsTest<std::uint32_t>(g, c, adapter); break; case 6: componentsTest<float>(g, c, adapter); break; default: componentsTest<double>(g, c, adapter);
		}
	};
	if (own) run(ac::Adapter{&c}); else run(fg::DefaultBufferDataAdapter{});
}

// C17: reading an accessor element yields the value the specification assigns to it.
#if __has_include(<glm/glm.hpp>)
#define AC_FOREIGN_TYPES // the traits shipped for GLM and DirectXMath
#endif
#include <lib/accessor.hpp>
using namespace pbt;
namespace fg = fastgltf;

PROPERTY(element_access, 40000, 1500000) {
	ac::withType(g, [&](auto* tag) {
		using E = std::remove_pointer_t<decltype(tag)>; bool own = g.chance(1, 5); size_t dest = ac::destComp<E>(), comp = g.chance(1, 3) ? dest : g.draw(7);
		ac::Case c; ac::make(g, c, ac::typeIndex<E>(), comp, dest, own);
		// a value type made of components of its own width
		if constexpr (std::is_class_v<E>) { size_t rest = sizeof(E) / ac::typeComps[c.type]; require(rest == ac::compBytes[dest], "traits", [&] { return std::string("component type of the traits does not match the element type"); }); }
		std::vector<size_t> idx; if (c.elems.size() <= 400) for (size_t i = 0; i < c.elems.size(); ++i) idx.push_back(i); else { for (size_t k = 0; k < 40; ++k) idx.push_back(g.draw(c.elems.size() - 1)); for (size_t k = 0; k < std::min<size_t>(60, c.overlaid.size()); ++k) { size_t o = c.overlaid[k]; idx.push_back(o); if (o + 1 < c.elems.size()) idx.push_back(o + 1); if (o + 256 < c.elems.size()) idx.push_back(o + 256); if (o + 65536 < c.elems.size()) idx.push_back(o + 65536); } idx.push_back(c.elems.size() - 1); }
		if (g.flip()) std::reverse(idx.begin(), idx.end());
		for (size_t i : idx) {
			E e = own ? fg::getAccessorElement<E>(c.asset, c.acc, i, ac::Adapter{&c}) : fg::getAccessorElement<E>(c.asset, c.acc, i);
			auto s = ac::judgeElement<E>(c, i, e); require(s.empty(), c.sparse ? "sparse element" : !c.view ? "no view" : "element", [&] { return s; });
		}
	});
}

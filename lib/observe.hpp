// What the reading tools say of an asset, as JSON: every element of every accessor and every node of every scene.
#pragma once
#include <lib/dump.hpp>
#include <fastgltf/tools.hpp>
namespace observe {
namespace fg = fastgltf; using js::Json;
static bool readable(const fg::Asset& a, size_t view) { // the bytes of a view are there
	if (view >= a.bufferViews.size()) return false;
	auto& v = a.bufferViews[view]; if (v.meshoptCompression || v.bufferIndex >= a.buffers.size()) return false;
	size_t n; auto* p = dp::dataPtr(a.buffers[v.bufferIndex].data, n); return p && v.byteOffset + v.byteLength <= n;
}
template <class T, size_t N> static void elements(const fg::Asset& a, const fg::Accessor& x, Json& out) {
	std::vector<T> copy(x.count); if (x.count < 64) fg::copyFromAccessor<T>(a, x, copy.data());
	size_t at = 0;
	fg::iterateAccessorWithIndex<T>(a, x, [&](const T& v, size_t i) {
		if (i != at++) out.push("order");
		if (x.count < 64) { auto w = fg::getAccessorElement<T>(a, x, i); if (std::memcmp(&v, &w, sizeof(T)) || std::memcmp(&v, &copy[i], sizeof(T))) out.push("differs"); }
		const float* f = reinterpret_cast<const float*>(&v); for (size_t k = 0; k < N; ++k) { uint32_t u; std::memcpy(&u, f + k, 4); out.push(f[k] != f[k] ? Json("nan") : Json(static_cast<uint64_t>(u))); }
	});
	size_t n = 0; for (auto&& v : fg::iterateAccessor<T>(a, x)) { (void)v; ++n; } if (n != x.count) out.push("range");
}
template <class T> static void indices(const fg::Asset& a, const fg::Accessor& x, Json& out) { fg::iterateAccessor<T>(a, x, [&](T v) { out.push(Json(static_cast<uint64_t>(v))); }); }
static Json accessors(const fg::Asset& a) {
	auto all = Json::arr();
	for (auto& x : a.accessors) {
		auto out = Json::arr();
		bool ok = x.count < 4096 && (!x.bufferViewIndex.has_value() || readable(a, *x.bufferViewIndex));
		if (x.sparse.has_value()) ok = ok && readable(a, x.sparse->indicesBufferView) && readable(a, x.sparse->valuesBufferView);
		if (ok) switch (x.type) {
			case fg::AccessorType::Scalar:
				if (x.componentType == fg::ComponentType::Float || x.componentType == fg::ComponentType::Double || x.normalized) elements<float, 1>(a, x, out);
				else if (x.componentType != fg::ComponentType::Byte && x.componentType != fg::ComponentType::Short) indices<uint32_t>(a, x, out);
				break;
			case fg::AccessorType::Vec2: elements<fg::math::fvec2, 2>(a, x, out); break;
			case fg::AccessorType::Vec3: elements<fg::math::fvec3, 3>(a, x, out); break;
			case fg::AccessorType::Vec4: elements<fg::math::fvec4, 4>(a, x, out); break;
			case fg::AccessorType::Mat2: elements<fg::math::fmat2x2, 4>(a, x, out); break;
			case fg::AccessorType::Mat4: elements<fg::math::fmat4x4, 16>(a, x, out); break;
			default: break;
		}
		all.push(out);
	}
	return all;
}
template <class A> static Json scenes(A& a) {
	auto all = Json::arr();
	for (size_t s = 0; s < a.scenes.size(); ++s) {
		auto out = Json::arr();
		fg::iterateSceneNodes(a, s, fg::math::fmat4x4(), [&](auto& n, const fg::math::fmat4x4& m) {
			auto e = Json::arr(); e.push(Json(static_cast<uint64_t>(&n - a.nodes.data())));
			for (size_t c = 0; c < 4; ++c) for (size_t r = 0; r < 4; ++r) { float f = m[c][r]; uint32_t u; std::memcpy(&u, &f, 4); e.push(Json(static_cast<uint64_t>(f == 0 ? 0 : u))); }
			out.push(e);
		});
		all.push(out);
	}
	return all;
}
} // namespace observe

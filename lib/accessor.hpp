// Accessors over generated data together with the value of every component, computed without fastgltf.
#pragma once
#include <fastgltf/core.hpp>
#include <fastgltf/tools.hpp>
#ifdef AC_FOREIGN_TYPES
#define GLM_FORCE_SIZE_T_LENGTH
#include <glm/glm.hpp>
#include <fastgltf/glm_element_traits.hpp>
#include "directx/DirectXMath.h"
#include "directx/DirectXPackedVector.h"
#include <fastgltf/dxmath_element_traits.hpp>
#endif
#include <pbt/pbt.hpp>
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
// element types of a user
struct OwnVec { float x, y, z; };                       // aggregate
struct OwnRows { double m[9]; };                        // aggregate, rows first
struct OwnClass { float v[2]; OwnClass() : v{0, 0} {} OwnClass(float a, float b) : v{a, b} {} OwnClass(const OwnClass& o) : v{o.v[0], o.v[1]} {} OwnClass& operator=(const OwnClass& o) { v[0] = o.v[0]; v[1] = o.v[1]; return *this; } }; // not trivially copyable
struct OwnRows4 { float m[16]; };
template <> struct fastgltf::ElementTraits<OwnVec> : fastgltf::ElementTraitsBase<OwnVec, fastgltf::AccessorType::Vec3, float> {};
template <> struct fastgltf::ElementTraits<OwnRows> : fastgltf::ElementTraitsBase<OwnRows, fastgltf::AccessorType::Mat3, double, true> {};
template <> struct fastgltf::ElementTraits<OwnRows4> : fastgltf::ElementTraitsBase<OwnRows4, fastgltf::AccessorType::Mat4, float, true> {};
template <> struct fastgltf::ElementTraits<OwnClass> : fastgltf::ElementTraitsBase<OwnClass, fastgltf::AccessorType::Vec2, float> {};
template <typename E> inline constexpr bool rowsFirst = false; // matrices the user stores row by row
template <> inline constexpr bool rowsFirst<OwnRows> = true;
template <> inline constexpr bool rowsFirst<OwnRows4> = true;
#ifdef AC_FOREIGN_TYPES
template <> inline constexpr bool rowsFirst<DirectX::XMFLOAT3X3> = true;
template <> inline constexpr bool rowsFirst<DirectX::XMFLOAT4X4> = true;
#endif
namespace ac {
namespace fg = fastgltf; using pbt::Gen;
inline constexpr fg::ComponentType comps[] = {fg::ComponentType::Byte, fg::ComponentType::UnsignedByte, fg::ComponentType::Short, fg::ComponentType::UnsignedShort, fg::ComponentType::Int, fg::ComponentType::UnsignedInt, fg::ComponentType::Float, fg::ComponentType::Double};
inline const char* const compNames[] = {"s8", "u8", "s16", "u16", "s32", "u32", "f32", "f64"};
inline constexpr size_t compBytes[] = {1, 1, 2, 2, 4, 4, 4, 8};
inline constexpr fg::AccessorType types[] = {fg::AccessorType::Scalar, fg::AccessorType::Vec2, fg::AccessorType::Vec3, fg::AccessorType::Vec4, fg::AccessorType::Mat2, fg::AccessorType::Mat3, fg::AccessorType::Mat4};
inline const char* const typeNames[] = {"SCALAR", "VEC2", "VEC3", "VEC4", "MAT2", "MAT3", "MAT4"};
inline constexpr size_t typeComps[] = {1, 2, 3, 4, 4, 9, 16};
inline size_t rowsOf(size_t t) { return t < 4 ? 0 : t - 2; }
// where component k of an element lies, and the size of an element (columns of matrices start at multiples of four bytes)
inline size_t compOffset(size_t t, size_t c, size_t k) { if (t < 4) return k * compBytes[c]; size_t r = rowsOf(t), col = (r * compBytes[c] + 3) / 4 * 4; return k / r * col + k % r * compBytes[c]; }
inline size_t elemBytes(size_t t, size_t c) { if (t < 4) return typeComps[t] * compBytes[c]; size_t r = rowsOf(t); return r * ((r * compBytes[c] + 3) / 4 * 4); }

// one component: an integer or a real number
struct Value { bool real = false; int64_t i = 0; double d = 0; double num() const { return real ? d : static_cast<double>(i); } };
inline std::string show(const Value& v) { char b[40]; if (v.real) snprintf(b, 40, "%.17g", v.d); else snprintf(b, 40, "%lld", static_cast<long long>(v.i)); return b; }
inline void store(std::byte* p, size_t c, const Value& v) {
	uint64_t bits = 0; size_t n = compBytes[c];
	if (c == 6) { float f = static_cast<float>(v.d); uint32_t u; memcpy(&u, &f, 4); bits = u; } else if (c == 7) memcpy(&bits, &v.d, 8); else bits = static_cast<uint64_t>(v.i);
	for (size_t k = 0; k < n; ++k) p[k] = static_cast<std::byte>(bits >> 8 * k & 0xFF);
}
inline int64_t lo(size_t c) { switch (c) { case 0: return -128; case 2: return -32768; case 4: return -2147483648LL; default: return 0; } }
inline int64_t hi(size_t c) { switch (c) { case 0: return 127; case 1: return 255; case 2: return 32767; case 3: return 65535; case 4: return 2147483647; default: return 4294967295LL; } }
inline bool small(size_t c) { return c < 4; }

struct Block { std::unique_ptr<std::byte[]> mem; size_t n = 0; };
struct Case {
	fg::Asset asset; fg::Accessor acc; size_t type = 0, comp = 0; std::vector<std::vector<Value>> elems; // what each element is
	std::vector<Block> blocks; bool view = false, sparse = false; size_t stride = 0; std::vector<size_t> bytesOfView; // view -> block, for adapters of our own
	std::vector<size_t> overlaid;
};
struct Want { bool sparseAllowed = true, noViewAllowed = true; };
// values v with v representable in component type `dest` (so that every conversion is defined)
inline Value value(Gen& g, size_t c, size_t dest, bool normalized, const std::vector<uint64_t>& pool) {
	(void)g; Value v; uint64_t r = pool[0]; const_cast<std::vector<uint64_t>&>(pool)[0] = r * 6364136223846793005ULL + 1442695040888963407ULL; uint64_t x = r >> 16 ^ r << 24;
	bool anyDest = dest >= 6 || dest == c || normalized;
	if (c < 6) {
		int64_t l = anyDest ? lo(c) : std::max(lo(c), lo(dest)), h = anyDest ? hi(c) : std::min(hi(c), hi(dest));
		switch (x % 8) { case 0: v.i = l; break; case 1: v.i = h; break; case 2: v.i = h - 1; break; case 3: v.i = std::min<int64_t>(h, std::max<int64_t>(l, static_cast<int64_t>(x >> 8 & 7) - 3)); break; case 4: v.i = l + 1; break; default: v.i = l + static_cast<int64_t>((x >> 8) % static_cast<uint64_t>(h - l + 1)); }
		return v;
	}
	v.real = true;
	if (dest < 6) { // stays inside the integer type
		double l = static_cast<double>(lo(dest)), h = static_cast<double>(hi(dest)), w = (h - l) * (1.0 - 1e-6);
		switch (x % 4) { case 0: v.d = std::floor(l + w * 0.5); break; case 1: v.d = l; break; case 2: v.d = l + static_cast<double>(x >> 8 & 0xFFFF) / 65536.0 * w; break; default: v.d = std::min(h * 0.9, static_cast<double>(x >> 8 & 15)); }
		if (c == 6) v.d = static_cast<double>(static_cast<float>(v.d));
		return v;
	}
	uint64_t bits = r ^ x;
	switch (x % 6) {
		case 0: v.d = 0; break; case 1: v.d = -0.0; break;
		case 2: { static const double sp[] = {1, -1, 0.5, 65504, 16777217, 1e-40, -3.4028234663852886e38, 1.1754943508222875e-38}; v.d = sp[x >> 8 & 7]; break; }
		case 3: v.d = static_cast<double>(static_cast<int64_t>(bits)) / 4294967296.0; break;
		default: if (c == 6) { uint32_t u = static_cast<uint32_t>(bits >> 20); float f; memcpy(&f, &u, 4); v.d = static_cast<double>(f); } else if (dest == 7) memcpy(&v.d, &bits, 8); else v.d = std::ldexp(static_cast<double>(bits >> 11), static_cast<int>(x % 200) - 130);
	}
	if (std::isnan(v.d)) v.d = 3.5; // which NaN is read is left open
	if (c == 6) v.d = static_cast<double>(static_cast<float>(v.d));
	return v;
}
inline size_t addBlock(Case& c, Gen& g, const std::vector<std::byte>& bytes, int kind) { // a buffer whose memory ends where its data ends
	fg::Buffer b; b.byteLength = bytes.size(); Block blk; blk.n = bytes.size(); blk.mem.reset(new std::byte[blk.n ? blk.n : 1]); if (blk.n) memcpy(blk.mem.get(), bytes.data(), blk.n);
	fg::StaticVector<std::byte> sv(0); (void)g;
	switch (kind) {
		case 0: { fg::StaticVector<std::byte> a(bytes.size()); if (bytes.size()) memcpy(a.data(), bytes.data(), bytes.size()); b.data = fg::sources::Array{std::move(a), fg::MimeType::GltfBuffer}; break; }
		case 1: { std::vector<std::byte> v(bytes); v.shrink_to_fit(); b.data = fg::sources::Vector{std::move(v), fg::MimeType::OctetStream}; break; }
		case 2: b.data = fg::sources::ByteView{fg::span<const std::byte>(blk.mem.get(), blk.n), fg::MimeType::GltfBuffer}; break;
		default: b.data = fg::sources::CustomBuffer{1234, fg::MimeType::GltfBuffer}; // only an adapter of our own finds the data
	}
	c.blocks.push_back(std::move(blk)); c.asset.buffers.emplace_back(std::move(b)); return c.asset.buffers.size() - 1;
}
inline size_t addView(Case& c, size_t buffer, size_t off, size_t len, size_t stride) {
	fg::BufferView v; v.bufferIndex = buffer; v.byteOffset = off; v.byteLength = len; if (stride) v.byteStride = stride; c.asset.bufferViews.emplace_back(std::move(v)); c.bytesOfView.push_back(buffer); return c.asset.bufferViews.size() - 1;
}
// dest: component type of the elements to be read
inline void make(Gen& g, Case& c, size_t type, size_t comp, size_t dest, bool ownAdapter, const Want& w = {}) {
	c.type = type; c.comp = comp; bool norm = small(comp) && (dest >= 6 || dest == comp) && g.chance(1, 2); size_t es = elemBytes(type, comp);
	std::vector<uint64_t> seed{(static_cast<uint64_t>(g.draw(0xFFFFFFFF)) << 32 | g.draw(0xFFFFFFFF)) * 0x9E3779B97F4A7C15ULL + 12345};
	size_t count = g.weighted({6, 2, 1}) == 0 ? 1 + g.draw(12) : g.flip() ? 1 + g.size(80) : g.chance(1, 12) ? 65500 + g.draw(700) : 250 + g.draw(300);
	if (count > 60000 && type > 3) count = 300;
	c.acc.type = types[type]; c.acc.componentType = comps[comp]; c.acc.normalized = norm; c.acc.count = count;
	c.view = !w.noViewAllowed || !g.chance(1, 6); c.sparse = w.sparseAllowed && g.chance(2, 5);
	c.elems.assign(count, std::vector<Value>(typeComps[type])); if (comp >= 6) for (auto& e : c.elems) for (auto& v : e) v.real = true;
	bool oneBuffer = g.flip(); int kind = ownAdapter ? 3 : static_cast<int>(g.draw(2));
	std::vector<std::byte> all; // everything, when one buffer holds it
	auto garbage = [&](size_t n) { std::vector<std::byte> o(n); for (auto& b : o) { seed[0] = seed[0] * 6364136223846793005ULL + 99; b = static_cast<std::byte>(seed[0] >> 33); } return o; };
	struct Part { std::vector<std::byte> bytes; size_t accOff; size_t stride; }; std::vector<Part> parts;
	auto part = [&](size_t n, size_t size, size_t stride, size_t align) { // bytes of a view holding n items
		Part p; p.accOff = g.chance(1, 2) ? 0 : align * (1 + g.draw(6)); p.stride = stride; size_t st = stride ? stride : size; p.bytes = garbage(p.accOff + (n ? st * (n - 1) + size : 0) + (g.chance(1, 4) ? g.draw(9) : 0)); return p;
	};
	auto elemsInto = [&](Part& p, size_t n, auto at) { size_t st = p.stride ? p.stride : es; for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < typeComps[type]; ++k) { Value v = value(g, comp, dest, norm, seed); at(i)[k] = v; store(&p.bytes[p.accOff + st * i + compOffset(type, comp, k)], comp, v); } };
	size_t align = std::max<size_t>(compBytes[comp], type >= 4 ? 4 : 1);
	if (c.view) {
		size_t st = 0; if (g.chance(2, 5)) { size_t mn = (std::max<size_t>(es, 4) + 3) / 4 * 4; if (comp == 7) mn = (mn + 7) / 8 * 8; st = std::min<size_t>(252 / (comp == 7 ? 8 : 4) * (comp == 7 ? 8 : 4), mn + (comp == 7 ? 8 : 4) * g.draw(g.chance(1, 4) ? 40 : 4)); }
		Part p = part(count, es, st, align); elemsInto(p, count, [&](size_t i) -> std::vector<Value>& { return c.elems[i]; }); c.stride = st; parts.push_back(std::move(p));
	}
	size_t si = 0, ict = 0;
	if (c.sparse) {
		ict = g.draw(2); size_t cap = ict == 0 ? 256 : ict == 1 ? 65536 : count; // the index type must hold the indices
		std::vector<size_t> at; size_t range = std::min(count, cap); size_t n = g.chance(1, 12) ? range : 1 + g.draw(std::min<size_t>(range, 12) - 1); if (n > 3000) n = 3000;
		std::set<size_t> s; if (n == range) for (size_t i = 0; i < range; ++i) s.insert(i); else for (size_t i = 0; i < n; ++i) { size_t x; switch (g.draw(4)) { case 0: x = 0; break; case 1: x = range - 1; break; default: x = g.draw(range - 1); } s.insert(x); if (g.chance(1, 3) && x + 1 < range) s.insert(x + 1); }
		at.assign(s.begin(), s.end()); c.overlaid = at; si = parts.size();
		size_t isz = ict == 0 ? 1 : ict == 1 ? 2 : 4; Part p = part(at.size(), isz, 0, isz);
		for (size_t i = 0; i < at.size(); ++i) { Value v; v.i = static_cast<int64_t>(at[i]); store(&p.bytes[p.accOff + isz * i], ict == 0 ? 1 : ict == 1 ? 3 : 5, v); }
		parts.push_back(std::move(p));
		Part q = part(at.size(), es, 0, align); elemsInto(q, at.size(), [&](size_t i) -> std::vector<Value>& { return c.elems[at[i]]; }); parts.push_back(std::move(q));
	}
	std::vector<size_t> views;
	if (oneBuffer && !parts.empty()) {
		std::vector<size_t> offs; std::vector<size_t> order(parts.size()); for (size_t i = 0; i < order.size(); ++i) order[i] = i; if (g.flip()) std::reverse(order.begin(), order.end()); offs.resize(parts.size());
		for (size_t i : order) { while (all.size() % 8) all.push_back(std::byte{0xCC}); if (g.flip()) for (size_t k = 8 * g.draw(3); k; --k) all.push_back(std::byte{0xDD}); offs[i] = all.size(); all.insert(all.end(), parts[i].bytes.begin(), parts[i].bytes.end()); }
		if (g.chance(1, 3)) addBlock(c, g, garbage(5), kind);
		size_t b = addBlock(c, g, all, kind); for (size_t i = 0; i < parts.size(); ++i) views.push_back(addView(c, b, offs[i], parts[i].bytes.size(), parts[i].stride));
	} else for (auto& p : parts) { size_t b = addBlock(c, g, p.bytes, kind); views.push_back(addView(c, b, 0, p.bytes.size(), p.stride)); }
	if (c.view) { c.acc.bufferViewIndex = views[0]; c.acc.byteOffset = parts[0].accOff; }
	if (c.sparse) {
		fg::SparseAccessor s; s.count = c.overlaid.size(); s.indicesBufferView = views[si]; s.indicesByteOffset = parts[si].accOff; s.valuesBufferView = views[si + 1]; s.valuesByteOffset = parts[si + 1].accOff;
		s.indexComponentType = ict == 0 ? fg::ComponentType::UnsignedByte : ict == 1 ? fg::ComponentType::UnsignedShort : fg::ComponentType::UnsignedInt; c.acc.sparse = s;
	}
	if (c.view && g.chance(1, 40) && !c.sparse) { fg::SparseAccessor s; s.count = 0; s.indicesBufferView = s.valuesBufferView = views[0]; s.indicesByteOffset = s.valuesByteOffset = 0; s.indexComponentType = fg::ComponentType::UnsignedByte; c.acc.sparse = s; g.label("empty overlay"); }
	if (norm) g.label("normalized"); if (c.stride) g.label("stride"); if (c.sparse) g.label("sparse"); if (!c.view) g.label("no view"); if (count > 256) g.label("more than 256 elements"); if (type >= 4 && comp < 4) g.label("padded columns"); if (c.sparse && ict == 0 && count > 256) g.label("8-bit sparse indices of a long accessor");
	g.label(std::string(compNames[comp]) + " to " + compNames[dest]); g.label(typeNames[type]); g.key(seed[0] ^ type << 8 ^ comp << 4 ^ dest);
	g.note(std::string(typeNames[type]) + " of " + compNames[comp] + (norm ? " normalized" : "") + " read as " + compNames[dest] + ", count " + std::to_string(count) + (c.view ? ", stride " + std::to_string(c.stride) + ", offset " + std::to_string(c.acc.byteOffset) : ", no view") + (c.sparse ? ", sparse " + std::to_string(c.overlaid.size()) + " by " + std::to_string(ict == 0 ? 8 : ict == 1 ? 16 : 32) + "-bit indices from " + std::to_string(c.overlaid[0]) : "") + ", buffer kind " + std::to_string(kind));
	if (count > 1 && (c.sparse || c.stride || norm || comp != dest)) g.nontrivial();
}
// the adapter of a user who holds the data elsewhere
struct Adapter { const Case* c; auto operator()(const fg::Asset& a, std::size_t i) const { auto& v = a.bufferViews[i]; auto& b = c->blocks[v.bufferIndex]; return fg::span<const std::byte>(b.mem.get() + v.byteOffset, v.byteLength); } };

// does a component read as T equal what the specification says?
template <typename T> std::string judge(const Value& v, size_t comp, bool norm, T got) {
	auto bad = [&](const std::string& w) { char b[64]; snprintf(b, 64, "%.17g", static_cast<double>(got)); return std::string("read as ") + b + " instead of " + w; };
	if constexpr (std::is_floating_point_v<T>) {
		if (norm) { long double m = static_cast<long double>(hi(comp)), e = std::max(static_cast<long double>(v.i) / m, -1.0L), eps = std::numeric_limits<T>::epsilon(); return std::fabs(static_cast<long double>(got) - e) <= eps * std::fabs(e) ? "" : bad(std::to_string(static_cast<double>(e)) + " (normalized " + show(v) + ")"); }
		if (v.real && comp == (sizeof(T) == 4 ? 6u : 7u)) { T e = static_cast<T>(v.d); return memcmp(&e, &got, sizeof(T)) == 0 ? "" : bad(show(v)); }
		T e = v.real ? static_cast<T>(v.d) : static_cast<T>(v.i); return got == e ? "" : bad(show(v));
	} else {
		if (v.real) return std::fabs(static_cast<double>(got) - v.d) < 1 ? "" : bad(show(v));
		return static_cast<int64_t>(got) == v.i ? "" : bad(show(v));
	}
}
inline size_t compOf(fg::ComponentType t) { for (size_t i = 0; i < 8; ++i) if (comps[i] == t) return i; return 99; }
// compares an element (as the array of its components) with element i
template <typename E> std::string judgeElement(const Case& c, size_t i, const E& e) {
	using T = typename fg::ElementTraits<E>::component_type; size_t n = typeComps[c.type]; static_assert(sizeof(E) >= sizeof(T)); T got[16]; if (sizeof(E) < n * sizeof(T)) return "element type too small"; memcpy(got, &e, n * sizeof(T));
	for (size_t k = 0; k < n; ++k) {
		size_t from = k; if (rowsFirst<E> && c.type >= 4) { size_t r = rowsOf(c.type); from = k % r * r + k / r; }
		if (auto s = judge<T>(c.elems[i][from], c.comp, c.acc.normalized, got[k]); !s.empty()) return "element " + std::to_string(i) + " component " + std::to_string(from) + " " + s;
	}
	return "";
}
} // namespace ac

namespace ac {
// calls f with a null pointer of one element type of the given shape
template <typename F> void withType(Gen& g, F f) {
	namespace m = fastgltf::math;
#define T(...) if (pick-- == 0) { f(static_cast<__VA_ARGS__*>(nullptr)); return; }
#ifdef AC_FOREIGN_TYPES
	int pick = static_cast<int>(g.draw(40 + 21 + 16));
#else
	int pick = static_cast<int>(g.draw(40));
#endif
	T(std::int8_t) T(std::uint8_t) T(std::int16_t) T(std::uint16_t) T(std::int32_t) T(std::uint32_t) T(float) T(double)
	T(m::s8vec2) T(m::s8vec3) T(m::s8vec4) T(m::u8vec2) T(m::u8vec3) T(m::u8vec4) T(m::s16vec2) T(m::s16vec3) T(m::s16vec4) T(m::u16vec2) T(m::u16vec3) T(m::u16vec4)
	T(m::s32vec2) T(m::s32vec3) T(m::s32vec4) T(m::u32vec2) T(m::u32vec3) T(m::u32vec4) T(m::fvec2) T(m::fvec3) T(m::fvec4) T(m::dvec2) T(m::dvec3) T(m::dvec4)
	T(m::fquat) T(m::dquat) T(m::fmat2x2) T(m::fmat3x3) T(m::fmat4x4) T(OwnVec) T(OwnRows) T(OwnRows4) T(OwnClass)
#ifdef AC_FOREIGN_TYPES
	T(glm::vec2) T(glm::vec3) T(glm::vec4) T(glm::i8vec2) T(glm::i8vec3) T(glm::i8vec4) T(glm::u8vec2) T(glm::u8vec3) T(glm::u8vec4) T(glm::i16vec2) T(glm::i16vec3) T(glm::i16vec4) T(glm::u16vec2) T(glm::u16vec3) T(glm::u16vec4)
	T(glm::u32vec2) T(glm::u32vec3) T(glm::u32vec4) T(glm::mat2) T(glm::mat3) T(glm::mat4)
	T(DirectX::XMFLOAT2) T(DirectX::XMFLOAT3) T(DirectX::XMFLOAT4) T(DirectX::XMUINT2) T(DirectX::XMUINT3) T(DirectX::XMUINT4) T(DirectX::XMFLOAT3X3) T(DirectX::XMFLOAT4X4)
	T(DirectX::PackedVector::XMBYTE2) T(DirectX::PackedVector::XMBYTE4) T(DirectX::PackedVector::XMUBYTE2) T(DirectX::PackedVector::XMUBYTE4) T(DirectX::PackedVector::XMSHORT2) T(DirectX::PackedVector::XMSHORT4) T(DirectX::PackedVector::XMUSHORT2) T(DirectX::PackedVector::XMUSHORT4)
#endif
#undef T
}
template <typename E> size_t typeIndex() { for (size_t i = 0; i < 7; ++i) if (types[i] == fg::ElementTraits<E>::type) return i; return 0; }
// the component type an element type is made of, told from the C++ type
template <typename E> size_t destComp() { using T = typename fg::ElementTraits<E>::component_type; if (std::is_floating_point_v<T>) return sizeof(T) == 4 ? 6 : 7; size_t b = sizeof(T) == 1 ? 0 : sizeof(T) == 2 ? 2 : 4; return b + (std::is_signed_v<T> ? 0 : 1); }
} // namespace ac

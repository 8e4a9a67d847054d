// C25: helper functions agree with the tables of the glTF specification and with each other.
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <fastgltf/core.hpp>
#include <fastgltf/tools.hpp>
#include <pbt/pbt.hpp>
using namespace pbt;
namespace fg = fastgltf;
template <class T> std::string str(const T& v) { return std::to_string(v); }
static std::string str(std::string_view v) { return std::string(v); }
template <class A, class B> void eq(const A& got, const B& want, const char* tag, const std::string& what) { if (!(got == want)) fail(tag, what + " is " + str(got) + " instead of " + str(want)); }

struct Component { fg::ComponentType t; unsigned code; size_t bytes; };
static const std::vector<Component> components{{fg::ComponentType::Byte, 5120, 1}, {fg::ComponentType::UnsignedByte, 5121, 1}, {fg::ComponentType::Short, 5122, 2}, {fg::ComponentType::UnsignedShort, 5123, 2}, {fg::ComponentType::Int, 5124, 4}, {fg::ComponentType::UnsignedInt, 5125, 4}, {fg::ComponentType::Float, 5126, 4}, {fg::ComponentType::Double, 5130, 8}};
struct Type { fg::AccessorType t; const char* name; size_t rows, cols; };
static const std::vector<Type> types{{fg::AccessorType::Scalar, "SCALAR", 1, 1}, {fg::AccessorType::Vec2, "VEC2", 2, 1}, {fg::AccessorType::Vec3, "VEC3", 3, 1}, {fg::AccessorType::Vec4, "VEC4", 4, 1}, {fg::AccessorType::Mat2, "MAT2", 2, 2}, {fg::AccessorType::Mat3, "MAT3", 3, 3}, {fg::AccessorType::Mat4, "MAT4", 4, 4}};

// the whole domain of the component type codes, and every pair of types
PROPERTY(component_codes, 66000, 66000) {
	auto code = static_cast<uint16_t>(g.enumerate(65535)); const Component* c = nullptr; for (auto& x : components) if (x.code == code) c = &x;
	g.key(code); g.note(std::to_string(code)); g.nontrivial(); if (c) g.label("known");
	auto t = fg::getComponentType(code);
	if (t != (c ? c->t : fg::ComponentType::Invalid)) fail("component type", "code " + std::to_string(code) + " gives component type " + std::to_string(unsigned(t)));
	if (!c) return;
	eq(fg::getGLComponentType(t), c->code, "GL type", "the code of " + std::to_string(code)); eq(fg::getComponentByteSize(t), c->bytes, "byte size", "the size of " + std::to_string(code)); eq(fg::getComponentBitSize(t), 8 * c->bytes, "bit size", "the bits of " + std::to_string(code));
}
PROPERTY(accessor_types, 4000, 100000) {
	auto& t = g.pick(types); auto& c = g.pick(components); std::string who = std::string(t.name) + " of " + std::to_string(c.code); g.note(who); g.key(hashStr(who)); g.nontrivial(); g.label(t.name);
	eq(fg::getNumComponents(t.t), t.rows * t.cols, "components", "the number of components of " + who); eq(fg::getElementRowCount(t.t), t.rows, "rows", "the rows of " + who); eq(int(fg::isMatrix(t.t)), int(t.cols > 1), "matrix", "being a matrix of " + who);
	size_t column = t.rows * c.bytes; if (t.cols > 1) column = (column + 3) / 4 * 4; // columns of matrices start at multiples of 4
	eq(fg::getElementByteSize(t.t, c.t), column * t.cols, "element size", "the size of " + who);
	eq(fg::getAccessorTypeName(t.t), std::string_view(t.name), "type name", "the name of " + who);
	std::string name = t.name; if (g.flip()) { // other names
		g.label("other name");
		switch (g.draw(4)) { case 0: name += static_cast<char>(g.byte()); break; case 1: name.erase(g.draw(name.size() - 1), 1); break; case 2: name[g.draw(name.size() - 1)] = static_cast<char>(g.byte()); break; case 3: for (auto& x : name) x = static_cast<char>(tolower(x)); break; default: name = ""; }
	}
	const Type* w = nullptr; for (auto& x : types) if (name == x.name) w = &x;
	if (fg::getAccessorType(name) != (w ? w->t : fg::AccessorType::Invalid)) fail("type of name", "\"" + name + "\" gives accessor type " + std::to_string(unsigned(fg::getAccessorType(name))));
	eq(fg::getAccessorTypeName(fg::AccessorType::Invalid), std::string_view(""), "type name", "the name of no type"); eq(fg::getComponentByteSize(fg::ComponentType::Invalid), size_t(0), "byte size", "the size of no component");
}

static const std::vector<std::pair<const char*, fg::Extensions>>& extensions() {
	using E = fg::Extensions;
#define X(n) {#n, E::n}
	static const std::vector<std::pair<const char*, E>> v{X(EXT_mesh_gpu_instancing), X(EXT_meshopt_compression), X(EXT_texture_webp), X(GODOT_single_root), X(KHR_accessor_float64), X(KHR_draco_mesh_compression), X(KHR_lights_punctual), X(KHR_materials_anisotropy), X(KHR_materials_clearcoat), X(KHR_materials_diffuse_transmission), X(KHR_materials_dispersion), X(KHR_materials_emissive_strength), X(KHR_materials_ior), X(KHR_materials_iridescence), X(KHR_materials_sheen), X(KHR_materials_specular), X(KHR_materials_transmission), X(KHR_materials_unlit), X(KHR_materials_variants), X(KHR_materials_volume), X(KHR_mesh_quantization), X(KHR_node_visibility), X(KHR_node_selectability), X(KHR_node_hoverability), X(KHR_texture_basisu), X(KHR_texture_transform), X(MSFT_packing_normalRoughnessMetallic), X(MSFT_packing_occlusionRoughnessMetallic), X(MSFT_texture_dds), X(KHR_materials_pbrSpecularGlossiness),
#if FASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES
		X(KHR_implicit_shapes),
#endif
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
		X(KHR_physics_rigid_bodies),
#endif
	};
#undef X
	return v;
}
PROPERTY(extension_names, 20000, 500000) {
	auto& all = extensions(); uint64_t bits = 0, known = 0; std::set<std::string> want; bool junk = g.chance(1, 4); uint64_t one_in = 1 + g.draw(10);
	for (auto& [n, e] : all) { uint64_t b = fg::to_underlying(e); if (b == 0 || (b & (b - 1)) || (known & b)) fail("extension bit", std::string(n) + " has no bit of its own"); known |= b; if (g.chance(1, one_in)) { bits |= b; want.insert(n); } }
	uint64_t lowest = bits & (~bits + 1); if (junk) bits |= g.draw(~0ull) & ~known;
	g.key(bits); g.note(std::to_string(bits)); if (want.size() > 1) g.nontrivial();
	auto e = static_cast<fg::Extensions>(bits); auto l = fg::stringifyExtensionBits(e); std::set<std::string> got; for (auto& s : l) if (!got.insert(std::string(s.data(), s.size())).second) fail("twice", "the name " + std::string(s.data(), s.size()) + " is listed twice");
	for (auto& n : want) require(got.count(n), "names", [&] { return n + " is missing"; }); for (auto& n : got) require(want.count(n), "names", [&] { return n + " is not set"; });
	auto first = fg::stringifyExtension(e); std::string firstName; for (auto& [n, x] : all) if (fg::to_underlying(x) == lowest) firstName = n;
	if (bits == 0) eq(first, std::string_view(""), "first", "the name of no extension"); else if ((bits & (~bits + 1)) == lowest) eq(first, std::string_view(firstName), "first", "the name of the first of several"); else require(first.empty() || want.count(std::string(first)), "first", "the name of an extension that is not set");
	size_t n = 0; for (auto& [name, ext] : fg::extensionStrings) { ++n; bool found = false; for (auto& [wn, we] : all) found |= we == ext && name == wn; require(found, "table", [&] { return "the table has " + std::string(name) + " with another bit"; }); } eq(n, all.size(), "table", "the size of the table");
}
template <class E> void flags(Gen& g, const char* who) {
	using U = std::underlying_type_t<E>; auto v = [&] { return g.chance(1, 4) ? U(0) : g.chance(1, 3) ? U(U(1) << g.draw(sizeof(U) * 8 - 1)) : static_cast<U>(g.draw(~0ull)); };
	U a = v(), b = g.chance(1, 5) ? a : v(); E x = E(a), y = E(b); g.note(std::string(who) + " " + std::to_string(a) + " " + std::to_string(b)); g.key(hashStr(who, a * 31 + b)); if (a && b) g.nontrivial(); g.label(who);
	eq(U(x | y), U(a | b), "or", who); eq(U(x & y), U(a & b), "and", who); eq(U(~x), U(~a), "not", who); E z = x; z |= y; eq(U(z), U(a | b), "or=", who); z = x; (z &= y) |= y; eq(U(z), U(b), "and=", who); z = x; z &= y; eq(U(z), U(a & b), "and=", who);
	eq(int(fg::hasBit(x, y)), int((a & b) == b), "hasBit", who); eq(fg::to_underlying(x), a, "to_underlying", who);
}
PROPERTY(flag_operators, 12000, 400000) { switch (g.draw(3)) { case 0: flags<fg::Extensions>(g, "Extensions"); break; case 1: flags<fg::Options>(g, "Options"); break; case 2: flags<fg::ExportOptions>(g, "ExportOptions"); break; default: flags<fg::Category>(g, "Category"); } }

PROPERTY(names, 3000, 30000) {
	static const std::vector<std::pair<fg::Error, const char*>> errors{{fg::Error::None, "None"}, {fg::Error::InvalidPath, "InvalidPath"}, {fg::Error::MissingExtensions, "MissingExtensions"}, {fg::Error::UnknownRequiredExtension, "UnknownRequiredExtension"}, {fg::Error::InvalidJson, "InvalidJson"}, {fg::Error::InvalidGltf, "InvalidGltf"}, {fg::Error::InvalidOrMissingAssetField, "InvalidOrMissingAssetField"}, {fg::Error::InvalidGLB, "InvalidGLB"}, {fg::Error::MissingField, "MissingField"}, {fg::Error::MissingExternalBuffer, "MissingExternalBuffer"}, {fg::Error::UnsupportedVersion, "UnsupportedVersion"}, {fg::Error::InvalidURI, "InvalidURI"}, {fg::Error::InvalidFileData, "InvalidFileData"}, {fg::Error::FailedWritingFiles, "FailedWritingFiles"}, {fg::Error::FileBufferAllocationFailed, "FileBufferAllocationFailed"}};
	static const std::vector<std::pair<fg::MimeType, const char*>> mimes{{fg::MimeType::None, ""}, {fg::MimeType::JPEG, "image/jpeg"}, {fg::MimeType::PNG, "image/png"}, {fg::MimeType::KTX2, "image/ktx2"}, {fg::MimeType::DDS, "image/vnd-ms.dds"}, {fg::MimeType::GltfBuffer, "application/gltf-buffer"}, {fg::MimeType::OctetStream, "application/octet-stream"}, {fg::MimeType::WEBP, "image/webp"}};
	auto& [e, n] = g.pick(errors); auto& [m, mn] = g.pick(mimes); g.note(std::string(n) + " " + mn); g.key(hashStr(std::string(n) + mn)); g.nontrivial();
	eq(fg::getErrorName(e), std::string_view(n), "error name", n); eq(int(fg::getErrorMessage(e).empty()), int(e == fg::Error::None || e == fg::Error::MissingField), "error message", std::string("the message of ") + n + " being empty");
	for (auto& [o, on] : errors) if (o != e && !fg::getErrorMessage(e).empty() && fg::getErrorMessage(o) == fg::getErrorMessage(e)) fail("error message", std::string(n) + " and " + on + " have the same message");
	eq(fg::getMimeTypeString(m), std::string_view(mn), "mime type", mn);
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
	static const std::vector<std::pair<std::string, fg::CombineMode>> modes{{"average", fg::CombineMode::Average}, {"minimum", fg::CombineMode::Minimum}, {"maximum", fg::CombineMode::Maximum}, {"multiply", fg::CombineMode::Multiply}};
	auto& [cn, cm] = g.pick(modes); eq(fg::getFrictionCombineName(cm), std::string_view(cn), "combine name", cn);
	std::string s = g.pick<std::string>({"average", "minimum", "maximum", "multiply", "linear", "angular", "force", "acceleration"}); if (g.chance(1, 3)) { if (g.flip()) s += 'x'; else s.erase(g.draw(s.size() - 1), 1); g.label("other name"); }
	auto w = fg::CombineMode::Invalid; for (auto& [a, b] : modes) if (a == s) w = b; require(fg::getCombineMode(s) == w, "combine mode", "combine mode of " + s);
	require(fg::getDriveType(s) == (s == "linear" ? fg::DriveType::Linear : s == "angular" ? fg::DriveType::Angular : fg::DriveType::Invalid), "drive type", "drive type of " + s);
	require(fg::getDriveMode(s) == (s == "force" ? fg::DriveMode::Force : s == "acceleration" ? fg::DriveMode::Acceleration : fg::DriveMode::Invalid), "drive mode", "drive mode of " + s);
#endif
}

static uint32_t crcModel(const uint8_t* p, size_t n) { uint32_t c = 0; for (size_t i = 0; i < n; ++i) { c ^= p[i]; for (int k = 0; k < 8; ++k) c = (c >> 1) ^ (c & 1 ? 0x82f63b78u : 0); } return c; }
PROPERTY(hashing, 20000, 1000000) {
	size_t n = g.chance(1, 6) ? g.draw(700) : g.draw(40), off = g.draw(8); auto* heap = new uint8_t[n + off]; std::unique_ptr<uint8_t[]> own(heap); // ends where the text ends
	bool text = g.flip(); for (size_t i = 0; i < n + off; ++i) heap[i] = text ? static_cast<uint8_t>('a' + g.draw(25)) : g.byte();
	auto* p = heap + off; g.note(hex(p, n)); g.key(hashStr(std::string(p, p + n))); if (n > 8) g.nontrivial(); g.label("length mod 8: " + std::to_string(n % 8));
	auto want = crcModel(p, n); std::string_view sv(reinterpret_cast<const char*>(p), n);
	eq(fg::crc32c(sv), want, "table hash", "the hash"); eq(fg::crc32c(p, n), want, "table hash", "the hash of the bytes");
#if defined(FASTGLTF_IS_X86)
	if (__builtin_cpu_supports("sse4.2")) { g.label("hardware"); eq(fg::sse_crc32c(sv), want, "SSE hash", "the hash"); eq(fg::sse_crc32c(p, n), want, "SSE hash", "the hash of the bytes"); }
#endif
}

template <class T> T number(Gen& g) { switch (g.draw(3)) { case 0: return static_cast<T>(g.draw(300)); case 1: return static_cast<T>(static_cast<T>(1) << g.draw(sizeof(T) * 8 - 1)); case 2: return static_cast<T>(g.pick<uint64_t>({0, 1, ~0ull, ~0ull >> 1, 1ull << 63, 127, 128, 255, 256})); default: return static_cast<T>(g.draw(~0ull)); } }
template <class T> void bits(Gen& g) {
	T v = number<T>(g); unsigned z = 0, ones = 0; for (int i = sizeof(T) * 8 - 1; i >= 0 && !((v >> i) & 1); --i) ++z; for (size_t i = 0; i < sizeof(T) * 8; ++i) ones += (v >> i) & 1;
	std::string who = std::to_string(v) + " of " + std::to_string(sizeof(T)) + " bytes"; g.note(who); g.key(hashStr(who)); if (v > 1) g.nontrivial();
	eq(unsigned(fg::clz(v)), z, "leading zeros", who); eq(unsigned(fg::popcount(v)), ones, "ones", who);
	using S = std::make_signed_t<T>; S s; memcpy(&s, &v, sizeof s); T a = s < 0 ? static_cast<T>(T(0) - v) : v; eq(static_cast<T>(fg::uabs(s)), a, "absolute value", who); eq(fg::uabs(v), v, "absolute value", who); S t = fg::bit_cast<S>(v); eq(t, s, "bit cast", who);
	T w = number<T>(g); eq(fg::max(v, w), v > w ? v : w, "max", who); eq(fg::min(v, w), v < w ? v : w, "min", who); S x = static_cast<S>(w); eq(fg::max(s, x), s > x ? s : x, "max", who); eq(fg::min(s, x), s < x ? s : x, "min", who);
}
PROPERTY(bit_helpers, 20000, 1000000) { switch (g.draw(3)) { case 0: bits<uint8_t>(g); break; case 1: bits<uint16_t>(g); break; case 2: bits<uint32_t>(g); break; default: bits<uint64_t>(g); } }
PROPERTY(alignment, 12000, 500000) {
	uint64_t v = g.chance(1, 3) ? g.draw(40) : g.draw(1ull << (1 + g.draw(61))); int a = 1 << g.draw(g.chance(1, 3) ? 20 : 4); std::string who = std::to_string(v) + " by " + std::to_string(a); g.note(who); g.key(hashStr(who)); if (v % uint64_t(a)) g.nontrivial();
	uint64_t up = (v + uint64_t(a) - 1) / uint64_t(a) * uint64_t(a); eq(fg::alignUp(v, a), up, "align up", who); if (v < 1u << 30) { eq(fg::alignUp(uint32_t(v), a), uint32_t(up), "align up", who + " in 32 bits"); eq(fg::alignUp(int(v), a), int(up), "align up", who + " signed"); }
	uint64_t d = 1 + g.draw(100); eq(fg::alignDown(v, d), v / d * d, "align down", std::to_string(v) + " by " + std::to_string(d)); eq(fg::alignDown(v, uint64_t(a)), v / uint64_t(a) * uint64_t(a), "align down", who);
	// starts with
	std::string s, t; for (size_t n = g.size(8); n; --n) s += g.pick({'a', 'b', '\0'}); t = s.substr(0, g.draw(s.size())); if (g.flip()) t += g.pick({'a', 'b', '\0'}); bool w = t.size() <= s.size() && memcmp(s.data(), t.data(), t.size()) == 0; eq(int(fg::startsWith(s, t)), int(w), "starts with", "\"" + s + "\" starting with \"" + t + "\"");
	if (w && !t.empty()) g.label("prefix");
}
template <class T> void angle(Gen& g) {
	T d = static_cast<T>((double(g.draw(2000000)) - 1e6) / double(g.pick<uint64_t>({1, 10, 1000, 12345}))); g.note(std::to_string(d)); g.key(hashStr(std::to_string(d), sizeof(T))); if (d != 0) g.nontrivial();
	T r = fg::math::radians(d), back = fg::math::degrees(r), eps = std::numeric_limits<T>::epsilon() * 4; T w = static_cast<T>(d * 0.017453292519943295769);
	require(std::fabs(r - w) <= eps * std::fabs(w), "radians", [&] { return std::to_string(d) + " degrees are " + std::to_string(r) + " instead of " + std::to_string(w); });
	require(std::fabs(back - d) <= eps * std::fabs(d), "degrees", [&] { return std::to_string(d) + " degrees become " + std::to_string(back); });
}
PROPERTY(angles, 6000, 200000) { if (g.flip()) angle<float>(g); else angle<double>(g); }

// Expected: a value or an error
// attributes are found by their exact name: the first one of that name, or the end
PROPERTY(lookup, 12000, 400000) {
	static const char* pool[] = {"POSITION", "NORMAL", "TEXCOORD_0", "TEXCOORD_1", "TEXCOORD_10", "_A", "_AB", "", "POSITIO", "POSITIONS", "position", "_\xc3\xa9"};
	auto name = [&] { return g.chance(1, 8) ? std::string(pool[g.draw(11)]) + std::string(1, '\0') + "x" : std::string(pool[g.draw(11)]); };
	using List = std::vector<std::pair<std::string, size_t>>; auto make = [&] { List l(g.size(7)); for (auto& [n, i] : l) { n = name(); i = g.draw(9); } return l; };
	auto fill = [](auto& dst, const List& l) { for (auto& [n, i] : l) dst.emplace_back(fg::Attribute{decltype(fg::Attribute::name)(n.data(), n.size()), i}); };
	auto check = [&](const List& l, const auto& first, auto it, auto cit, auto end, const std::string& key, const char* what) {
		size_t want = 0; while (want < l.size() && l[want].first != key) ++want;
		require(static_cast<size_t>(it - first) == want && static_cast<size_t>(cit - first) == want, "lookup", [&] { return std::string(what) + " finds attribute " + str(it - first) + " instead of " + str(want); });
		if (want == l.size()) require(it == end && cit == end, "lookup", "no end"); else require(it->accessorIndex == l[want].second && std::string_view(cit->name) == key, "lookup", [&] { return std::string(what) + ": another attribute"; });
	};
	fg::Primitive p; List attrs = make(); fill(p.attributes, attrs); std::vector<List> targets(g.size(3)); for (auto& t : targets) { t = make(); p.targets.emplace_back(); fill(p.targets.back(), t); }
	fg::DracoCompressedPrimitive d; List draco = make(); fill(d.attributes, draco); fg::Node n; List inst = make(); fill(n.instancingAttributes, inst);
	for (int k = 0; k < 3; ++k) {
		std::string key = name(); const auto& cp = p; const auto& cd = d; const auto& cn = n;
		check(attrs, p.attributes.begin(), p.findAttribute(key), cp.findAttribute(key), p.attributes.end(), key, "findAttribute");
		for (size_t t = 0; t < targets.size(); ++t) check(targets[t], p.targets[t].begin(), p.findTargetAttribute(t, key), cp.findTargetAttribute(t, key), p.targets[t].end(), key, "findTargetAttribute");
		check(draco, d.attributes.begin(), d.findAttribute(key), cd.findAttribute(key), d.attributes.end(), key, "findAttribute of compressed primitives");
		check(inst, n.instancingAttributes.begin(), n.findInstancingAttribute(key), cn.findInstancingAttribute(key), n.instancingAttributes.end(), key, "findInstancingAttribute");
	}
	g.nontrivial(attrs.size() > 1); std::string k; for (auto& l : {attrs, draco, inst}) for (auto& [n2, i] : l) k += n2 + "," + str(i) + ";"; g.key(hashStr(k));
}
PROPERTY(expected, 8000, 200000) {
	struct Obj { std::unique_ptr<int> p; };
	static const fg::Error errs[] = {fg::Error::InvalidPath, fg::Error::InvalidJson, fg::Error::InvalidGltf, fg::Error::FileBufferAllocationFailed};
	bool ok = g.flip(); auto err = ok ? fg::Error::None : errs[g.draw(3)]; int v = static_cast<int>(g.draw(1000)); g.note(ok ? "value " + std::to_string(v) : "error " + std::to_string(unsigned(err))); g.key(ok ? v : 100000 + unsigned(err)); g.nontrivial(); g.label(ok ? "value" : "error");
	auto make = [&]() -> fg::Expected<Obj> { if (ok) return fg::Expected<Obj>(Obj{std::make_unique<int>(v)}); return fg::Expected<Obj>(err); };
	auto check = [&](fg::Expected<Obj>& e, const char* how) {
		require(e.error() == err && bool(e) == ok, "expected", [&] { return std::string(how) + ": error() is " + std::to_string(unsigned(e.error())); });
		require((e.get_if() != nullptr) == ok, "expected get_if", how); if (ok) { require(*e.get().p == v && *e->p == v && *e.get_if()->p == v, "expected value", how); }
		const auto& c = e; require(c.error() == err && bool(c) == ok, "expected const", how); if (ok) require(*c->p == v, "expected const value", how);
	};
	auto e = make(); check(e, "made"); auto m = std::move(e); check(m, "moved"); auto o = g.flip() ? fg::Expected<Obj>(fg::Error::InvalidGLB) : fg::Expected<Obj>(Obj{std::make_unique<int>(-1)}); o = std::move(m); check(o, "assigned");
	auto [er, val] = std::move(o); require(er == err, "expected binding", "structured binding"); if (ok) require(val.p && *val.p == v, "expected binding", "structured binding value");
}

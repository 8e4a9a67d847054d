// C23: validation. Documents that obey the specification are accepted however they are loaded and whatever legal values
// are put at the edges of the rules; breaking one rule somewhere is refused; and any indices anywhere are safe.
#include <lib/dump.hpp>
#include <lib/gen_gltf.hpp>
#include <fastgltf/tools.hpp>
#include <functional>
#include <list>
using namespace pbt;
namespace fg = fastgltf;
using js::Json;
using A = fg::Asset;

static gg::Opts opts(Gen& g) {
	gg::Opts o; o.wild = g.chance(1, 8); o.maxNodes = 4; o.maxObjects = 3; o.meshoptRequired = g.flip(); o.accessors64 = g.chance(1, 4);
	if (g.chance(1, 8)) {} else if (g.chance(1, 3)) { for (auto& e : gg::allExts()) if (g.chance(1, 6)) o.exts.insert(e); } else o.exts = gg::allExts();
	return o;
}
static fg::Expected<A> load(const Json& root, fg::Options opt = fg::Options::None) {
	fg::Parser parser(dp::extBits(gg::allExts())); auto b = dp::bytes(js::text(root));
	return parser.loadGltfJson(b, "", opt | fg::Options::AllowDouble);
}
static void check(const A& a, bool ok, const char* tag, const std::string& what) {
	auto before = js::text(dp::dump(a));
	auto e = fg::validate(a);
	require((e == fg::Error::None) == ok, tag, [&] { return (ok ? "refused: " + dp::err(e) + ": " : std::string("accepted: ")) + what; });
	require(fg::validate(a) == e, "second", "validating again gives another result");
	require(js::text(dp::dump(a)) == before, "changed", "validating changed the asset");
}
template <class V> auto& any(V& v, Gen& g) { return v[g.draw(v.size() - 1)]; }
static size_t bad(size_t n, Gen& g) { return g.pick<size_t>({n, n + 1, n + 7, size_t(1) << 32, (size_t(1) << 32) + 1, ~size_t(0) / 2, ~size_t(0) / 40, ~size_t(0) - 1}); }
static bool used(const A& a, std::string_view n) { for (auto& x : a.extensionsUsed) if (std::string_view(x) == n) return true; return false; }
static void unuse(A& a, std::string_view n) { for (auto* l : {&a.extensionsUsed, &a.extensionsRequired}) for (size_t i = 0; i < l->size();) if (std::string_view((*l)[i]) == n) l->erase(l->begin() + i); else ++i; }
static void useExt(A& a, std::string_view n) { if (!used(a, n)) a.extensionsUsed.emplace_back(n); }
static void boundsFor(fg::Accessor& c) { // bounds fitting the accessor's type
	bool f = c.componentType == fg::ComponentType::Float || c.componentType == fg::ComponentType::Double; size_t n = fg::getNumComponents(c.type);
	auto t = f ? fg::AccessorBoundsArray::BoundsType::float64 : fg::AccessorBoundsArray::BoundsType::int64;
	if (c.min.has_value()) c.min.emplace(n, t);
	if (c.max.has_value()) c.max.emplace(n, t);
}

struct Rule { const char* name; std::function<bool(A&, Gen&)> f; };
using Rules = std::vector<Rule>;

// an object of the kind, or none
#define SOME(list) if (list.empty()) return false
static fg::Primitive* prim(A& a, Gen& g) { if (a.meshes.empty()) return nullptr; auto& m = any(a.meshes, g); return m.primitives.empty() ? nullptr : &any(m.primitives, g); }
static fg::Accessor* attribute(A& a, Gen& g, std::string_view prefix) { // accessor of an attribute with that name
	std::vector<size_t> c; for (auto& m : a.meshes) for (auto& p : m.primitives) for (auto& t : p.attributes) if (std::string_view(t.name).substr(0, prefix.size()) == prefix) c.push_back(t.accessorIndex);
	return c.empty() ? nullptr : &a.accessors[any(c, g)];
}
static const Rules& broken() {
	using E = fg::Error; (void)sizeof(E);
	static const Rules r = [] {
		Rules r; auto R = [&](const char* n, std::function<bool(A&, Gen&)> f) { r.push_back({n, std::move(f)}); };
		// declared extensions
		R("required but not used", [](A& a, Gen& g) { if (!a.extensionsRequired.empty() && g.flip()) { auto n = std::string(any(a.extensionsRequired, g)); for (size_t i = 0; i < a.extensionsUsed.size(); ++i) if (std::string_view(a.extensionsUsed[i]) == n) a.extensionsUsed[i] = "VENDOR_other"; return true; } a.extensionsRequired.emplace_back(g.pick<const char*>({"VENDOR_y", "KHR_", ""})); return true; });
		// accessors
		R("accessor type", [](A& a, Gen& g) { SOME(a.accessors); any(a.accessors, g).type = fg::AccessorType::Invalid; return true; });
		R("component type", [](A& a, Gen& g) { SOME(a.accessors); any(a.accessors, g).componentType = fg::ComponentType::Invalid; return true; });
		R("accessor count", [](A& a, Gen& g) { SOME(a.accessors); any(a.accessors, g).count = 0; return true; });
		R("accessor.bufferView", [](A& a, Gen& g) { SOME(a.accessors); any(a.accessors, g).bufferViewIndex = bad(a.bufferViews.size(), g); return true; });
		R("accessor offset alignment", [](A& a, Gen& g) { SOME(a.accessors); auto& c = any(a.accessors, g); size_t s = fg::getComponentByteSize(c.componentType); if (s < 2) return false; c.byteOffset = c.byteOffset / s * s + 1 + g.draw(s - 2); if (c.bufferViewIndex.has_value() && g.flip()) a.bufferViews[*c.bufferViewIndex].byteOffset += s - c.byteOffset % s; return true; });
		R("view offset alignment", [](A& a, Gen& g) { SOME(a.accessors); auto& c = any(a.accessors, g); size_t s = fg::getComponentByteSize(c.componentType); if (s < 2 || !c.bufferViewIndex.has_value()) return false; auto& v = a.bufferViews[*c.bufferViewIndex]; v.byteOffset = v.byteOffset / s * s + 1 + g.draw(s - 2); return true; });
		R("stride alignment", [](A& a, Gen& g) { SOME(a.accessors); auto& c = any(a.accessors, g); if (!c.bufferViewIndex.has_value()) return false; if (c.componentType != fg::ComponentType::Double) { c.componentType = fg::ComponentType::Double; c.byteOffset = 0; } boundsFor(c); auto& v = a.bufferViews[*c.bufferViewIndex]; v.byteOffset = 0; v.byteStride = g.pick<size_t>({4, 12, 20, 244}); return true; });
		for (bool mx : {false, true}) {
			R(mx ? "max of wrong type" : "min of wrong type", [mx](A& a, Gen& g) { SOME(a.accessors); auto& c = any(a.accessors, g); if (c.componentType != fg::ComponentType::Float && c.componentType != fg::ComponentType::Double) return false; (mx ? c.max : c.min).emplace(fg::getNumComponents(c.type), fg::AccessorBoundsArray::BoundsType::int64); return true; });
			R(mx ? "max of wrong size" : "min of wrong size", [mx](A& a, Gen& g) { SOME(a.accessors); auto& c = any(a.accessors, g); size_t n = fg::getNumComponents(c.type); bool f = c.componentType == fg::ComponentType::Float || c.componentType == fg::ComponentType::Double; (mx ? c.max : c.min).emplace(g.flip() ? n + 1 + g.draw(3) : g.draw(n - 1), f ? fg::AccessorBoundsArray::BoundsType::float64 : fg::AccessorBoundsArray::BoundsType::int64); return true; });
		}
		for (int k = 0; k < 2; ++k) {
			auto sp = [](A& a, Gen& g) -> fg::SparseAccessor* { std::vector<fg::SparseAccessor*> c; for (auto& x : a.accessors) if (x.sparse) c.push_back(&*x.sparse); return c.empty() ? nullptr : any(c, g); };
			R(k ? "sparse values view" : "sparse indices view", [k, sp](A& a, Gen& g) { auto* s = sp(a, g); if (!s) return false; (k ? s->valuesBufferView : s->indicesBufferView) = bad(a.bufferViews.size(), g); return true; });
			R(k ? "sparse values with stride" : "sparse indices with stride", [k, sp](A& a, Gen& g) { auto* s = sp(a, g); if (!s) return false; a.bufferViews[k ? s->valuesBufferView : s->indicesBufferView].byteStride = 4 * (2 + g.draw(3)); return true; });
			R(k ? "sparse values with target" : "sparse indices with target", [k, sp](A& a, Gen& g) { auto* s = sp(a, g); if (!s) return false; a.bufferViews[k ? s->valuesBufferView : s->indicesBufferView].target = g.flip() ? fg::BufferTarget::ArrayBuffer : fg::BufferTarget::ElementArrayBuffer; return true; });
		}
		// animations
		R("no channels", [](A& a, Gen& g) { SOME(a.animations); any(a.animations, g).channels.clear(); return true; });
		R("no samplers", [](A& a, Gen& g) { SOME(a.animations); any(a.animations, g).samplers.clear(); return true; });
		R("two channels with one target", [](A& a, Gen& g) { SOME(a.animations); auto& n = any(a.animations, g); auto c = any(n.channels, g); if (!c.nodeIndex.has_value()) return false; n.channels.insert(n.channels.begin() + g.draw(n.channels.size()), c); return true; });
		R("channel.sampler", [](A& a, Gen& g) { SOME(a.animations); auto& n = any(a.animations, g); any(n.channels, g).samplerIndex = bad(n.samplers.size(), g); return true; });
		R("channel.node", [](A& a, Gen& g) { SOME(a.animations); any(any(a.animations, g).channels, g).nodeIndex = bad(a.nodes.size(), g); return true; });
		R("sampler.input", [](A& a, Gen& g) { SOME(a.animations); any(any(a.animations, g).samplers, g).inputAccessor = bad(a.accessors.size(), g); return true; });
		R("sampler.output", [](A& a, Gen& g) { SOME(a.animations); any(any(a.animations, g).samplers, g).outputAccessor = bad(a.accessors.size(), g); return true; });
		auto chan = [](A& a, Gen& g, bool counts, std::function<bool(fg::AnimationSampler&, fg::Accessor& in, fg::Accessor& out)> f) {
			SOME(a.animations); auto& n = any(a.animations, g); auto& c = any(n.channels, g); auto& s = n.samplers[c.samplerIndex]; if (counts && c.path == fg::AnimationPath::Weights) return false;
			auto& in = a.accessors[s.inputAccessor]; auto& out = a.accessors[s.outputAccessor];
			if (counts) for (auto* x : {&in, &out}) if (x->bufferViewIndex.has_value() && a.bufferViews[*x->bufferViewIndex].meshoptCompression) return false;
			return f(s, in, out);
		};
		R("animation input type", [chan](A& a, Gen& g) { return chan(a, g, false, [&](auto&, auto& in, auto&) { in.type = g.pick({fg::AccessorType::Vec2, fg::AccessorType::Vec3, fg::AccessorType::Vec4, fg::AccessorType::Mat4}); boundsFor(in); return true; }); });
		R("animation input component", [chan](A& a, Gen& g) { return chan(a, g, false, [&](auto&, auto& in, auto&) { in.componentType = g.pick({fg::ComponentType::Byte, fg::ComponentType::UnsignedByte, fg::ComponentType::Short, fg::ComponentType::UnsignedShort, fg::ComponentType::UnsignedInt}); boundsFor(in); return true; }); });
		R("animation output count", [chan](A& a, Gen& g) { return chan(a, g, true, [&](auto& s, auto& in, auto& out) { size_t want = in.count * (s.interpolation == fg::AnimationInterpolation::CubicSpline ? 3 : 1); out.count = g.pick<size_t>({want + 1, want * 2, want - 1, want + 2}); return true; }); });
		R("single cubic key", [chan](A& a, Gen& g) { return chan(a, g, true, [&](auto& s, auto& in, auto& out) { s.interpolation = fg::AnimationInterpolation::CubicSpline; in.count = 1; out.count = 3; return true; }); });
		// buffers and views
		R("buffer length", [](A& a, Gen& g) { SOME(a.buffers); any(a.buffers, g).byteLength = 0; return true; });
		R("view length", [](A& a, Gen& g) { SOME(a.bufferViews); any(a.bufferViews, g).byteLength = 0; return true; });
		R("view stride", [](A& a, Gen& g) { SOME(a.bufferViews); any(a.bufferViews, g).byteStride = g.pick<size_t>({0, 1, 2, 3, 5, 6, 7, 10, 250, 251, 253, 254, 255, 256, 260, 1024, size_t(1) << 32}); return true; });
		R("view.buffer", [](A& a, Gen& g) { SOME(a.bufferViews); any(a.bufferViews, g).bufferIndex = bad(a.buffers.size(), g); return true; });
		auto mo = [](A& a, Gen& g) -> fg::CompressedBufferView* { std::vector<fg::CompressedBufferView*> c; for (auto& v : a.bufferViews) if (v.meshoptCompression) c.push_back(v.meshoptCompression.get()); return c.empty() ? nullptr : any(c, g); };
		R("meshopt without extension", [mo](A& a, Gen& g) { if (!mo(a, g)) return false; unuse(a, "EXT_meshopt_compression"); return true; });
		R("meshopt.buffer", [mo](A& a, Gen& g) { auto* c = mo(a, g); if (!c) return false; c->bufferIndex = bad(a.buffers.size(), g); return true; });
		R("meshopt stride", [mo](A& a, Gen& g) { auto* c = mo(a, g); if (!c) return false; c->byteStride = c->mode == fg::MeshoptCompressionMode::Attributes ? g.pick<size_t>({1, 2, 3, 6, 255, 257, 260, 1024}) : g.pick<size_t>({0, 1, 3, 5, 6, 8, 16}); return true; });
		R("meshopt triangle count", [mo](A& a, Gen& g) { auto* c = mo(a, g); if (!c) return false; c->mode = fg::MeshoptCompressionMode::Triangles; c->byteStride = g.flip() ? 2 : 4; c->count = 3 * g.draw(5) + 1 + g.draw(1); return true; });
		// cameras
		R("camera zero", [](A& a, Gen& g) {
			SOME(a.cameras); auto& c = any(a.cameras, g).camera; fg::num z = g.flip() ? fg::num(0) : fg::num(-0.0);
			if (auto* o = std::get_if<fg::Camera::Orthographic>(&c)) { o->zfar = z; return true; }
			auto& p = std::get<fg::Camera::Perspective>(c);
			switch (g.draw(3)) { case 0: p.aspectRatio = z; break; case 1: p.yfov = z; break; case 2: p.zfar = z; break; case 3: p.znear = z; break; }
			return true;
		});
		R("image.bufferView", [](A& a, Gen& g) { SOME(a.images); fg::sources::BufferView v; v.bufferViewIndex = bad(a.bufferViews.size(), g); v.mimeType = fg::MimeType::PNG; any(a.images, g).data = std::move(v); return true; });
		// lights
		R("light", [](A& a, Gen& g) {
			SOME(a.lights); auto& l = any(a.lights, g);
			if (g.chance(1, 4)) { if (l.type == fg::LightType::Directional) l.range = fg::num(1 + g.draw(3)); else l.range = g.pick<fg::num>({0, -1, -0.25f}); return true; }
			if (l.type != fg::LightType::Spot) { if (g.flip()) l.innerConeAngle = fg::num(0.1); else l.outerConeAngle = fg::num(0.1); return true; }
			switch (g.draw(4)) {
				case 0: l.innerConeAngle.reset(); break; case 1: l.outerConeAngle.reset(); break; case 2: l.innerConeAngle = fg::num(-0.01); break;
				case 3: l.innerConeAngle = fg::num(*l.outerConeAngle + 0.01); break; case 4: l.outerConeAngle = fg::num(g.flip() ? 1.5709 : 3); break;
			}
			return true;
		});
		// materials
		R("texture reference", [](A& a, Gen& g) {
			SOME(a.materials); auto& m = any(a.materials, g); size_t b = bad(a.textures.size(), g);
			std::vector<std::function<void()>> c;
			auto T = [&](auto& t) { auto* p = &t; c.push_back([p, b] { if (!p->has_value()) p->emplace(); (*p)->textureIndex = b; }); };
			T(m.normalTexture); T(m.emissiveTexture); T(m.occlusionTexture); T(m.pbrData.baseColorTexture); T(m.pbrData.metallicRoughnessTexture);
			if (m.anisotropy) T(m.anisotropy->anisotropyTexture);
			if (m.clearcoat) { T(m.clearcoat->clearcoatTexture); T(m.clearcoat->clearcoatRoughnessTexture); T(m.clearcoat->clearcoatNormalTexture); }
			if (m.diffuseTransmission) { T(m.diffuseTransmission->diffuseTransmissionTexture); T(m.diffuseTransmission->diffuseTransmissionColorTexture); }
			if (m.iridescence) { T(m.iridescence->iridescenceTexture); T(m.iridescence->iridescenceThicknessTexture); }
			if (m.sheen) { T(m.sheen->sheenColorTexture); T(m.sheen->sheenRoughnessTexture); }
			if (m.specular) { T(m.specular->specularTexture); T(m.specular->specularColorTexture); }
			if (m.specularGlossiness) { T(m.specularGlossiness->diffuseTexture); T(m.specularGlossiness->specularGlossinessTexture); }
			if (m.transmission) T(m.transmission->transmissionTexture);
			if (m.volume) T(m.volume->thicknessTexture);
			if (m.packedNormalMetallicRoughnessTexture.has_value()) T(m.packedNormalMetallicRoughnessTexture);
			if (m.packedOcclusionRoughnessMetallicTextures) { auto& p = *m.packedOcclusionRoughnessMetallicTextures; T(p.occlusionRoughnessMetallicTexture); T(p.roughnessMetallicOcclusionTexture); T(p.normalTexture); }
			any(c, g)(); return true;
		});
		struct X { const char* e; bool (*has)(const fg::Material&); };
		static const X xs[] = {
			{"KHR_materials_anisotropy", [](const fg::Material& m) { return !!m.anisotropy; }}, {"KHR_materials_clearcoat", [](const fg::Material& m) { return !!m.clearcoat; }}, {"KHR_materials_iridescence", [](const fg::Material& m) { return !!m.iridescence; }},
			{"KHR_materials_sheen", [](const fg::Material& m) { return !!m.sheen; }}, {"KHR_materials_specular", [](const fg::Material& m) { return !!m.specular; }}, {"KHR_materials_pbrSpecularGlossiness", [](const fg::Material& m) { return !!m.specularGlossiness; }},
			{"KHR_materials_transmission", [](const fg::Material& m) { return !!m.transmission; }}, {"KHR_materials_volume", [](const fg::Material& m) { return !!m.volume; }}, {"KHR_materials_emissive_strength", [](const fg::Material& m) { return m.emissiveStrength != 1; }},
			{"KHR_materials_ior", [](const fg::Material& m) { return m.ior != 1.5f; }}, {"MSFT_packing_normalRoughnessMetallic", [](const fg::Material& m) { return m.packedNormalMetallicRoughnessTexture.has_value(); }},
			{"MSFT_packing_occlusionRoughnessMetallic", [](const fg::Material& m) { return !!m.packedOcclusionRoughnessMetallicTextures; }}, {"KHR_materials_diffuse_transmission", [](const fg::Material& m) { return !!m.diffuseTransmission; }}};
		for (auto& x : xs) R(x.e, [x](A& a, Gen& g) { bool h = false; for (auto& m : a.materials) h = h || x.has(m); if (!h) return false; unuse(a, x.e); if (g.flip()) a.extensionsUsed.emplace_back(std::string(x.e) + "_2"); return true; });
		// meshes
		R("primitive.material", [](A& a, Gen& g) { auto* p = prim(a, g); if (!p) return false; p->materialIndex = bad(a.materials.size(), g); return true; });
		R("variants without extension", [](A& a, Gen&) { bool h = false; for (auto& m : a.meshes) for (auto& p : m.primitives) h = h || !p.mappings.empty(); if (!h) return false; unuse(a, "KHR_materials_variants"); return true; });
		auto mapped = [](A& a, Gen& g) -> fg::Primitive* { std::vector<fg::Primitive*> c; for (auto& m : a.meshes) for (auto& p : m.primitives) if (!p.mappings.empty()) c.push_back(&p); return c.empty() ? nullptr : any(c, g); };
		R("variant mapping count", [mapped](A& a, Gen& g) { auto* p = mapped(a, g); if (!p) return false; if (g.flip() && p->mappings.size() > 1) p->mappings.pop_back(); else p->mappings.resize(p->mappings.size() + 1); return true; });
		R("variant mapping", [mapped](A& a, Gen& g) { auto* p = mapped(a, g); if (!p) return false; any(p->mappings, g) = bad(a.materials.size(), g); return true; });
		R("primitive.indices", [](A& a, Gen& g) { auto* p = prim(a, g); if (!p) return false; p->indicesAccessor = bad(a.accessors.size(), g); return true; });
		R("stride on index view", [](A& a, Gen& g) { auto* p = prim(a, g); if (!p || !p->indicesAccessor.has_value()) return false; auto& c = a.accessors[*p->indicesAccessor]; if (!c.bufferViewIndex.has_value()) return false; a.bufferViews[*c.bufferViewIndex].byteStride = 4 + 4 * g.draw(3); return true; });
		R("attribute accessor", [](A& a, Gen& g) { auto* p = prim(a, g); if (!p) return false; any(p->attributes, g).accessorIndex = bad(a.accessors.size(), g); return true; });
		R("target accessor", [](A& a, Gen& g) { auto* p = prim(a, g); if (!p || p->targets.empty()) return false; auto& t = any(p->targets, g); if (t.empty()) return false; any(t, g).accessorIndex = bad(a.accessors.size(), g); return true; });
		R("draco.bufferView", [](A& a, Gen& g) { auto* p = prim(a, g); if (!p || !p->dracoCompression) return false; p->dracoCompression->bufferView = bad(a.bufferViews.size(), g); return true; });
		R("attribute name", [](A& a, Gen& g) { auto* p = prim(a, g); if (!p) return false; any(p->attributes, g).name = g.pick<const char*>({"", "position", "POSITION_0", "POSITION ", "NORMALS", "TANGENT0", "TEXCOORD", "COLOR", "JOINTS", "WEIGHTS", "TEMPERATURE", "XTEXCOORD_0", "a_"}); return true; });
		R("position bounds", [](A& a, Gen& g) { auto* c = attribute(a, g, "POSITION"); if (!c) return false; if (g.flip()) c->min.reset(); else c->max.reset(); return true; });
		using CT = fg::ComponentType; using AT = fg::AccessorType;
		struct Sem { const char* n; std::vector<AT> types; std::vector<CT> plain, quant; };
		static const std::vector<Sem> sems = {
			{"POSITION", {AT::Vec3}, {CT::Float}, {CT::Float, CT::Byte, CT::UnsignedByte, CT::Short, CT::UnsignedShort}},
			{"NORMAL", {AT::Vec3}, {CT::Float}, {CT::Float, CT::Byte, CT::Short}}, {"TANGENT", {AT::Vec4}, {CT::Float}, {CT::Float, CT::Byte, CT::Short}},
			{"TEXCOORD_", {AT::Vec2}, {CT::Float, CT::UnsignedByte, CT::UnsignedShort}, {CT::Float, CT::Byte, CT::UnsignedByte, CT::Short, CT::UnsignedShort}},
			{"COLOR_", {AT::Vec3, AT::Vec4}, {CT::Float, CT::UnsignedByte, CT::UnsignedShort}, {CT::Float, CT::UnsignedByte, CT::UnsignedShort}},
			{"JOINTS_", {AT::Vec4}, {CT::UnsignedByte, CT::UnsignedShort}, {CT::UnsignedByte, CT::UnsignedShort}},
			{"WEIGHTS_", {AT::Vec4}, {CT::Float, CT::UnsignedByte, CT::UnsignedShort}, {CT::Float, CT::UnsignedByte, CT::UnsignedShort}}};
		for (size_t k = 0; k < sems.size(); ++k) {
			static std::list<std::string> names; auto nm = [&](const std::string& s) { names.push_back(s); return names.back().c_str(); };
			auto& s = sems[k];
			R(nm(std::string(s.n) + " type"), [&s](A& a, Gen& g) { auto* c = attribute(a, g, s.n); if (!c) return false; std::vector<AT> o; for (auto t : {AT::Scalar, AT::Vec2, AT::Vec3, AT::Vec4, AT::Mat2, AT::Mat3, AT::Mat4}) if (std::find(s.types.begin(), s.types.end(), t) == s.types.end()) o.push_back(t); c->type = any(o, g); boundsFor(*c); return true; });
			R(nm(std::string(s.n) + " component"), [&s](A& a, Gen& g) {
				auto* c = attribute(a, g, s.n); if (!c) return false; if (g.flip()) { unuse(a, "KHR_mesh_quantization"); } else if (g.flip()) useExt(a, "KHR_mesh_quantization");
				auto& ok = used(a, "KHR_mesh_quantization") ? s.quant : s.plain; std::vector<CT> o; for (auto t : {CT::Byte, CT::UnsignedByte, CT::Short, CT::UnsignedShort, CT::UnsignedInt, CT::Float, CT::Double}) if (std::find(ok.begin(), ok.end(), t) == ok.end()) o.push_back(t);
				c->componentType = any(o, g); c->byteOffset = 0; if (c->bufferViewIndex.has_value()) a.bufferViews[*c->bufferViewIndex].byteOffset = 0; boundsFor(*c); return true;
			});
		}
		R("unsigned int in custom attribute", [](A& a, Gen& g) { auto* c = attribute(a, g, "_"); if (!c) return false; c->componentType = CT::UnsignedInt; c->byteOffset = 0; if (c->bufferViewIndex.has_value()) a.bufferViews[*c->bufferViewIndex].byteOffset = 0; boundsFor(*c); return true; });
		// nodes
		R("node reference", [](A& a, Gen& g) { SOME(a.nodes); auto& n = any(a.nodes, g); switch (g.draw(4)) { case 0: n.cameraIndex = bad(a.cameras.size(), g); break; case 1: n.skinIndex = bad(a.skins.size(), g); break; case 2: n.meshIndex = bad(a.meshes.size(), g); break; case 3: n.lightIndex = bad(a.lights.size(), g); break; case 4: n.children.emplace_back(bad(a.nodes.size(), g)); break; } return true; });
		R("instancing accessor", [](A& a, Gen& g) { for (auto& n : a.nodes) if (!n.instancingAttributes.empty()) { any(n.instancingAttributes, g).accessorIndex = bad(a.accessors.size(), g); return true; } return false; });
		R("physics reference", [](A& a, Gen& g) {
			for (auto& n : a.nodes) if (n.physicsRigidBody) {
				auto& b = *n.physicsRigidBody; std::vector<std::function<void()>> c; size_t nodes = bad(a.nodes.size(), g), shapes = bad(a.shapes.size(), g), mats = bad(a.physicsMaterials.size(), g), filters = bad(a.collisionFilters.size(), g), joints = bad(a.physicsJoints.size(), g);
				auto geo = [&](fg::Geometry& q) { auto* p = &q; c.push_back([=] { p->shape = shapes; }); c.push_back([=] { p->node = nodes; }); };
				if (b.collider.has_value()) { auto* p = &*b.collider; geo(p->geometry); c.push_back([=] { p->physicsMaterial = mats; }); c.push_back([=] { p->collisionFilter = filters; }); }
				if (b.trigger.has_value()) { if (auto* t = std::get_if<fg::GeometryTrigger>(&*b.trigger)) { geo(t->geometry); c.push_back([=] { t->collisionFilter = filters; }); } else { auto* t2 = std::get_if<fg::NodeTrigger>(&*b.trigger); c.push_back([=] { t2->nodes.emplace_back(nodes); }); } }
				if (b.joint.has_value()) { auto* p = &*b.joint; c.push_back([=] { p->joint = joints; }); c.push_back([=] { p->connectedNode = nodes; }); }
				if (c.empty()) continue; any(c, g)(); return true;
			}
			return false;
		});
		R("rotation component", [](A& a, Gen& g) { SOME(a.nodes); auto* t = std::get_if<fg::TRS>(&any(a.nodes, g).transform); if (!t) return false; t->rotation[g.draw(3)] = g.pick<float>({1.01f, -1.01f, 5, -3, 1.000001f}); return true; });
		R("skin without mesh", [](A& a, Gen& g) { SOME(a.nodes); SOME(a.skins); auto& n = any(a.nodes, g); n.skinIndex = g.draw(a.skins.size() - 1); n.meshIndex.reset(); n.weights.clear(); return true; });
		R("weights without mesh", [](A& a, Gen& g) { SOME(a.nodes); auto& n = any(a.nodes, g); n.skinIndex.reset(); n.meshIndex.reset(); if (n.weights.empty()) n.weights.emplace_back(fg::num(1)); return true; });
		R("skin without joints and weights", [](A& a, Gen& g) {
			for (auto& n : a.nodes) if (n.skinIndex.has_value()) {
				auto& p = any(a.meshes[*n.meshIndex].primitives, g); const char* what = g.flip() ? "JOINTS_0" : "WEIGHTS_0"; decltype(p.attributes) rest;
				for (auto& t : p.attributes) { if (std::string_view(t.name) != what) rest.emplace_back(t); else if (g.flip()) { auto u = t; u.name = what == std::string_view("JOINTS_0") ? "JOINTS_1" : "WEIGHTS_1"; rest.emplace_back(u); } }
				p.attributes = std::move(rest); return true;
			}
			return false;
		});
		R("node flag without extension", [](A& a, Gen& g) { SOME(a.nodes); auto& n = any(a.nodes, g); switch (g.draw(2)) { case 0: n.visible = false; unuse(a, "KHR_node_visibility"); break; case 1: n.selectable = false; unuse(a, "KHR_node_selectability"); break; case 2: n.hoverable = false; unuse(a, "KHR_node_hoverability"); break; } return true; });
		R("two parents", [](A& a, Gen& g) { std::vector<size_t> kids; for (auto& n : a.nodes) for (auto c : n.children) kids.push_back(c); SOME(kids); size_t k = any(kids, g); any(a.nodes, g).children.emplace_back(k); return true; });
		R("cycle", [](A& a, Gen& g) { // a chain of roots and the last one's child is the first
			std::vector<bool> child(a.nodes.size()); for (auto& n : a.nodes) for (auto c : n.children) child[c] = true; SOME(a.nodes);
			std::vector<size_t> roots; for (size_t i = 0; i < child.size(); ++i) if (!child[i]) roots.push_back(i); size_t n = 1 + g.draw(roots.size() - 1);
			for (auto& s : a.scenes) { decltype(s.nodeIndices) keep; for (auto x : s.nodeIndices) { bool out = false; for (size_t i = 0; i < n; ++i) out = out || roots[i] == x; if (!out) keep.emplace_back(x); } s.nodeIndices = std::move(keep); }
			for (size_t i = 0; i < n; ++i) { size_t at = roots[i]; while (g.flip() && !a.nodes[at].children.empty()) at = a.nodes[at].children[0]; a.nodes[at].children.emplace_back(roots[(i + 1) % n]); }
			return true;
		});
		R("scene with an inner node", [](A& a, Gen& g) { std::vector<size_t> kids; for (auto& n : a.nodes) for (auto c : n.children) kids.push_back(c); SOME(kids); SOME(a.scenes); any(a.scenes, g).nodeIndices.emplace_back(any(kids, g)); return true; });
		R("mag filter", [](A& a, Gen& g) { SOME(a.samplers); any(a.samplers, g).magFilter = g.pick({fg::Filter::NearestMipMapNearest, fg::Filter::LinearMipMapNearest, fg::Filter::NearestMipMapLinear, fg::Filter::LinearMipMapLinear}); return true; });
		R("scene.nodes", [](A& a, Gen& g) { SOME(a.scenes); any(a.scenes, g).nodeIndices.emplace_back(bad(a.nodes.size(), g)); return true; });
		R("scene", [](A& a, Gen& g) { a.defaultScene = bad(a.scenes.size(), g); return true; });
		R("no joints", [](A& a, Gen& g) { SOME(a.skins); any(a.skins, g).joints.clear(); return true; });
		R("skin reference", [](A& a, Gen& g) { SOME(a.skins); auto& s = any(a.skins, g); switch (g.draw(2)) { case 0: any(s.joints, g) = bad(a.nodes.size(), g); break; case 1: s.skeleton = bad(a.nodes.size(), g); break; case 2: s.inverseBindMatrices = bad(a.accessors.size(), g); break; } return true; });
		R("texture.sampler", [](A& a, Gen& g) { SOME(a.textures); any(a.textures, g).samplerIndex = bad(a.samplers.size(), g); return true; });
		R("texture image", [](A& a, Gen& g) { SOME(a.textures); auto& t = any(a.textures, g); size_t b = bad(a.images.size(), g); switch (g.draw(3)) { case 0: t.imageIndex = b; break; case 1: t.basisuImageIndex = b; break; case 2: t.ddsImageIndex = b; break; case 3: t.webpImageIndex = b; break; } return true; });
		R("texture without image", [](A& a, Gen& g) { SOME(a.textures); auto& t = any(a.textures, g); t.imageIndex.reset(); if (g.flip()) { t.basisuImageIndex.reset(); t.ddsImageIndex.reset(); t.webpImageIndex.reset(); } else for (auto e : {"KHR_texture_basisu", "MSFT_texture_dds", "EXT_texture_webp"}) unuse(a, e); return true; });
		R("single root", [](A& a, Gen& g) {
			if (used(a, "GODOT_single_root")) {
				switch (g.draw(6)) {
					case 0: if (g.flip() || a.scenes[0].nodeIndices.empty()) { a.scenes.clear(); a.defaultScene.reset(); } else a.scenes.emplace_back(); break;
					case 1: a.defaultScene.reset(); break;
					case 2: a.scenes[0].nodeIndices.clear(); break;
					case 3: { auto id = a.nodes.size(); a.nodes.emplace_back(); a.scenes[0].nodeIndices.emplace_back(id); break; }
					case 4: { auto id = a.nodes.size(); a.nodes.emplace_back(); a.scenes[0].nodeIndices[0] = id; break; }
					case 5: { fg::TRS t; switch (g.draw(2)) { case 0: t.translation[g.draw(2)] = g.flip() ? 1.f : 1e-6f; break; case 1: t.scale[g.draw(2)] = g.flip() ? 2.f : 1.0001f; break; case 2: t.rotation = fg::math::fquat(0.f, 1.f, 0.f, 0.f); break; } a.nodes[0].transform = t; break; }
					case 6: { fg::math::fmat4x4 m(1.0f); size_t i = g.draw(2); if (g.flip()) m[3][i] = 1; else m[i][i] = 2; a.nodes[0].transform = m; break; }
				}
				return true;
			}
			// an asset that is not of this shape must not claim to be
			if (a.scenes.size() == 1 && a.defaultScene.has_value() && a.scenes[0].nodeIndices.size() == 1 && a.scenes[0].nodeIndices[0] == 0) return false;
			a.extensionsUsed.emplace_back("GODOT_single_root"); return true;
		});
		return r;
	}();
	return r;
}
// edits after which a valid asset is still valid: values at the edge of the rules
static const Rules& legal() {
	static const Rules r = [] {
		Rules r; auto R = [&](const char* n, std::function<bool(A&, Gen&)> f) { r.push_back({n, std::move(f)}); };
		R("cone angles", [](A& a, Gen& g) { SOME(a.lights); auto& l = any(a.lights, g); if (l.type != fg::LightType::Spot) return false; l.outerConeAngle = static_cast<fg::num>(1.57079632679489661923); l.innerConeAngle = g.flip() ? fg::num(0) : fg::num(1.5); return true; });
		R("small range", [](A& a, Gen& g) { SOME(a.lights); auto& l = any(a.lights, g); if (l.type == fg::LightType::Directional) return false; if (g.flip()) l.range.reset(); else l.range = fg::num(1e-30); return true; });
		R("unit rotation", [](A& a, Gen& g) { SOME(a.nodes); auto& n = any(a.nodes, g); if (used(a, "GODOT_single_root")) return false; fg::TRS t; t.rotation = fg::math::fquat(0.f, 0.f, 0.f, 0.f); t.rotation[g.draw(3)] = g.flip() ? 1.f : -1.f; n.transform = t; return true; });
		R("zero scale", [](A& a, Gen& g) { SOME(a.nodes); auto& n = any(a.nodes, g); if (used(a, "GODOT_single_root")) return false; fg::TRS t; t.scale[g.draw(2)] = 0; n.transform = t; return true; });
		R("tiny camera", [](A& a, Gen& g) { SOME(a.cameras); auto& c = any(a.cameras, g).camera; if (auto* o = std::get_if<fg::Camera::Orthographic>(&c)) { o->zfar = fg::num(1e-30); o->znear = 0; return true; } auto& p = std::get<fg::Camera::Perspective>(c); p.znear = fg::num(1e-30); p.yfov = fg::num(1e-30); if (g.flip()) p.zfar.reset(); if (g.flip()) p.aspectRatio.reset(); else p.aspectRatio = fg::num(1e-30); return true; });
		R("view stride", [](A& a, Gen& g) { // a view for vertices nothing uses yet
			SOME(a.buffers); auto& v = a.bufferViews.emplace_back(); v.bufferIndex = g.draw(a.buffers.size() - 1); v.byteOffset = 0; v.byteLength = 1; v.byteStride = g.pick<size_t>({4, 8, 128, 248, 252}); return true; });
		R("meshopt values", [](A& a, Gen& g) { for (auto& v : a.bufferViews) if (v.meshoptCompression) { auto& c = *v.meshoptCompression; if (c.mode == fg::MeshoptCompressionMode::Attributes) c.byteStride = g.pick<size_t>({4, 256, 252}); else { c.byteStride = g.flip() ? 2 : 4; if (c.mode == fg::MeshoptCompressionMode::Triangles) c.count = 3 * (1 + g.draw(9)); else c.count = 1 + g.draw(9); } return true; } return false; });
		R("bounds only on one side", [](A& a, Gen& g) { // not for vertex positions and animation input
			std::vector<bool> keep(a.accessors.size()); for (auto& m : a.meshes) for (auto& p : m.primitives) { for (auto& t : p.attributes) keep[t.accessorIndex] = true; for (auto& t : p.targets) for (auto& x : t) keep[x.accessorIndex] = true; } for (auto& n : a.animations) for (auto& s : n.samplers) keep[s.inputAccessor] = true;
			for (size_t i = 0; i < keep.size(); ++i) if (!keep[i]) { auto& c = a.accessors[i]; c.min.reset(); c.max.reset(); bool f = c.componentType == fg::ComponentType::Float || c.componentType == fg::ComponentType::Double; (g.flip() ? c.min : c.max).emplace(fg::getNumComponents(c.type), f ? fg::AccessorBoundsArray::BoundsType::float64 : fg::AccessorBoundsArray::BoundsType::int64); return true; }
			return false;
		});
		R("more extensions", [](A& a, Gen& g) { a.extensionsUsed.emplace_back("VENDOR_x"); if (g.flip()) a.extensionsRequired.emplace_back("VENDOR_x"); if (g.flip()) std::reverse(a.extensionsUsed.begin(), a.extensionsUsed.end()); return true; });
		R("channels without node", [](A& a, Gen& g) { SOME(a.animations); auto& n = any(a.animations, g); auto c = any(n.channels, g); c.nodeIndex.reset(); n.channels.emplace_back(c); n.channels.emplace_back(c); return true; });
		R("one node, other paths", [](A& a, Gen& g) { SOME(a.animations); auto& n = any(a.animations, g); for (size_t i = 0; i < n.channels.size(); ++i) { auto c = n.channels[i]; if (!c.nodeIndex.has_value() || c.path == fg::AnimationPath::Weights) continue; for (auto p : {fg::AnimationPath::Translation, fg::AnimationPath::Scale}) { bool taken = c.path == fg::AnimationPath::Rotation; for (auto& o : n.channels) taken = taken || (o.nodeIndex == c.nodeIndex && o.path == p); if (taken) continue; auto d = c; d.path = p; n.channels.emplace_back(d); return true; } } return false; });
		R("single key", [](A& a, Gen& g) { SOME(a.animations); auto& n = any(a.animations, g); auto& c = any(n.channels, g); auto& s = n.samplers[c.samplerIndex]; if (c.path == fg::AnimationPath::Weights || s.interpolation == fg::AnimationInterpolation::CubicSpline) return false; size_t users = 0; for (auto& m : a.animations) for (auto& x : m.samplers) users += (x.inputAccessor == s.inputAccessor) + (x.outputAccessor == s.outputAccessor); if (users != 2) return false; a.accessors[s.inputAccessor].count = a.accessors[s.outputAccessor].count = 1; a.accessors[s.inputAccessor].sparse.reset(); a.accessors[s.outputAccessor].sparse.reset(); return true; });
		R("quantization with floats", [](A& a, Gen&) { useExt(a, "KHR_mesh_quantization"); return true; });
		R("numbered attributes", [](A& a, Gen& g) { auto* p = prim(a, g); if (!p) return false; for (auto& t : p->attributes) { auto n = std::string_view(t.name); if (n.substr(0, 9) == "TEXCOORD_") { t.name = "TEXCOORD_12"; return true; } if (n.substr(0, 1) == "_") { t.name = g.pick<const char*>({"_", "__", "_POSITION", "_position"}); return true; } } return false; });
		R("mag filter", [](A& a, Gen& g) { SOME(a.samplers); auto& s = any(a.samplers, g); s.magFilter.reset(); if (g.flip()) s.magFilter = g.flip() ? fg::Filter::Nearest : fg::Filter::Linear; s.minFilter = g.pick({fg::Filter::NearestMipMapNearest, fg::Filter::LinearMipMapLinear}); return true; });
		R("no default scene", [](A& a, Gen& g) { if (used(a, "GODOT_single_root")) return false; if (a.scenes.empty() || g.flip()) a.defaultScene.reset(); else a.defaultScene = a.scenes.size() - 1; return true; });
		R("empty scene", [](A& a, Gen&) { if (used(a, "GODOT_single_root")) return false; a.scenes.emplace_back(); return true; });
		R("roots again", [](A& a, Gen& g) { SOME(a.nodes); if (used(a, "GODOT_single_root")) return false; auto id = a.nodes.size(); a.nodes.emplace_back(); for (auto& s : a.scenes) if (g.flip()) s.nodeIndices.emplace_back(id); return true; });
		R("deep nodes", [](A& a, Gen& g) { SOME(a.nodes); size_t at = g.draw(a.nodes.size() - 1); for (size_t n = 1 + g.draw(30); n > 0; --n) { auto id = a.nodes.size(); a.nodes.emplace_back(); a.nodes[at].children.emplace_back(id); if (g.chance(3, 4)) at = id; } return true; });
		R("unmapped variants", [](A& a, Gen&) { for (auto& m : a.meshes) for (auto& p : m.primitives) if (!p.mappings.empty()) { for (auto& x : p.mappings) x.reset(); return true; } return false; });
		return r;
	}();
	return r;
}
static bool apply(const Rules& rules, A& a, Gen& g, std::string& what, bool label) {
	size_t start = g.draw(rules.size() - 1);
	for (size_t k = 0; k < 12; ++k) { auto& r = rules[(start + k) % rules.size()]; if (r.f(a, g)) { what += std::string(what.empty() ? "" : "; ") + r.name; if (label) g.label(r.name); return true; } }
	return false;
}
// a document of the shape GODOT_single_root asks for
static bool singleRoot(Json& r, Gen& g) {
	auto* n = r.find("nodes"); if (!n) return false; auto& root = n->a[0];
	for (auto k : {"translation", "rotation", "scale", "matrix"}) root.erase(k);
	switch (g.draw(3)) {
		case 1: root["matrix"] = Json::arr({Json(1), Json(0), Json(0), Json(0), Json(0), Json(1), Json(0), Json(0), Json(0), Json(0), Json(1.0), Json(0), Json(0), Json(0), Json(0), Json(1)}); break;
		case 2: root["scale"] = Json::arr({Json(1), Json(1), Json(1)}); root["translation"] = Json::arr({Json(0), Json(0.0), Json(0)}); break;
		case 3: root["rotation"] = Json::arr({Json(0), Json(0), Json(0), Json(1)}); break;
		default: break;
	}
	auto s = Json::arr(); auto o = Json::obj(); o["nodes"] = Json::arr({Json(0u)}); s.push(o); r["scenes"] = s; r["scene"] = Json(0u);
	if (!r.find("extensionsUsed")) r["extensionsUsed"] = Json::arr(); r["extensionsUsed"].push("GODOT_single_root");
	return true;
}
static Json make(Gen& g) {
	auto d = gg::document(g, opts(g)); auto root = d.root;
	if (d.objects() > 3) g.nontrivial();
	if (g.chance(1, 8) && singleRoot(root, g)) g.label("single root document");
	g.note(js::text(root)); g.key(hashStr(js::text(root)));
	return root;
}

PROPERTY(accepts, 7000, 900000) {
	auto root = make(g); std::string what = "unchanged";
	auto o = fg::Options::None; bool dec = g.chance(1, 4), ind = g.chance(1, 4);
	if (dec) o |= fg::Options::DecomposeNodeMatrices; if (ind) o |= fg::Options::GenerateMeshIndices;
	auto a = load(root, o);
	require(a.error() == fg::Error::None, "load", [&] { return "valid document refused: " + dp::err(a.error()); });
	what = std::string("a valid document") + (dec ? ", matrices decomposed" : "") + (ind ? ", indices generated" : "");
	check(a.get(), true, "valid", what);
	std::string edits;
	for (size_t n = g.draw(3); n > 0; --n) apply(legal(), a.get(), g, edits, true);
	if (!edits.empty()) check(a.get(), true, "valid after edits", edits);
}
PROPERTY(refuses, 24000, 3000000) {
	auto root = make(g); auto a = load(root);
	require(a.error() == fg::Error::None, "load", [&] { return "valid document refused: " + dp::err(a.error()); });
	std::string what; for (size_t n = g.draw(2); n > 0; --n) apply(legal(), a.get(), g, what, false);
	std::string rule; if (!apply(broken(), a.get(), g, rule, true)) throw Discard{};
	g.note(what + " | " + rule); g.key(hashStr(js::text(root) + what + rule));
	check(a.get(), false, rule.c_str(), rule + (what.empty() ? "" : " (after " + what + ")"));
}
// whatever is wrong, validation is safe, says the same again and refuses; one violation more never makes it accept
PROPERTY(any_asset, 6000, 900000) {
	auto root = make(g); auto a = load(root);
	require(a.error() == fg::Error::None, "load", [&] { return "valid document refused: " + dp::err(a.error()); });
	std::string what; for (size_t n = g.draw(3); n > 0; --n) apply(legal(), a.get(), g, what, false);
	if (a->nodes.size() > 1 && g.flip()) { g.label("arbitrary children"); for (auto& n : a->nodes) if (g.flip()) n.children.emplace_back(g.draw(a->nodes.size())); }
	size_t bads = 0; auto idx = [&](auto& x, size_t n, size_t one_in) { if (g.chance(1, one_in)) { x = g.flip() ? bad(n, g) : g.draw(n); ++bads; } };
	size_t rate = 1 + g.draw(20);
	for (auto& x : a->accessors) { idx(x.bufferViewIndex, a->bufferViews.size(), rate); if (x.sparse) { idx(x.sparse->indicesBufferView, a->bufferViews.size(), rate); idx(x.sparse->valuesBufferView, a->bufferViews.size(), rate); } if (g.chance(1, rate)) x.type = g.pick({fg::AccessorType::Invalid, fg::AccessorType::Scalar, fg::AccessorType::Mat4}); if (g.chance(1, rate)) x.componentType = g.pick({fg::ComponentType::Invalid, fg::ComponentType::Int, fg::ComponentType::Double}); if (g.chance(1, rate)) x.count = g.pick<size_t>({0, ~size_t(0), ~size_t(0) / 3 + 1}); if (g.chance(1, rate)) x.byteOffset = bad(0, g); }
	for (auto& x : a->bufferViews) { idx(x.bufferIndex, a->buffers.size(), rate); if (x.meshoptCompression) idx(x.meshoptCompression->bufferIndex, a->buffers.size(), rate); if (g.chance(1, rate)) x.byteOffset = bad(0, g); if (g.chance(1, rate)) x.byteStride = g.draw(300); }
	for (auto& x : a->animations) { for (auto& s : x.samplers) { idx(s.inputAccessor, a->accessors.size(), rate); idx(s.outputAccessor, a->accessors.size(), rate); } for (auto& c : x.channels) { idx(c.samplerIndex, x.samplers.size(), rate); idx(c.nodeIndex, a->nodes.size(), rate); } if (g.chance(1, rate * 4)) x.samplers.clear(); }
	for (auto& m : a->meshes) { for (auto& p : m.primitives) { for (auto& t : p.attributes) idx(t.accessorIndex, a->accessors.size(), rate); idx(p.indicesAccessor, a->accessors.size(), rate); idx(p.materialIndex, a->materials.size(), rate); for (auto& x : p.mappings) idx(x, a->materials.size(), rate); } if (g.chance(1, rate * 4)) m.primitives.clear(); }
	for (auto& n : a->nodes) { idx(n.meshIndex, a->meshes.size(), rate); idx(n.skinIndex, a->skins.size(), rate); idx(n.cameraIndex, a->cameras.size(), rate); idx(n.lightIndex, a->lights.size(), rate); for (auto& c : n.children) idx(c, a->nodes.size(), rate); }
	for (auto& s : a->scenes) for (auto& x : s.nodeIndices) idx(x, a->nodes.size(), rate);
	idx(a->defaultScene, a->scenes.size(), rate);
	for (auto& s : a->skins) { for (auto& j : s.joints) idx(j, a->nodes.size(), rate); idx(s.skeleton, a->nodes.size(), rate); }
	for (auto& t : a->textures) { idx(t.imageIndex, a->images.size(), rate); idx(t.samplerIndex, a->samplers.size(), rate); }
	if (g.chance(1, 6)) { useExt(a.get(), "GODOT_single_root"); g.label("claims to have a single root"); }
	if (g.chance(1, 12)) a->nodes.clear(); if (g.chance(1, 12)) a->bufferViews.clear(); if (g.chance(1, 12)) a->accessors.clear(); if (g.chance(1, 12)) a->scenes.clear(); if (g.chance(1, 12)) a->meshes.clear();
	auto before = js::text(dp::dump(a.get())); auto e = fg::validate(a.get());
	require(fg::validate(a.get()) == e, "second", "validating again gives another result");
	require(js::text(dp::dump(a.get())) == before, "changed", "validating changed the asset");
	if (e != fg::Error::None) { g.label("refused"); return; }
	g.label("accepted");
	// every reference an accepted asset has leads somewhere, and its scenes can be walked
	auto in = [&](size_t x, size_t n, const char* w) { require(x < n, "accepted reference", [&] { return std::string(w) + " " + std::to_string(x) + " of " + std::to_string(n) + " accepted"; }); };
	auto oin = [&](auto& x, size_t n, const char* w) { if (x.has_value()) in(*x, n, w); };
	for (auto& x : a->accessors) oin(x.bufferViewIndex, a->bufferViews.size(), "accessor.bufferView");
	for (auto& x : a->bufferViews) in(x.bufferIndex, a->buffers.size(), "bufferView.buffer");
	for (auto& x : a->animations) { for (auto& s : x.samplers) { in(s.inputAccessor, a->accessors.size(), "input"); in(s.outputAccessor, a->accessors.size(), "output"); } for (auto& c : x.channels) { in(c.samplerIndex, x.samplers.size(), "sampler"); oin(c.nodeIndex, a->nodes.size(), "channel.node"); } }
	for (auto& n : a->nodes) { oin(n.meshIndex, a->meshes.size(), "mesh"); oin(n.skinIndex, a->skins.size(), "skin"); oin(n.cameraIndex, a->cameras.size(), "camera"); for (auto c : n.children) in(c, a->nodes.size(), "child"); }
	oin(a->defaultScene, a->scenes.size(), "scene");
	for (size_t i = 0; i < a->scenes.size(); ++i) { size_t seen = 0; fg::iterateSceneNodes(a.get(), i, fg::math::fmat4x4(), [&](fg::Node&, const fg::math::fmat4x4&) { ++seen; require(seen <= a->nodes.size() * (1 + a->scenes[i].nodeIndices.size()), "walk", "walking an accepted scene visits nodes again and again"); }); }
}

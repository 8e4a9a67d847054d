// An asset built as a program builds one: default-initialised objects on memory that held something else, where only
// the members are set that a document gives; everything else is left to the defaults of the library's types.
#pragma once
#include "dump.hpp"
#include "gen_gltf.hpp"
#include <new>

namespace bl {
namespace fg = fastgltf; using js::Json;
struct Builder {
	uint8_t fill = 0; gs::Exts on; const gg::Doc& doc; size_t unset = 0;
	Builder(const gg::Doc& d, gs::Exts e, uint8_t f) : fill(f), on(std::move(e)), doc(d) {}
	// default-initialised on memory full of `fill`
	template <class T> __attribute__((noinline)) T* raw(void* p) { std::memset(p, fill, sizeof(T)); asm volatile("" : : "r"(p) : "memory"); return new (p) T; }
	template <class T> T fresh() { alignas(T) unsigned char m[sizeof(T)]; T* p = raw<T>(m); T r(std::move(*p)); p->~T(); return r; }
	template <class V> auto& add(V& v) { v.emplace_back(fresh<std::decay_t<decltype(*v.begin())>>()); return v.back(); }
	template <class T> std::unique_ptr<T> own() { return std::make_unique<T>(fresh<T>()); }

	template <class F> void with(const Json& j, const char* k, F f) { if (auto* v = j.find(k)) f(*v); else ++unset; }
	void num(const Json& j, const char* k, fg::num& o) { with(j, k, [&](auto& v) { o = static_cast<fg::num>(v.num() + 0.0); }); }
	void num(const Json& j, const char* k, fg::Optional<fg::num>& o) { with(j, k, [&](auto& v) { o = static_cast<fg::num>(v.num() + 0.0); }); }
	void idx(const Json& j, const char* k, std::size_t& o) { with(j, k, [&](auto& v) { o = static_cast<std::size_t>(v.u); }); }
	void idx(const Json& j, const char* k, fg::Optional<std::size_t>& o) { with(j, k, [&](auto& v) { o = static_cast<std::size_t>(v.u); }); }
	void flag(const Json& j, const char* k, bool& o) { with(j, k, [&](auto& v) { o = v.b; }); }
	template <class S> void str(const Json& j, const char* k, S& o) { with(j, k, [&](auto& v) { o = S(v.s.data(), v.s.size()); }); }
	template <class V> void vec(const Json& j, const char* k, V& o) { with(j, k, [&](auto& v) { for (size_t i = 0; i < v.a.size(); ++i) o[i] = static_cast<std::decay_t<decltype(o[i])>>(v.a[i].num() + 0.0); }); } // JSON texts have no negative zero
	template <class E> void word(const Json& j, const char* k, E& o, std::initializer_list<std::pair<const char*, E>> names) { with(j, k, [&](auto& v) { bool ok = false; for (auto& [n, e] : names) if (v.s == n) { o = e; ok = true; } if (!ok) pbt::fail("harness", "no word " + v.s); }); }
	template <class V> void idxs(const Json& j, const char* k, V& o) { with(j, k, [&](auto& v) { for (auto& x : v.a) o.emplace_back(static_cast<std::decay_t<decltype(*o.begin())>>(x.u)); }); }
	template <class V> void nums(const Json& j, const char* k, V& o) { with(j, k, [&](auto& v) { for (auto& x : v.a) o.emplace_back(static_cast<std::decay_t<decltype(*o.begin())>>(x.num())); }); }
	template <class V> void strs(const Json& j, const char* k, V& o) { with(j, k, [&](auto& v) { for (auto& x : v.a) o.emplace_back(x.s.c_str(), x.s.size()); }); }
	template <class V> void attrs(const Json& j, V& o) { for (auto& [k, v] : j.o) { auto& a = add(o); a.name.assign(k.data(), k.size()); a.accessorIndex = static_cast<std::size_t>(v.u); } }
	const Json* ext(const Json& j, const char* e) { if (!on.count(e)) return nullptr; auto* x = j.at("extensions").find(e); if (!x) ++unset; return x; }

	template <class T> void texFill(const Json& j, T& t) {
		idx(j, "index", t.textureIndex); idx(j, "texCoord", t.texCoordIndex);
		if (auto* e = ext(j, "KHR_texture_transform")) { t.transform = own<fg::TextureTransform>(); num(*e, "rotation", t.transform->rotation); vec(*e, "offset", t.transform->uvOffset); vec(*e, "scale", t.transform->uvScale); idx(*e, "texCoord", t.transform->texCoordIndex); }
	}
	void tex(const Json& j, const char* k, fg::Optional<fg::TextureInfo>& o) { with(j, k, [&](auto& v) { o = fresh<fg::TextureInfo>(); texFill(v, *o); }); }
	void tex(const Json& j, const char* k, fg::Optional<fg::NormalTextureInfo>& o) { with(j, k, [&](auto& v) { o = fresh<fg::NormalTextureInfo>(); texFill(v, *o); num(v, "scale", o->scale); }); }
	void tex(const Json& j, const char* k, fg::Optional<fg::OcclusionTextureInfo>& o) { with(j, k, [&](auto& v) { o = fresh<fg::OcclusionTextureInfo>(); texFill(v, *o); num(v, "strength", o->strength); }); }
	fg::AccessorBoundsArray bounds(const Json& j, bool real) {
		auto b = real ? fg::AccessorBoundsArray::ForType<double>(j.a.size()) : fg::AccessorBoundsArray::ForType<std::int64_t>(j.a.size());
		for (size_t i = 0; i < j.a.size(); ++i) if (real) b.set<double>(i, j.a[i].num()); else b.set<std::int64_t>(i, j.a[i].t == Json::Int ? j.a[i].i : static_cast<int64_t>(j.a[i].u));
		return b;
	}
	static fg::MimeType mime(const std::string& s) {
		for (auto m : {fg::MimeType::JPEG, fg::MimeType::PNG, fg::MimeType::KTX2, fg::MimeType::DDS, fg::MimeType::GltfBuffer, fg::MimeType::OctetStream, fg::MimeType::WEBP}) if (dp::mime(m) == s) return m;
		return fg::MimeType::None;
	}
	fg::DataSource bytes(const gg::Bytes& b, const std::string& m) {
		auto v = fresh<fg::sources::Vector>(); v.bytes.resize(b.size()); if (!b.empty()) memcpy(v.bytes.data(), b.data(), b.size()); if (!m.empty()) v.mimeType = mime(m); else ++unset; return v;
	}
	fg::DataSource uri(const std::string& u, const std::string& m) { auto x = fresh<fg::sources::URI>(); x.uri = fg::URI(std::string_view(u)); if (!m.empty()) x.mimeType = mime(m); else ++unset; return x; }
	static fg::ComponentType comp(uint64_t c) {
		switch (c) { case 5120: return fg::ComponentType::Byte; case 5121: return fg::ComponentType::UnsignedByte; case 5122: return fg::ComponentType::Short; case 5123: return fg::ComponentType::UnsignedShort; case 5124: return fg::ComponentType::Int; case 5125: return fg::ComponentType::UnsignedInt; case 5126: return fg::ComponentType::Float; default: return fg::ComponentType::Double; }
	}
	void material(const Json& j, fg::Material& m) {
		str(j, "name", m.name);
		with(j, "pbrMetallicRoughness", [&](auto& p) { vec(p, "baseColorFactor", m.pbrData.baseColorFactor); num(p, "metallicFactor", m.pbrData.metallicFactor); num(p, "roughnessFactor", m.pbrData.roughnessFactor); tex(p, "baseColorTexture", m.pbrData.baseColorTexture); tex(p, "metallicRoughnessTexture", m.pbrData.metallicRoughnessTexture); });
		tex(j, "normalTexture", m.normalTexture); tex(j, "occlusionTexture", m.occlusionTexture); tex(j, "emissiveTexture", m.emissiveTexture); vec(j, "emissiveFactor", m.emissiveFactor);
		word<fg::AlphaMode>(j, "alphaMode", m.alphaMode, {{"OPAQUE", fg::AlphaMode::Opaque}, {"MASK", fg::AlphaMode::Mask}, {"BLEND", fg::AlphaMode::Blend}});
		num(j, "alphaCutoff", m.alphaCutoff); flag(j, "doubleSided", m.doubleSided);
		auto sub = [&](const char* e, auto& p, auto f) { if (auto* x = ext(j, e)) { p = own<std::decay_t<decltype(*p)>>(); f(*x, *p); } };
		sub("KHR_materials_anisotropy", m.anisotropy, [&](auto& e, auto& x) { num(e, "anisotropyStrength", x.anisotropyStrength); num(e, "anisotropyRotation", x.anisotropyRotation); tex(e, "anisotropyTexture", x.anisotropyTexture); });
		sub("KHR_materials_clearcoat", m.clearcoat, [&](auto& e, auto& x) { num(e, "clearcoatFactor", x.clearcoatFactor); tex(e, "clearcoatTexture", x.clearcoatTexture); num(e, "clearcoatRoughnessFactor", x.clearcoatRoughnessFactor); tex(e, "clearcoatRoughnessTexture", x.clearcoatRoughnessTexture); tex(e, "clearcoatNormalTexture", x.clearcoatNormalTexture); });
		sub("KHR_materials_diffuse_transmission", m.diffuseTransmission, [&](auto& e, auto& x) { num(e, "diffuseTransmissionFactor", x.diffuseTransmissionFactor); tex(e, "diffuseTransmissionTexture", x.diffuseTransmissionTexture); vec(e, "diffuseTransmissionColorFactor", x.diffuseTransmissionColorFactor); tex(e, "diffuseTransmissionColorTexture", x.diffuseTransmissionColorTexture); });
		sub("KHR_materials_iridescence", m.iridescence, [&](auto& e, auto& x) { num(e, "iridescenceFactor", x.iridescenceFactor); tex(e, "iridescenceTexture", x.iridescenceTexture); num(e, "iridescenceIor", x.iridescenceIor); num(e, "iridescenceThicknessMinimum", x.iridescenceThicknessMinimum); num(e, "iridescenceThicknessMaximum", x.iridescenceThicknessMaximum); tex(e, "iridescenceThicknessTexture", x.iridescenceThicknessTexture); });
		sub("KHR_materials_sheen", m.sheen, [&](auto& e, auto& x) { vec(e, "sheenColorFactor", x.sheenColorFactor); tex(e, "sheenColorTexture", x.sheenColorTexture); num(e, "sheenRoughnessFactor", x.sheenRoughnessFactor); tex(e, "sheenRoughnessTexture", x.sheenRoughnessTexture); });
		sub("KHR_materials_specular", m.specular, [&](auto& e, auto& x) { num(e, "specularFactor", x.specularFactor); tex(e, "specularTexture", x.specularTexture); vec(e, "specularColorFactor", x.specularColorFactor); tex(e, "specularColorTexture", x.specularColorTexture); });
		sub("KHR_materials_transmission", m.transmission, [&](auto& e, auto& x) { num(e, "transmissionFactor", x.transmissionFactor); tex(e, "transmissionTexture", x.transmissionTexture); });
		sub("KHR_materials_volume", m.volume, [&](auto& e, auto& x) { num(e, "thicknessFactor", x.thicknessFactor); tex(e, "thicknessTexture", x.thicknessTexture); num(e, "attenuationDistance", x.attenuationDistance); vec(e, "attenuationColor", x.attenuationColor); });
		sub("KHR_materials_pbrSpecularGlossiness", m.specularGlossiness, [&](auto& e, auto& x) { vec(e, "diffuseFactor", x.diffuseFactor); tex(e, "diffuseTexture", x.diffuseTexture); vec(e, "specularFactor", x.specularFactor); num(e, "glossinessFactor", x.glossinessFactor); tex(e, "specularGlossinessTexture", x.specularGlossinessTexture); });
		if (auto* e = ext(j, "KHR_materials_dispersion")) num(*e, "dispersion", m.dispersion);
		if (auto* e = ext(j, "KHR_materials_emissive_strength")) num(*e, "emissiveStrength", m.emissiveStrength);
		if (auto* e = ext(j, "KHR_materials_ior")) num(*e, "ior", m.ior);
		if (ext(j, "KHR_materials_unlit")) m.unlit = true;
		if (auto* e = ext(j, "MSFT_packing_normalRoughnessMetallic")) tex(*e, "normalRoughnessMetallicTexture", m.packedNormalMetallicRoughnessTexture);
		sub("MSFT_packing_occlusionRoughnessMetallic", m.packedOcclusionRoughnessMetallicTextures, [&](auto& e, auto& x) { tex(e, "occlusionRoughnessMetallicTexture", x.occlusionRoughnessMetallicTexture); tex(e, "roughnessMetallicOcclusionTexture", x.roughnessMetallicOcclusionTexture); tex(e, "normalTexture", x.normalTexture); });
	}
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
	void geometry(const Json& j, fg::Geometry& x) { idx(j, "shape", x.shape); idx(j, "node", x.node); flag(j, "convexHull", x.convexHull); }
	void body(const Json& j, fg::PhysicsRigidBody& b) {
		with(j, "motion", [&](auto& v) {
			b.motion = fresh<fg::Motion>(); auto& m = *b.motion; flag(v, "isKinematic", m.isKinematic); num(v, "mass", m.mass); vec(v, "centerOfMass", m.centerOfMass); vec(v, "linearVelocity", m.linearVelocity); vec(v, "angularVelocity", m.angularVelocity); num(v, "gravityFactor", m.gravityFactor);
			if (v.find("inertiaDiagonal")) { m.inertialDiagonal = fg::math::fvec3(); vec(v, "inertiaDiagonal", *m.inertialDiagonal); }
			if (v.find("inertialOrientation")) { m.inertialOrientation = fg::math::fvec4(); vec(v, "inertialOrientation", *m.inertialOrientation); }
		});
		with(j, "collider", [&](auto& v) { b.collider = fresh<fg::Collider>(); geometry(v.at("geometry"), b.collider->geometry); idx(v, "physicsMaterial", b.collider->physicsMaterial); idx(v, "collisionFilter", b.collider->collisionFilter); });
		with(j, "trigger", [&](auto& v) {
			if (auto* ge = v.find("geometry")) { auto t = fresh<fg::GeometryTrigger>(); geometry(*ge, t.geometry); idx(v, "collisionFilter", t.collisionFilter); b.trigger = std::variant<fg::GeometryTrigger, fg::NodeTrigger>(std::move(t)); }
			else { auto t = fresh<fg::NodeTrigger>(); idxs(v, "nodes", t.nodes); b.trigger = std::variant<fg::GeometryTrigger, fg::NodeTrigger>(std::move(t)); }
		});
		with(j, "joint", [&](auto& v) { b.joint = fresh<fg::Joint>(); idx(v, "connectedNode", b.joint->connectedNode); idx(v, "joint", b.joint->joint); flag(v, "enableCollision", b.joint->enableCollision); });
	}
#endif
	fg::Asset build() {
		fg::Asset a = fresh<fg::Asset>(); auto& r = doc.root;
		auto each = [&](const char* k, auto& list, auto f) { for (auto& j : r.at(k).a) { auto& o = add(list); f(j, o); } };
		a.assetInfo = fresh<fg::AssetInfo>(); str(r.at("asset"), "version", a.assetInfo->gltfVersion); str(r.at("asset"), "generator", a.assetInfo->generator); str(r.at("asset"), "copyright", a.assetInfo->copyright);
		strs(r, "extensionsUsed", a.extensionsUsed); strs(r, "extensionsRequired", a.extensionsRequired); idx(r, "scene", a.defaultScene);
		each("accessors", a.accessors, [&](auto& j, fg::Accessor& o) {
			str(j, "name", o.name); idx(j, "bufferView", o.bufferViewIndex); idx(j, "byteOffset", o.byteOffset); idx(j, "count", o.count); flag(j, "normalized", o.normalized); o.componentType = comp(j.at("componentType").u);
			word<fg::AccessorType>(j, "type", o.type, {{"SCALAR", fg::AccessorType::Scalar}, {"VEC2", fg::AccessorType::Vec2}, {"VEC3", fg::AccessorType::Vec3}, {"VEC4", fg::AccessorType::Vec4}, {"MAT2", fg::AccessorType::Mat2}, {"MAT3", fg::AccessorType::Mat3}, {"MAT4", fg::AccessorType::Mat4}});
			bool real = o.componentType == fg::ComponentType::Float || o.componentType == fg::ComponentType::Double;
			with(j, "max", [&](auto& v) { o.max = bounds(v, real); }); with(j, "min", [&](auto& v) { o.min = bounds(v, real); });
			with(j, "sparse", [&](auto& v) { o.sparse = fresh<fg::SparseAccessor>(); auto& s = *o.sparse; idx(v, "count", s.count); idx(v.at("indices"), "bufferView", s.indicesBufferView); idx(v.at("indices"), "byteOffset", s.indicesByteOffset); s.indexComponentType = comp(v.at("indices").at("componentType").u); idx(v.at("values"), "bufferView", s.valuesBufferView); idx(v.at("values"), "byteOffset", s.valuesByteOffset); });
		});
		each("animations", a.animations, [&](auto& j, fg::Animation& o) {
			str(j, "name", o.name);
			for (auto& c : j.at("channels").a) { auto& x = add(o.channels); idx(c, "sampler", x.samplerIndex); idx(c.at("target"), "node", x.nodeIndex); word<fg::AnimationPath>(c.at("target"), "path", x.path, {{"translation", fg::AnimationPath::Translation}, {"rotation", fg::AnimationPath::Rotation}, {"scale", fg::AnimationPath::Scale}, {"weights", fg::AnimationPath::Weights}}); }
			for (auto& c : j.at("samplers").a) { auto& x = add(o.samplers); idx(c, "input", x.inputAccessor); idx(c, "output", x.outputAccessor); word<fg::AnimationInterpolation>(c, "interpolation", x.interpolation, {{"LINEAR", fg::AnimationInterpolation::Linear}, {"STEP", fg::AnimationInterpolation::Step}, {"CUBICSPLINE", fg::AnimationInterpolation::CubicSpline}}); }
		});
		{ size_t i = 0; each("buffers", a.buffers, [&](auto& j, fg::Buffer& o) { auto& p = doc.buffers[i++]; str(j, "name", o.name); idx(j, "byteLength", o.byteLength); if (p.kind == gg::BufferPlan::Data) o.data = bytes(p.data, p.mime); else if (p.kind == gg::BufferPlan::Fallback) o.data = fresh<fg::sources::Fallback>(); else o.data = uri(p.uri, ""); }); }
		each("bufferViews", a.bufferViews, [&](auto& j, fg::BufferView& o) {
			str(j, "name", o.name); idx(j, "buffer", o.bufferIndex); idx(j, "byteOffset", o.byteOffset); idx(j, "byteLength", o.byteLength); idx(j, "byteStride", o.byteStride);
			with(j, "target", [&](auto& v) { o.target = static_cast<fg::BufferTarget>(v.u); });
			if (auto* e = ext(j, "EXT_meshopt_compression")) {
				o.meshoptCompression = own<fg::CompressedBufferView>(); auto& x = *o.meshoptCompression; idx(*e, "buffer", x.bufferIndex); idx(*e, "byteOffset", x.byteOffset); idx(*e, "byteLength", x.byteLength); idx(*e, "byteStride", x.byteStride); idx(*e, "count", x.count);
				word<fg::MeshoptCompressionMode>(*e, "mode", x.mode, {{"ATTRIBUTES", fg::MeshoptCompressionMode::Attributes}, {"TRIANGLES", fg::MeshoptCompressionMode::Triangles}, {"INDICES", fg::MeshoptCompressionMode::Indices}});
				word<fg::MeshoptCompressionFilter>(*e, "filter", x.filter, {{"NONE", fg::MeshoptCompressionFilter::None}, {"OCTAHEDRAL", fg::MeshoptCompressionFilter::Octahedral}, {"QUATERNION", fg::MeshoptCompressionFilter::Quaternion}, {"EXPONENTIAL", fg::MeshoptCompressionFilter::Exponential}});
			}
		});
		each("cameras", a.cameras, [&](auto& j, fg::Camera& o) {
			str(j, "name", o.name);
			if (j.at("type").s == "perspective") { auto x = fresh<fg::Camera::Perspective>(); auto& v = j.at("perspective"); num(v, "aspectRatio", x.aspectRatio); num(v, "yfov", x.yfov); num(v, "zfar", x.zfar); num(v, "znear", x.znear); o.camera = x; }
			else { auto x = fresh<fg::Camera::Orthographic>(); auto& v = j.at("orthographic"); num(v, "xmag", x.xmag); num(v, "ymag", x.ymag); num(v, "zfar", x.zfar); num(v, "znear", x.znear); o.camera = x; }
		});
		{ size_t i = 0; each("images", a.images, [&](auto& j, fg::Image& o) {
			auto& p = doc.images[i++]; str(j, "name", o.name);
			if (p.kind == 0) o.data = bytes(p.data, p.mime); else if (p.kind == 1) o.data = uri(p.uri, p.mime); else { auto v = fresh<fg::sources::BufferView>(); idx(j, "bufferView", v.bufferViewIndex); v.mimeType = mime(p.mime); o.data = v; }
		}); }
		each("materials", a.materials, [&](auto& j, fg::Material& o) { material(j, o); });
		each("meshes", a.meshes, [&](auto& j, fg::Mesh& o) {
			str(j, "name", o.name); nums(j, "weights", o.weights);
			for (auto& p : j.at("primitives").a) {
				auto& x = add(o.primitives); attrs(p.at("attributes"), x.attributes); idx(p, "indices", x.indicesAccessor); idx(p, "material", x.materialIndex); with(p, "mode", [&](auto& v) { x.type = static_cast<fg::PrimitiveType>(v.u); });
				with(p, "targets", [&](auto& v) { for (auto& t : v.a) { auto& l = x.targets.emplace_back(); attrs(t, l); } });
				if (auto* e = ext(p, "KHR_materials_variants")) for (auto& mp : e->at("mappings").a) for (auto& v : mp.at("variants").a) { if (x.mappings.empty()) x.mappings.resize(r.at("extensions").at("KHR_materials_variants").at("variants").a.size()); x.mappings[static_cast<size_t>(v.u)] = static_cast<std::size_t>(mp.at("material").u); }
				if (auto* e = ext(p, "KHR_draco_mesh_compression")) { x.dracoCompression = own<fg::DracoCompressedPrimitive>(); idx(*e, "bufferView", x.dracoCompression->bufferView); attrs(e->at("attributes"), x.dracoCompression->attributes); }
			}
		});
		each("nodes", a.nodes, [&](auto& j, fg::Node& o) {
			str(j, "name", o.name); idx(j, "mesh", o.meshIndex); idx(j, "skin", o.skinIndex); idx(j, "camera", o.cameraIndex); idxs(j, "children", o.children); nums(j, "weights", o.weights);
			if (auto* m = j.find("matrix")) { fg::math::fmat4x4 x; for (size_t i = 0; i < 16; ++i) x.col(i / 4)[i % 4] = static_cast<float>(m->a[i].num() + 0.0); o.transform = x; }
			else if (auto* t = std::get_if<fg::TRS>(&o.transform)) { vec(j, "translation", t->translation); vec(j, "rotation", t->rotation); vec(j, "scale", t->scale); }
			else pbt::fail("transform", "a new node has no translation, rotation and scale");
			if (auto* e = ext(j, "KHR_lights_punctual")) idx(*e, "light", o.lightIndex);
			if (auto* e = ext(j, "EXT_mesh_gpu_instancing")) attrs(e->at("attributes"), o.instancingAttributes);
			if (auto* e = ext(j, "KHR_node_visibility")) flag(*e, "visible", o.visible);
			if (auto* e = ext(j, "KHR_node_selectability")) flag(*e, "selectable", o.selectable);
			if (auto* e = ext(j, "KHR_node_hoverability")) flag(*e, "hoverable", o.hoverable);
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
			if (auto* e = ext(j, "KHR_physics_rigid_bodies")) { o.physicsRigidBody = own<fg::PhysicsRigidBody>(); body(*e, *o.physicsRigidBody); }
#endif
		});
		each("samplers", a.samplers, [&](auto& j, fg::Sampler& o) {
			str(j, "name", o.name); with(j, "magFilter", [&](auto& v) { o.magFilter = static_cast<fg::Filter>(v.u); }); with(j, "minFilter", [&](auto& v) { o.minFilter = static_cast<fg::Filter>(v.u); });
			with(j, "wrapS", [&](auto& v) { o.wrapS = static_cast<fg::Wrap>(v.u); }); with(j, "wrapT", [&](auto& v) { o.wrapT = static_cast<fg::Wrap>(v.u); });
		});
		each("scenes", a.scenes, [&](auto& j, fg::Scene& o) { str(j, "name", o.name); idxs(j, "nodes", o.nodeIndices); });
		each("skins", a.skins, [&](auto& j, fg::Skin& o) { str(j, "name", o.name); idx(j, "inverseBindMatrices", o.inverseBindMatrices); idx(j, "skeleton", o.skeleton); idxs(j, "joints", o.joints); });
		each("textures", a.textures, [&](auto& j, fg::Texture& o) {
			str(j, "name", o.name); idx(j, "sampler", o.samplerIndex); idx(j, "source", o.imageIndex);
			if (auto* e = ext(j, "KHR_texture_basisu")) idx(*e, "source", o.basisuImageIndex);
			if (auto* e = ext(j, "MSFT_texture_dds")) idx(*e, "source", o.ddsImageIndex);
			if (auto* e = ext(j, "EXT_texture_webp")) idx(*e, "source", o.webpImageIndex);
		});
		if (auto* e = ext(r, "KHR_lights_punctual")) for (auto& j : e->at("lights").a) {
			auto& o = add(a.lights); str(j, "name", o.name); word<fg::LightType>(j, "type", o.type, {{"directional", fg::LightType::Directional}, {"spot", fg::LightType::Spot}, {"point", fg::LightType::Point}}); vec(j, "color", o.color); num(j, "intensity", o.intensity); num(j, "range", o.range);
			if (o.type == fg::LightType::Spot) { auto& s = j.at("spot"); o.innerConeAngle = static_cast<fg::num>(s.find("innerConeAngle") ? s.at("innerConeAngle").num() : 0.0); o.outerConeAngle = static_cast<fg::num>(s.find("outerConeAngle") ? s.at("outerConeAngle").num() : 0.7853981633974483); } // these have no default in memory
		}
		if (auto* e = ext(r, "KHR_materials_variants")) for (auto& j : e->at("variants").a) a.materialVariants.emplace_back(j.at("name").s.c_str(), j.at("name").s.size());
#if FASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES
		if (auto* e = ext(r, "KHR_implicit_shapes")) for (auto& j : e->at("shapes").a) {
			auto& t = j.at("type").s; auto& v = j.at(t);
			if (t == "sphere") { auto x = fresh<fg::SphereShape>(); num(v, "radius", x.radius); a.shapes.emplace_back(x); }
			else if (t == "box") { auto x = fresh<fg::BoxShape>(); vec(v, "size", x.size); a.shapes.emplace_back(x); }
			else if (t == "capsule") { auto x = fresh<fg::CapsuleShape>(); num(v, "height", x.height); num(v, "radiusBottom", x.radiusBottom); num(v, "radiusTop", x.radiusTop); a.shapes.emplace_back(x); }
			else { auto x = fresh<fg::CylinderShape>(); num(v, "height", x.height); num(v, "radiusBottom", x.radiusBottom); num(v, "radiusTop", x.radiusTop); a.shapes.emplace_back(x); }
		}
#endif
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
		if (auto* e = ext(r, "KHR_physics_rigid_bodies")) {
			std::initializer_list<std::pair<const char*, fg::CombineMode>> modes{{"average", fg::CombineMode::Average}, {"minimum", fg::CombineMode::Minimum}, {"maximum", fg::CombineMode::Maximum}, {"multiply", fg::CombineMode::Multiply}};
			for (auto& j : e->at("physicsMaterials").a) { auto& o = add(a.physicsMaterials); num(j, "staticFriction", o.staticFriction); num(j, "dynamicFriction", o.dynamicFriction); num(j, "restitution", o.restitution); word<fg::CombineMode>(j, "frictionCombine", o.frictionCombine, modes); word<fg::CombineMode>(j, "restitutionCombine", o.restitutionCombine, modes); }
			for (auto& j : e->at("collisionFilters").a) { auto& o = add(a.collisionFilters); strs(j, "collisionSystems", o.collisionSystems); strs(j, "collideWithSystems", o.collideWithSystems); strs(j, "notCollideWithSystems", o.notCollideWithSystems); }
			for (auto& j : e->at("physicsJoints").a) {
				auto& o = add(a.physicsJoints);
				for (auto& l : j.at("limits").a) { auto& x = add(o.limits); idxs(l, "linearAxes", x.linearAxes); idxs(l, "angularAxes", x.angularAxes); num(l, "min", x.min); num(l, "max", x.max); num(l, "stiffness", x.stiffness); num(l, "damping", x.damping); }
				for (auto& l : j.at("drives").a) {
					auto& x = add(o.drives); word<fg::DriveType>(l, "type", x.type, {{"linear", fg::DriveType::Linear}, {"angular", fg::DriveType::Angular}}); word<fg::DriveMode>(l, "mode", x.mode, {{"force", fg::DriveMode::Force}, {"acceleration", fg::DriveMode::Acceleration}}); x.axis = static_cast<uint8_t>(l.at("axis").u);
					num(l, "maxForce", x.maxForce); num(l, "positionTarget", x.positionTarget); num(l, "velocityTarget", x.velocityTarget); num(l, "stiffness", x.stiffness); num(l, "damping", x.damping);
				}
			}
		}
#endif
		return a;
	}
};
} // namespace bl

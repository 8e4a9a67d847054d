// Asset -> canonical JSON tree, in the form of gs::normRoot + gg::addData.
#pragma once
#include "schema.hpp"
#include <fastgltf/core.hpp>
#include <fastgltf/types.hpp>
#include <pbt/pbt.hpp>

namespace dp {
using js::Json; namespace fg = fastgltf;
template <class T> Json num(T v) { return Json(static_cast<double>(v)); }
template <class V> Json vec(const V& v, size_t n) { auto a = Json::arr(); for (size_t i = 0; i < n; ++i) a.push(num(v[i])); return a; }
inline Json idx(size_t v) { return Json(static_cast<uint64_t>(v)); }
template <class T> std::string st(const T& s) { return std::string(s.data(), s.size()); }
template <class T> void name(Json& o, const T& x) { o["name"] = st(x.name); }
template <class O> void oidx(Json& o, const char* k, const O& v) { if (v.has_value()) o[k] = idx(*v); }
template <class O> void onum(Json& o, const char* k, const O& v) { if (v.has_value()) o[k] = num(*v); }
inline std::string mime(fg::MimeType m) {
	switch (m) {
		case fg::MimeType::None: return ""; case fg::MimeType::JPEG: return "image/jpeg"; case fg::MimeType::PNG: return "image/png"; case fg::MimeType::KTX2: return "image/ktx2";
		case fg::MimeType::DDS: return "image/vnd-ms.dds"; case fg::MimeType::GltfBuffer: return "application/gltf-buffer"; case fg::MimeType::OctetStream: return "application/octet-stream"; case fg::MimeType::WEBP: return "image/webp";
		default: return "?" + std::to_string(static_cast<int>(m));
	}
}
inline const std::byte* dataPtr(const fg::DataSource& d, size_t& n) {
	if (auto* a = std::get_if<fg::sources::Array>(&d)) { n = a->bytes.size(); return a->bytes.data(); }
	if (auto* v = std::get_if<fg::sources::Vector>(&d)) { n = v->bytes.size(); return v->bytes.data(); }
	if (auto* b = std::get_if<fg::sources::ByteView>(&d)) { n = b->bytes.size(); return b->bytes.data(); }
	n = 0; return nullptr;
}
// mimes of loaded files and binary chunks are unspecified; withMime=false leaves them out for buffers without data URI
inline Json data(const fg::DataSource& d, bool image) {
	auto o = Json::obj();
	auto m = [&](fg::MimeType t, bool always) { if (t != fg::MimeType::None && always) o["mime"] = mime(t); };
	if (auto* u = std::get_if<fg::sources::URI>(&d)) { o["uri"] = st(u->uri.string()); if (u->fileByteOffset) o["offset"] = idx(u->fileByteOffset); m(u->mimeType, true); }
	else if (auto* a = std::get_if<fg::sources::Array>(&d)) { o["bytes"] = pbt::hex(a->bytes.data(), a->bytes.size(), ~size_t(0)); m(a->mimeType, true); }
	else if (auto* v = std::get_if<fg::sources::Vector>(&d)) { o["bytes"] = pbt::hex(v->bytes.data(), v->bytes.size(), ~size_t(0)); m(v->mimeType, true); }
	else if (auto* b = std::get_if<fg::sources::ByteView>(&d)) { o["bytes"] = pbt::hex(b->bytes.data(), b->bytes.size(), ~size_t(0)); m(b->mimeType, true); }
	else if (auto* c = std::get_if<fg::sources::CustomBuffer>(&d)) { o["custom"] = idx(c->id); m(c->mimeType, true); }
	else if (auto* w = std::get_if<fg::sources::BufferView>(&d)) { o["view"] = idx(w->bufferViewIndex); m(w->mimeType, true); }
	else if (std::holds_alternative<fg::sources::Fallback>(d)) o["fallback"] = true;
	else o["none"] = true;
	(void)image; return o;
}
inline Json bounds(const fg::AccessorBoundsArray& b) {
	auto a = Json::arr();
	for (size_t i = 0; i < b.size(); ++i) { if (b.isType<std::int64_t>()) a.push(Json(b.get<std::int64_t>(i))); else a.push(Json(b.get<double>(i))); }
	return a;
}
template <class A> Json attrs(const A& v) { auto o = Json::obj(); for (auto& x : v) { auto k = st(x.name); while (o.find(k)) k += "#dup"; o[k] = idx(x.accessorIndex); } return o; }
inline void tex(Json& o, const fg::TextureInfo& t) {
	o["index"] = idx(t.textureIndex); o["texCoord"] = idx(t.texCoordIndex);
	if (t.transform) { auto x = Json::obj(); x["rotation"] = num(t.transform->rotation); x["offset"] = vec(t.transform->uvOffset, 2); x["scale"] = vec(t.transform->uvScale, 2); oidx(x, "texCoord", t.transform->texCoordIndex); o["KHR_texture_transform"] = x; }
}
template <class O> void otex(Json& o, const char* k, const O& t) { if (t.has_value()) { auto x = Json::obj(); tex(x, *t); o[k] = x; } }
template <class O> void ntex(Json& o, const char* k, const O& t) { if (t.has_value()) { auto x = Json::obj(); tex(x, *t); x["scale"] = num(t->scale); o[k] = x; } }
inline std::string accType(fg::AccessorType t) {
	switch (t) { case fg::AccessorType::Scalar: return "SCALAR"; case fg::AccessorType::Vec2: return "VEC2"; case fg::AccessorType::Vec3: return "VEC3"; case fg::AccessorType::Vec4: return "VEC4"; case fg::AccessorType::Mat2: return "MAT2"; case fg::AccessorType::Mat3: return "MAT3"; case fg::AccessorType::Mat4: return "MAT4"; default: return "?"; }
}
inline uint64_t compType(fg::ComponentType t) {
	switch (t) { case fg::ComponentType::Byte: return 5120; case fg::ComponentType::UnsignedByte: return 5121; case fg::ComponentType::Short: return 5122; case fg::ComponentType::UnsignedShort: return 5123; case fg::ComponentType::UnsignedInt: return 5125; case fg::ComponentType::Float: return 5126; case fg::ComponentType::Double: return 5130; case fg::ComponentType::Int: return 5124; default: return 0; }
}
inline Json material(const fg::Material& m) {
	auto o = Json::obj(); name(o, m);
	auto p = Json::obj(); p["baseColorFactor"] = vec(m.pbrData.baseColorFactor, 4); p["metallicFactor"] = num(m.pbrData.metallicFactor); p["roughnessFactor"] = num(m.pbrData.roughnessFactor);
	otex(p, "baseColorTexture", m.pbrData.baseColorTexture); otex(p, "metallicRoughnessTexture", m.pbrData.metallicRoughnessTexture); o["pbrMetallicRoughness"] = p;
	ntex(o, "normalTexture", m.normalTexture);
	if (m.occlusionTexture.has_value()) { auto x = Json::obj(); tex(x, *m.occlusionTexture); x["strength"] = num(m.occlusionTexture->strength); o["occlusionTexture"] = x; }
	otex(o, "emissiveTexture", m.emissiveTexture); o["emissiveFactor"] = vec(m.emissiveFactor, 3);
	o["alphaMode"] = m.alphaMode == fg::AlphaMode::Opaque ? "OPAQUE" : m.alphaMode == fg::AlphaMode::Mask ? "MASK" : m.alphaMode == fg::AlphaMode::Blend ? "BLEND" : "?";
	o["alphaCutoff"] = num(m.alphaCutoff); o["doubleSided"] = m.doubleSided; o["unlit"] = m.unlit;
	o["emissiveStrength"] = num(m.emissiveStrength); o["ior"] = num(m.ior); o["dispersion"] = num(m.dispersion);
	if (auto& x = m.anisotropy) { auto e = Json::obj(); e["anisotropyStrength"] = num(x->anisotropyStrength); e["anisotropyRotation"] = num(x->anisotropyRotation); otex(e, "anisotropyTexture", x->anisotropyTexture); o["KHR_materials_anisotropy"] = e; }
	if (auto& x = m.clearcoat) { auto e = Json::obj(); e["clearcoatFactor"] = num(x->clearcoatFactor); otex(e, "clearcoatTexture", x->clearcoatTexture); e["clearcoatRoughnessFactor"] = num(x->clearcoatRoughnessFactor); otex(e, "clearcoatRoughnessTexture", x->clearcoatRoughnessTexture); ntex(e, "clearcoatNormalTexture", x->clearcoatNormalTexture); o["KHR_materials_clearcoat"] = e; }
	if (auto& x = m.diffuseTransmission) { auto e = Json::obj(); e["diffuseTransmissionFactor"] = num(x->diffuseTransmissionFactor); otex(e, "diffuseTransmissionTexture", x->diffuseTransmissionTexture); e["diffuseTransmissionColorFactor"] = vec(x->diffuseTransmissionColorFactor, 3); otex(e, "diffuseTransmissionColorTexture", x->diffuseTransmissionColorTexture); o["KHR_materials_diffuse_transmission"] = e; }
	if (auto& x = m.iridescence) { auto e = Json::obj(); e["iridescenceFactor"] = num(x->iridescenceFactor); otex(e, "iridescenceTexture", x->iridescenceTexture); e["iridescenceIor"] = num(x->iridescenceIor); e["iridescenceThicknessMinimum"] = num(x->iridescenceThicknessMinimum); e["iridescenceThicknessMaximum"] = num(x->iridescenceThicknessMaximum); otex(e, "iridescenceThicknessTexture", x->iridescenceThicknessTexture); o["KHR_materials_iridescence"] = e; }
	if (auto& x = m.sheen) { auto e = Json::obj(); e["sheenColorFactor"] = vec(x->sheenColorFactor, 3); otex(e, "sheenColorTexture", x->sheenColorTexture); e["sheenRoughnessFactor"] = num(x->sheenRoughnessFactor); otex(e, "sheenRoughnessTexture", x->sheenRoughnessTexture); o["KHR_materials_sheen"] = e; }
	if (auto& x = m.specular) { auto e = Json::obj(); e["specularFactor"] = num(x->specularFactor); otex(e, "specularTexture", x->specularTexture); e["specularColorFactor"] = vec(x->specularColorFactor, 3); otex(e, "specularColorTexture", x->specularColorTexture); o["KHR_materials_specular"] = e; }
	if (auto& x = m.transmission) { auto e = Json::obj(); e["transmissionFactor"] = num(x->transmissionFactor); otex(e, "transmissionTexture", x->transmissionTexture); o["KHR_materials_transmission"] = e; }
	if (auto& x = m.volume) { auto e = Json::obj(); e["thicknessFactor"] = num(x->thicknessFactor); otex(e, "thicknessTexture", x->thicknessTexture); e["attenuationDistance"] = num(x->attenuationDistance); e["attenuationColor"] = vec(x->attenuationColor, 3); o["KHR_materials_volume"] = e; }
	if (auto& x = m.specularGlossiness) { auto e = Json::obj(); e["diffuseFactor"] = vec(x->diffuseFactor, 4); otex(e, "diffuseTexture", x->diffuseTexture); e["specularFactor"] = vec(x->specularFactor, 3); e["glossinessFactor"] = num(x->glossinessFactor); otex(e, "specularGlossinessTexture", x->specularGlossinessTexture); o["KHR_materials_pbrSpecularGlossiness"] = e; }
	otex(o, "normalRoughnessMetallicTexture", m.packedNormalMetallicRoughnessTexture);
	if (auto& x = m.packedOcclusionRoughnessMetallicTextures) { auto e = Json::obj(); otex(e, "occlusionRoughnessMetallicTexture", x->occlusionRoughnessMetallicTexture); otex(e, "roughnessMetallicOcclusionTexture", x->roughnessMetallicOcclusionTexture); otex(e, "normalTexture", x->normalTexture); o["MSFT_packing_occlusionRoughnessMetallic"] = e; }
	return o;
}
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
inline Json geometry(const fg::Geometry& x) { auto o = Json::obj(); oidx(o, "shape", x.shape); oidx(o, "node", x.node); o["convexHull"] = x.convexHull; return o; }
inline Json body(const fg::PhysicsRigidBody& b) {
	auto o = Json::obj();
	if (b.motion.has_value()) { auto& m = *b.motion; auto e = Json::obj(); e["isKinematic"] = m.isKinematic; onum(e, "mass", m.mass); e["centerOfMass"] = vec(m.centerOfMass, 3); if (m.inertialDiagonal.has_value()) e["inertiaDiagonal"] = vec(*m.inertialDiagonal, 3); if (m.inertialOrientation.has_value()) e["inertialOrientation"] = vec(*m.inertialOrientation, 4); e["linearVelocity"] = vec(m.linearVelocity, 3); e["angularVelocity"] = vec(m.angularVelocity, 3); e["gravityFactor"] = num(m.gravityFactor); o["motion"] = e; }
	if (b.collider.has_value()) { auto e = Json::obj(); e["geometry"] = geometry(b.collider->geometry); oidx(e, "physicsMaterial", b.collider->physicsMaterial); oidx(e, "collisionFilter", b.collider->collisionFilter); o["collider"] = e; }
	if (b.trigger.has_value()) { auto e = Json::obj(); if (auto* x = std::get_if<fg::GeometryTrigger>(&*b.trigger)) { e["geometry"] = geometry(x->geometry); oidx(e, "collisionFilter", x->collisionFilter); } else { auto a = Json::arr(); for (auto n : std::get<fg::NodeTrigger>(*b.trigger).nodes) a.push(idx(n)); e["nodes"] = a; } o["trigger"] = e; }
	if (b.joint.has_value()) { auto e = Json::obj(); e["connectedNode"] = idx(b.joint->connectedNode); e["joint"] = idx(b.joint->joint); e["enableCollision"] = b.joint->enableCollision; o["joint"] = e; }
	return o;
}
#endif
inline Json dump(const fg::Asset& a) {
	auto r = Json::obj();
	if (a.assetInfo.has_value()) { auto o = Json::obj(); o["version"] = st(a.assetInfo->gltfVersion); o["generator"] = st(a.assetInfo->generator); o["copyright"] = st(a.assetInfo->copyright); r["asset"] = o; }
	auto u = Json::arr(), q = Json::arr(); for (auto& x : a.extensionsUsed) u.push(st(x)); for (auto& x : a.extensionsRequired) q.push(st(x)); r["extensionsUsed"] = u; r["extensionsRequired"] = q;
	oidx(r, "scene", a.defaultScene);
	auto list = [&](const char* k, auto& v, auto fn) { auto l = Json::arr(); for (auto& x : v) { auto o = Json::obj(); fn(o, x); l.push(std::move(o)); } r[k] = std::move(l); };
	list("accessors", a.accessors, [](Json& o, const fg::Accessor& x) {
		name(o, x); oidx(o, "bufferView", x.bufferViewIndex); o["byteOffset"] = idx(x.byteOffset); o["count"] = idx(x.count); o["componentType"] = compType(x.componentType); o["type"] = accType(x.type); o["normalized"] = x.normalized;
		if (x.max.has_value()) o["max"] = bounds(*x.max); if (x.min.has_value()) o["min"] = bounds(*x.min);
		if (x.sparse.has_value()) { auto& s = *x.sparse; auto e = Json::obj(), i = Json::obj(), v = Json::obj(); e["count"] = idx(s.count); i["bufferView"] = idx(s.indicesBufferView); i["byteOffset"] = idx(s.indicesByteOffset); i["componentType"] = compType(s.indexComponentType); v["bufferView"] = idx(s.valuesBufferView); v["byteOffset"] = idx(s.valuesByteOffset); e["indices"] = i; e["values"] = v; o["sparse"] = e; }
	});
	list("animations", a.animations, [](Json& o, const fg::Animation& x) {
		name(o, x); auto c = Json::arr(), s = Json::arr();
		for (auto& y : x.channels) { auto e = Json::obj(), t = Json::obj(); e["sampler"] = idx(y.samplerIndex); oidx(t, "node", y.nodeIndex); t["path"] = y.path == fg::AnimationPath::Translation ? "translation" : y.path == fg::AnimationPath::Rotation ? "rotation" : y.path == fg::AnimationPath::Scale ? "scale" : y.path == fg::AnimationPath::Weights ? "weights" : "?"; e["target"] = t; c.push(e); }
		for (auto& y : x.samplers) { auto e = Json::obj(); e["input"] = idx(y.inputAccessor); e["output"] = idx(y.outputAccessor); e["interpolation"] = y.interpolation == fg::AnimationInterpolation::Linear ? "LINEAR" : y.interpolation == fg::AnimationInterpolation::Step ? "STEP" : y.interpolation == fg::AnimationInterpolation::CubicSpline ? "CUBICSPLINE" : "?"; s.push(e); }
		o["channels"] = c; o["samplers"] = s;
	});
	list("buffers", a.buffers, [](Json& o, const fg::Buffer& x) { name(o, x); o["byteLength"] = idx(x.byteLength); o["data"] = data(x.data, false); });
	list("bufferViews", a.bufferViews, [](Json& o, const fg::BufferView& x) {
		name(o, x); o["buffer"] = idx(x.bufferIndex); o["byteOffset"] = idx(x.byteOffset); o["byteLength"] = idx(x.byteLength); oidx(o, "byteStride", x.byteStride); if (x.target.has_value()) o["target"] = idx(static_cast<size_t>(*x.target));
		if (auto& c = x.meshoptCompression) { auto e = Json::obj(); e["buffer"] = idx(c->bufferIndex); e["byteOffset"] = idx(c->byteOffset); e["byteLength"] = idx(c->byteLength); e["byteStride"] = idx(c->byteStride); e["count"] = idx(c->count); e["mode"] = c->mode == fg::MeshoptCompressionMode::Attributes ? "ATTRIBUTES" : c->mode == fg::MeshoptCompressionMode::Triangles ? "TRIANGLES" : c->mode == fg::MeshoptCompressionMode::Indices ? "INDICES" : "?"; e["filter"] = c->filter == fg::MeshoptCompressionFilter::None ? "NONE" : c->filter == fg::MeshoptCompressionFilter::Octahedral ? "OCTAHEDRAL" : c->filter == fg::MeshoptCompressionFilter::Quaternion ? "QUATERNION" : c->filter == fg::MeshoptCompressionFilter::Exponential ? "EXPONENTIAL" : "?"; o["EXT_meshopt_compression"] = e; }
	});
	list("cameras", a.cameras, [](Json& o, const fg::Camera& x) {
		name(o, x); auto e = Json::obj();
		if (auto* p = std::get_if<fg::Camera::Perspective>(&x.camera)) { onum(e, "aspectRatio", p->aspectRatio); e["yfov"] = num(p->yfov); onum(e, "zfar", p->zfar); e["znear"] = num(p->znear); o["perspective"] = e; }
		else { auto& q = std::get<fg::Camera::Orthographic>(x.camera); e["xmag"] = num(q.xmag); e["ymag"] = num(q.ymag); e["zfar"] = num(q.zfar); e["znear"] = num(q.znear); o["orthographic"] = e; }
	});
	list("images", a.images, [](Json& o, const fg::Image& x) { name(o, x); o["data"] = data(x.data, true); });
	list("materials", a.materials, [](Json& o, const fg::Material& x) { o = material(x); });
	list("meshes", a.meshes, [](Json& o, const fg::Mesh& x) {
		name(o, x); auto w = Json::arr(), ps = Json::arr(); for (auto v : x.weights) w.push(num(v));
		for (auto& p : x.primitives) {
			auto e = Json::obj(); e["attributes"] = attrs(p.attributes); e["mode"] = idx(static_cast<size_t>(p.type)); oidx(e, "indices", p.indicesAccessor); oidx(e, "material", p.materialIndex);
			auto t = Json::arr(); for (auto& y : p.targets) t.push(attrs(y)); e["targets"] = t;
			auto m = Json::obj(); for (size_t i = 0; i < p.mappings.size(); ++i) if (p.mappings[i].has_value()) m["v" + std::to_string(i)] = idx(*p.mappings[i]); e["mappings"] = m;
			if (p.dracoCompression) { auto d = Json::obj(); d["bufferView"] = idx(p.dracoCompression->bufferView); d["attributes"] = attrs(p.dracoCompression->attributes); e["KHR_draco_mesh_compression"] = d; }
			ps.push(e);
		}
		o["primitives"] = ps; o["weights"] = w;
	});
	list("nodes", a.nodes, [](Json& o, const fg::Node& x) {
		name(o, x); oidx(o, "mesh", x.meshIndex); oidx(o, "skin", x.skinIndex); oidx(o, "camera", x.cameraIndex); oidx(o, "light", x.lightIndex);
		auto c = Json::arr(), w = Json::arr(); for (auto v : x.children) c.push(idx(v)); for (auto v : x.weights) w.push(num(v)); o["children"] = c; o["weights"] = w;
		if (auto* t = std::get_if<fg::TRS>(&x.transform)) { o["translation"] = vec(t->translation, 3); o["rotation"] = vec(t->rotation, 4); o["scale"] = vec(t->scale, 3); }
		else { auto& m = std::get<fg::math::fmat4x4>(x.transform); auto l = Json::arr(); for (size_t k = 0; k < 4; ++k) for (size_t j = 0; j < 4; ++j) l.push(num(m.col(k)[j])); o["matrix"] = l; }
		o["instancing"] = attrs(x.instancingAttributes); o["visible"] = x.visible; o["selectable"] = x.selectable; o["hoverable"] = x.hoverable;
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
		if (x.physicsRigidBody) o["KHR_physics_rigid_bodies"] = body(*x.physicsRigidBody);
#endif
	});
	list("samplers", a.samplers, [](Json& o, const fg::Sampler& x) { name(o, x); if (x.magFilter.has_value()) o["magFilter"] = idx(static_cast<size_t>(*x.magFilter)); if (x.minFilter.has_value()) o["minFilter"] = idx(static_cast<size_t>(*x.minFilter)); o["wrapS"] = idx(static_cast<size_t>(x.wrapS)); o["wrapT"] = idx(static_cast<size_t>(x.wrapT)); });
	list("scenes", a.scenes, [](Json& o, const fg::Scene& x) { name(o, x); auto n = Json::arr(); for (auto v : x.nodeIndices) n.push(idx(v)); o["nodes"] = n; });
	list("skins", a.skins, [](Json& o, const fg::Skin& x) { name(o, x); oidx(o, "inverseBindMatrices", x.inverseBindMatrices); oidx(o, "skeleton", x.skeleton); auto n = Json::arr(); for (auto v : x.joints) n.push(idx(v)); o["joints"] = n; });
	list("textures", a.textures, [](Json& o, const fg::Texture& x) { name(o, x); oidx(o, "sampler", x.samplerIndex); oidx(o, "source", x.imageIndex); oidx(o, "basisu", x.basisuImageIndex); oidx(o, "dds", x.ddsImageIndex); oidx(o, "webp", x.webpImageIndex); });
	list("lights", a.lights, [](Json& o, const fg::Light& x) {
		name(o, x); o["type"] = x.type == fg::LightType::Directional ? "directional" : x.type == fg::LightType::Spot ? "spot" : x.type == fg::LightType::Point ? "point" : "?"; o["color"] = vec(x.color, 3); o["intensity"] = num(x.intensity); onum(o, "range", x.range);
		if (x.innerConeAngle.has_value() || x.outerConeAngle.has_value()) { auto s = Json::obj(); onum(s, "innerConeAngle", x.innerConeAngle); onum(s, "outerConeAngle", x.outerConeAngle); o["spot"] = s; }
	});
	list("variants", a.materialVariants, [](Json& o, const auto& x) { o["name"] = st(x); });
#if FASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES
	list("shapes", a.shapes, [](Json& o, const fg::Shape& x) {
		if (auto* s = std::get_if<fg::SphereShape>(&x)) { o["type"] = "sphere"; o["radius"] = num(s->radius); }
		else if (auto* b = std::get_if<fg::BoxShape>(&x)) { o["type"] = "box"; o["size"] = vec(b->size, 3); }
		else if (auto* c = std::get_if<fg::CapsuleShape>(&x)) { o["type"] = "capsule"; o["height"] = num(c->height); o["radiusBottom"] = num(c->radiusBottom); o["radiusTop"] = num(c->radiusTop); }
		else { auto& y = std::get<fg::CylinderShape>(x); o["type"] = "cylinder"; o["height"] = num(y.height); o["radiusBottom"] = num(y.radiusBottom); o["radiusTop"] = num(y.radiusTop); }
	});
#else
	r["shapes"] = Json::arr();
#endif
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
	auto comb = [](fg::CombineMode m) { return m == fg::CombineMode::Average ? "average" : m == fg::CombineMode::Minimum ? "minimum" : m == fg::CombineMode::Maximum ? "maximum" : m == fg::CombineMode::Multiply ? "multiply" : "?"; };
	list("physicsMaterials", a.physicsMaterials, [&](Json& o, const fg::PhysicsMaterial& x) { o["staticFriction"] = num(x.staticFriction); o["dynamicFriction"] = num(x.dynamicFriction); o["restitution"] = num(x.restitution); o["frictionCombine"] = comb(x.frictionCombine); o["restitutionCombine"] = comb(x.restitutionCombine); });
	auto strs = [](auto& v) { auto l = Json::arr(); for (auto& s : v) l.push(st(s)); return l; };
	list("collisionFilters", a.collisionFilters, [&](Json& o, const fg::CollisionFilter& x) { o["collisionSystems"] = strs(x.collisionSystems); o["collideWithSystems"] = strs(x.collideWithSystems); o["notCollideWithSystems"] = strs(x.notCollideWithSystems); });
	list("physicsJoints", a.physicsJoints, [&](Json& o, const fg::PhysicsJoint& x) {
		auto ls = Json::arr(), ds = Json::arr();
		for (auto& y : x.limits) { auto e = Json::obj(); auto ax = [](auto& v) { auto l = Json::arr(); for (auto k : v) l.push(static_cast<unsigned>(k)); return l; }; e["linearAxes"] = ax(y.linearAxes); e["angularAxes"] = ax(y.angularAxes); onum(e, "min", y.min); onum(e, "max", y.max); onum(e, "stiffness", y.stiffness); e["damping"] = num(y.damping); ls.push(e); }
		for (auto& y : x.drives) { auto e = Json::obj(); e["type"] = y.type == fg::DriveType::Linear ? "linear" : y.type == fg::DriveType::Angular ? "angular" : "?"; e["mode"] = y.mode == fg::DriveMode::Force ? "force" : y.mode == fg::DriveMode::Acceleration ? "acceleration" : "?"; e["axis"] = static_cast<unsigned>(y.axis); e["maxForce"] = num(y.maxForce); e["positionTarget"] = num(y.positionTarget); e["velocityTarget"] = num(y.velocityTarget); e["stiffness"] = num(y.stiffness); e["damping"] = num(y.damping); ds.push(e); }
		o["limits"] = ls; o["drives"] = ds;
	});
#else
	for (auto k : {"physicsMaterials", "collisionFilters", "physicsJoints"}) r[k] = Json::arr();
#endif
	return r;
}

// loading helpers
inline fg::Extensions extBits(const gs::Exts& e) {
	fg::Extensions x = fg::Extensions::None;
	for (auto& [n, b] : fg::extensionStrings) if (e.count(std::string(n))) x |= b;
	return x;
}
inline fg::GltfDataBuffer bytes(std::string_view t) {
#if FASTGLTF_CPP_20
	std::string own(t); fg::span<std::byte> view(std::span<std::byte>(reinterpret_cast<std::byte*>(own.data()), own.size())); std::span<std::byte> again = view; // copied by the buffer, in exactly this size
	if (again.data() != reinterpret_cast<std::byte*>(own.data()) || again.size() != t.size()) pbt::fail("span", "a span does not survive the conversion to std::span");
	auto r = fg::GltfDataBuffer::FromSpan(again);
#else
	auto r = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(t.data()), t.size());
#endif
	if (r.error() != fg::Error::None) pbt::fail("FromBytes", "GltfDataBuffer::FromBytes failed");
	return std::move(r.get());
}
inline std::string err(fg::Error e) { return std::string(fg::getErrorName(e)); }
// the media type recorded for a loaded file or binary chunk is left open where the document names none
inline void openMimes(Json& got, const Json& want) {
	for (auto* k : {"buffers", "images"}) {
		auto* a = got.find(k); auto* b = want.find(k); if (!a || !b || a->a.size() != b->a.size()) continue;
		for (size_t i = 0; i < a->a.size(); ++i) { auto* x = a->a[i].find("data"); auto* y = b->a[i].find("data"); if (x && y && x->find("bytes") && !y->find("mime")) x->erase("mime"); }
	}
}
// every member must be present in the other, but member order and canonical extras do not matter
inline void same(const Json& got, const Json& want, const char* tag, double tol = 0) {
	auto d = js::diff(got, want, tol);
	if (d.empty()) return;
	std::string t = tag; t += ' '; // the path without indices distinguishes failures
	for (size_t i = 0; i < d.size() && d[i] != ':'; ++i) if (!isdigit(static_cast<unsigned char>(d[i]))) t += d[i];
	pbt::fail(t.substr(0, 100), "asset" + d);
}
} // namespace dp

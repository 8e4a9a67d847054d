// The glTF 2.0 schema and the supported extensions as data: drives document generation, the expected content of
// the asset (normalise) and systematic defects (mutations). Written from the specifications.
#pragma once
#include "json.hpp"
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>

namespace gs {
using js::Json;
struct Schema;
struct Ty {
	enum K { Uint, Num, Dbl, Bool, Str, EnumS, EnumI, Obj, Arr, Ref, Map, Any } k = Any;
	const Schema* s = nullptr; std::shared_ptr<Ty> elem; size_t lo = 0, hi = 0; // array bounds
	std::string ref; std::vector<std::string> es; std::vector<uint64_t> ei;
	double min = -100, max = 100; // generation range
};
enum Mode { Ptr, Inline }; // extension objects: a member of their own, or their members belong to the parent
struct Fld {
	std::string key; Ty ty; bool req = false; Json def; bool hasDef = false; std::string ext; Mode mode = Ptr;
	std::string canon; // key in the canonical form (same as key unless set)
	bool hand = false; // generated by hand-written code, not by the generic generator
	const std::string& ck() const { return canon.empty() ? key : canon; }
};
struct Schema { std::string name; std::vector<Fld> f; };

inline Ty U(double lo = 0, double hi = 20) { Ty t; t.k = Ty::Uint; t.min = lo; t.max = hi; return t; }
inline Ty N(double lo = -100, double hi = 100) { Ty t; t.k = Ty::Num; t.min = lo; t.max = hi; return t; }
inline Ty D() { Ty t; t.k = Ty::Dbl; return t; }
inline Ty B() { Ty t; t.k = Ty::Bool; return t; }
inline Ty S() { Ty t; t.k = Ty::Str; return t; }
inline Ty ES(std::vector<std::string> v) { Ty t; t.k = Ty::EnumS; t.es = std::move(v); return t; }
inline Ty EI(std::vector<uint64_t> v) { Ty t; t.k = Ty::EnumI; t.ei = std::move(v); return t; }
inline Ty O(const Schema& s) { Ty t; t.k = Ty::Obj; t.s = &s; return t; }
inline Ty A(Ty e, size_t lo = 1, size_t hi = 3) { Ty t; t.k = Ty::Arr; t.elem = std::make_shared<Ty>(std::move(e)); t.lo = lo; t.hi = hi; return t; }
inline Ty R(std::string r) { Ty t; t.k = Ty::Ref; t.ref = std::move(r); return t; }
inline Ty M(Ty e) { Ty t; t.k = Ty::Map; t.elem = std::make_shared<Ty>(std::move(e)); return t; }
inline Fld req(std::string k, Ty t) { Fld f; f.key = std::move(k); f.ty = std::move(t); f.req = true; return f; }
inline Fld opt(std::string k, Ty t) { Fld f; f.key = std::move(k); f.ty = std::move(t); return f; }
inline Fld opt(std::string k, Ty t, Json d) { Fld f = opt(std::move(k), std::move(t)); f.def = std::move(d); f.hasDef = true; return f; }
inline Fld ext(std::string e, Ty t, Mode m = Ptr) { Fld f; f.key = e; f.ext = std::move(e); f.ty = std::move(t); f.mode = m; return f; }
inline Fld hand(Fld f) { f.hand = true; return f; }
inline Fld as(std::string c, Fld f) { f.canon = std::move(c); return f; }
inline Json rep(double v, int n) { auto a = Json::arr(); for (int i = 0; i < n; ++i) a.push(Json(v)); return a; }
inline Fld nameF() { return opt("name", S(), ""); }

struct Spec {
	std::map<std::string, Schema> m;
	const Schema& operator[](const std::string& n) const { return m.at(n); }
	Schema& def(const std::string& n, std::vector<Fld> f) { auto& s = m[n]; s.name = n; s.f = std::move(f); return s; }
	std::vector<std::pair<std::string, std::string>> arrays; // root array -> schema
	std::vector<std::tuple<std::string, std::string, std::string>> extArrays; // extension, key, schema
};

inline const std::vector<std::string>& mimes() { static std::vector<std::string> v{"image/jpeg", "image/png", "image/ktx2", "image/vnd-ms.dds", "image/webp"}; return v; }

const Spec& spec();
#ifdef PBT_GEN
const Spec& spec() {
	static const Spec spec = []() __attribute__((optnone, noinline)) {
		Spec p;
		auto& texTransform = p.def("KHR_texture_transform", {opt("rotation", N(-3, 3), 0.0), opt("offset", A(N(), 2, 2), rep(0, 2)), opt("scale", A(N(), 2, 2), rep(1, 2)), opt("texCoord", U(0, 3))});
		auto tex = [&](const char* n, std::vector<Fld> extra) -> Schema& {
			std::vector<Fld> f{req("index", R("textures")), opt("texCoord", U(0, 3), 0u), ext("KHR_texture_transform", O(texTransform))};
			for (auto& e : extra) f.push_back(e);
			return p.def(n, f);
		};
		auto& ti = tex("textureInfo", {});
		auto& ni = tex("normalTextureInfo", {opt("scale", N(), 1.0)});
		auto& oi = tex("occlusionTextureInfo", {opt("strength", N(0, 1), 1.0)});
		p.def("asset", {req("version", S()), opt("generator", S(), ""), opt("copyright", S(), "")});
		auto& spIdx = p.def("sparseIndices", {req("bufferView", R("bufferViews")), opt("byteOffset", U(), 0u), req("componentType", EI({5121, 5123, 5125}))});
		auto& spVal = p.def("sparseValues", {req("bufferView", R("bufferViews")), opt("byteOffset", U(), 0u)});
		auto& sparse = p.def("sparse", {req("count", U(1)), req("indices", O(spIdx)), req("values", O(spVal))});
		auto& accessor = p.def("accessor", {hand(opt("bufferView", R("bufferViews"))), hand(opt("byteOffset", U(), 0u)), hand(req("componentType", EI({5120, 5121, 5122, 5123, 5125, 5126}))), hand(opt("normalized", B(), false)),
			hand(req("count", U(1))), hand(req("type", ES({"SCALAR", "VEC2", "VEC3", "VEC4", "MAT2", "MAT3", "MAT4"}))), hand(opt("max", A(D(), 1, 16))), hand(opt("min", A(D(), 1, 16))), hand(opt("sparse", O(sparse))), nameF()});
		auto& meshopt = p.def("EXT_meshopt_compression", {hand(req("buffer", R("buffers"))), hand(opt("byteOffset", U(), 0u)), hand(req("byteLength", U(1))), hand(req("byteStride", U(1))), hand(req("count", U(1))),
			hand(req("mode", ES({"ATTRIBUTES", "TRIANGLES", "INDICES"}))), opt("filter", ES({"NONE", "OCTAHEDRAL", "QUATERNION", "EXPONENTIAL"}), "NONE")});
		auto& bufferView = p.def("bufferView", {hand(req("buffer", R("buffers"))), hand(opt("byteOffset", U(), 0u)), hand(req("byteLength", U(1))), hand(opt("byteStride", U(4, 252))), hand(opt("target", EI({34962, 34963}))), hand(ext("EXT_meshopt_compression", O(meshopt))), nameF()});
		auto& buffer = p.def("buffer", {hand(req("byteLength", U(1))), hand(opt("uri", S())), nameF()});
		auto& image = p.def("image", {hand(opt("uri", S())), hand(opt("mimeType", ES(mimes()))), hand(opt("bufferView", R("bufferViews"))), nameF()});
		auto& sampler = p.def("sampler", {opt("magFilter", EI({9728, 9729})), opt("minFilter", EI({9728, 9729, 9984, 9985, 9986, 9987})), opt("wrapS", EI({33071, 33648, 10497}), 10497u), opt("wrapT", EI({33071, 33648, 10497}), 10497u), nameF()});
		auto src = [&](const char* e, const char* canon) { auto& s = p.def(e, {as(canon, req("source", R("images")))}); return ext(e, O(s), Inline); };
		auto& texture = p.def("texture", {opt("sampler", R("samplers")), hand(opt("source", R("images"))), src("KHR_texture_basisu", "basisu"), src("MSFT_texture_dds", "dds"), src("EXT_texture_webp", "webp"), nameF()});
		auto& pbr = p.def("pbr", {opt("baseColorFactor", A(N(0, 1), 4, 4), rep(1, 4)), opt("metallicFactor", N(0, 1), 1.0), opt("roughnessFactor", N(0, 1), 1.0), opt("baseColorTexture", O(ti)), opt("metallicRoughnessTexture", O(ti))});
		auto E = [&](const char* n, std::vector<Fld> f, Mode m = Ptr) { auto& s = p.def(n, std::move(f)); return ext(n, O(s), m); };
		const double inf = std::numeric_limits<double>::infinity();
		auto& material = p.def("material", {nameF(), opt("pbrMetallicRoughness", O(pbr), Json::obj()), opt("normalTexture", O(ni)), opt("occlusionTexture", O(oi)), opt("emissiveTexture", O(ti)),
			opt("emissiveFactor", A(N(0, 1), 3, 3), rep(0, 3)), opt("alphaMode", ES({"OPAQUE", "MASK", "BLEND"}), "OPAQUE"), opt("alphaCutoff", N(0, 1), 0.5), opt("doubleSided", B(), false),
			E("KHR_materials_anisotropy", {opt("anisotropyStrength", N(0, 1), 0.0), opt("anisotropyRotation", N(-3, 3), 0.0), opt("anisotropyTexture", O(ti))}),
			E("KHR_materials_clearcoat", {opt("clearcoatFactor", N(0, 1), 0.0), opt("clearcoatTexture", O(ti)), opt("clearcoatRoughnessFactor", N(0, 1), 0.0), opt("clearcoatRoughnessTexture", O(ti)), opt("clearcoatNormalTexture", O(ni))}),
			E("KHR_materials_diffuse_transmission", {opt("diffuseTransmissionFactor", N(0, 1), 0.0), opt("diffuseTransmissionTexture", O(ti)), opt("diffuseTransmissionColorFactor", A(N(0, 1), 3, 3), rep(1, 3)), opt("diffuseTransmissionColorTexture", O(ti))}),
			E("KHR_materials_iridescence", {opt("iridescenceFactor", N(0, 1), 0.0), opt("iridescenceTexture", O(ti)), opt("iridescenceIor", N(1, 3), 1.3), opt("iridescenceThicknessMinimum", N(0, 300), 100.0), opt("iridescenceThicknessMaximum", N(300, 900), 400.0), opt("iridescenceThicknessTexture", O(ti))}),
			E("KHR_materials_sheen", {opt("sheenColorFactor", A(N(0, 1), 3, 3), rep(0, 3)), opt("sheenColorTexture", O(ti)), opt("sheenRoughnessFactor", N(0, 1), 0.0), opt("sheenRoughnessTexture", O(ti))}),
			E("KHR_materials_specular", {opt("specularFactor", N(0, 1), 1.0), opt("specularTexture", O(ti)), opt("specularColorFactor", A(N(0, 5), 3, 3), rep(1, 3)), opt("specularColorTexture", O(ti))}),
			E("KHR_materials_transmission", {opt("transmissionFactor", N(0, 1), 0.0), opt("transmissionTexture", O(ti))}),
			E("KHR_materials_volume", {opt("thicknessFactor", N(0, 9), 0.0), opt("thicknessTexture", O(ti)), opt("attenuationDistance", N(0.001, 50), inf), opt("attenuationColor", A(N(0, 1), 3, 3), rep(1, 3))}),
			E("KHR_materials_pbrSpecularGlossiness", {opt("diffuseFactor", A(N(0, 1), 4, 4), rep(1, 4)), opt("diffuseTexture", O(ti)), opt("specularFactor", A(N(0, 1), 3, 3), rep(1, 3)), opt("glossinessFactor", N(0, 1), 1.0), opt("specularGlossinessTexture", O(ti))}),
			E("KHR_materials_dispersion", {opt("dispersion", N(0, 2), 0.0)}, Inline),
			E("KHR_materials_emissive_strength", {opt("emissiveStrength", N(0, 50), 1.0)}, Inline),
			E("KHR_materials_ior", {opt("ior", N(1, 3), 1.5)}, Inline),
			E("KHR_materials_unlit", {}, Inline), // canonical member "unlit", added by normalise
			E("MSFT_packing_normalRoughnessMetallic", {opt("normalRoughnessMetallicTexture", O(ti))}, Inline),
			E("MSFT_packing_occlusionRoughnessMetallic", {opt("occlusionRoughnessMetallicTexture", O(ti)), opt("roughnessMetallicOcclusionTexture", O(ti)), opt("normalTexture", O(ti))})});
		auto& variantMapping = p.def("variantMapping", {req("material", R("materials")), hand(req("variants", A(U(0, 3))))});
		auto& variants = p.def("KHR_materials_variants", {hand(req("mappings", A(O(variantMapping))))});
		auto& draco = p.def("KHR_draco_mesh_compression", {hand(req("bufferView", R("bufferViews"))), hand(req("attributes", M(U())))});
		auto& primitive = p.def("primitive", {hand(req("attributes", M(R("accessors")))), hand(opt("indices", R("accessors"))), opt("material", R("materials")), hand(opt("mode", EI({0, 1, 2, 3, 4, 5, 6}), 4u)), hand(opt("targets", A(M(R("accessors"))), Json::arr())),
			hand(ext("KHR_materials_variants", O(variants))), hand(ext("KHR_draco_mesh_compression", O(draco)))});
		auto& mesh = p.def("mesh", {hand(req("primitives", A(O(primitive)))), hand(opt("weights", A(N()), Json::arr())), nameF()});
		auto& channelTarget = p.def("channelTarget", {hand(opt("node", R("nodes"))), hand(req("path", ES({"translation", "rotation", "scale", "weights"})))});
		auto& channel = p.def("channel", {hand(req("sampler", U())), hand(req("target", O(channelTarget)))});
		auto& animSampler = p.def("animationSampler", {hand(req("input", R("accessors"))), hand(req("output", R("accessors"))), hand(opt("interpolation", ES({"LINEAR", "STEP", "CUBICSPLINE"}), "LINEAR"))});
		auto& animation = p.def("animation", {hand(req("channels", A(O(channel)))), hand(req("samplers", A(O(animSampler)))), nameF()});
		auto& persp = p.def("perspective", {opt("aspectRatio", N(0.1, 4)), req("yfov", N(0.1, 3)), opt("zfar", N(101, 1000)), req("znear", N(0.01, 100))});
		auto& ortho = p.def("orthographic", {req("xmag", N(0.1, 9)), req("ymag", N(0.1, 9)), req("zfar", N(101, 1000)), req("znear", N(0, 100))});
		auto& camera = p.def("camera", {hand(req("type", ES({"perspective", "orthographic"}))), hand(opt("perspective", O(persp))), hand(opt("orthographic", O(ortho))), nameF()});
		auto& skin = p.def("skin", {hand(opt("inverseBindMatrices", R("accessors"))), hand(opt("skeleton", R("nodes"))), hand(req("joints", A(R("nodes")))), nameF()});
		auto& scene = p.def("scene", {hand(opt("nodes", A(R("nodes")), Json::arr())), nameF()});
		auto& lightRef = p.def("KHR_lights_punctual", {as("light", req("light", R("lights")))});
		auto& inst = p.def("EXT_mesh_gpu_instancing", {hand(as("instancing", req("attributes", M(R("accessors")))))});
		auto& motion = p.def("motion", {opt("isKinematic", B(), false), opt("mass", N(0, 9)), opt("centerOfMass", A(N(), 3, 3), rep(0, 3)), opt("inertiaDiagonal", A(N(0, 9), 3, 3)), opt("inertialOrientation", A(N(-1, 1), 4, 4)),
			opt("linearVelocity", A(N(), 3, 3), rep(0, 3)), opt("angularVelocity", A(N(), 3, 3), rep(0, 3)), opt("gravityFactor", N(), 1.0)});
		auto& geometry = p.def("geometry", {hand(opt("shape", R("shapes"))), hand(opt("node", R("nodes"))), opt("convexHull", B(), false)});
		auto& collider = p.def("collider", {req("geometry", O(geometry)), opt("physicsMaterial", R("physicsMaterials")), opt("collisionFilter", R("collisionFilters"))});
		auto& trigger = p.def("trigger", {hand(opt("geometry", O(geometry))), hand(opt("collisionFilter", R("collisionFilters"))), hand(opt("nodes", A(R("nodes"))))});
		auto& joint = p.def("joint", {hand(req("connectedNode", R("nodes"))), req("joint", R("physicsJoints")), opt("enableCollision", B(), false)});
		auto& body = p.def("KHR_physics_rigid_bodies", {opt("motion", O(motion)), opt("collider", O(collider)), hand(opt("trigger", O(trigger))), hand(opt("joint", O(joint)))});
		auto& vis = p.def("KHR_node_visibility", {req("visible", B())});
		auto& sel = p.def("KHR_node_selectability", {req("selectable", B())});
		auto& hov = p.def("KHR_node_hoverability", {req("hoverable", B())});
		auto& node = p.def("node", {hand(opt("camera", R("cameras"))), hand(opt("children", A(R("nodes")), Json::arr())), hand(opt("skin", R("skins"))), hand(opt("matrix", A(N(), 16, 16))), hand(opt("mesh", R("meshes"))),
			hand(opt("rotation", A(N(-1, 1), 4, 4))), hand(opt("scale", A(N(0.1, 5), 3, 3))), hand(opt("translation", A(N(), 3, 3))), hand(opt("weights", A(N()), Json::arr())), nameF(),
			ext("KHR_lights_punctual", O(lightRef), Inline), hand(ext("EXT_mesh_gpu_instancing", O(inst), Inline)), ext("KHR_physics_rigid_bodies", O(body)),
			ext("KHR_node_visibility", O(vis), Inline), ext("KHR_node_selectability", O(sel), Inline), ext("KHR_node_hoverability", O(hov), Inline)});
		auto& spot = p.def("spot", {opt("innerConeAngle", N(0, 0.7), 0.0), opt("outerConeAngle", N(0.71, 1.57), 0.7853981633974483)});
		auto& light = p.def("light", {hand(req("type", ES({"directional", "point", "spot"}))), opt("color", A(N(0, 1), 3, 3), rep(1, 3)), opt("intensity", N(0, 99), 1.0), hand(opt("range", N(0.1, 50))), hand(opt("spot", O(spot))), nameF()});
		auto& variantDef = p.def("variant", {req("name", S())});
		auto& sphere = p.def("sphere", {opt("radius", N(0.1, 9), 0.5)});
		auto& box = p.def("box", {opt("size", A(N(0.1, 9), 3, 3), rep(1, 3))});
		auto& cap = p.def("capsule", {opt("height", N(0.1, 9), 0.5), opt("radiusBottom", N(0.1, 9), 0.25), opt("radiusTop", N(0.1, 9), 0.25)});
		auto& cyl = p.def("cylinder", {opt("height", N(0.1, 9), 0.5), opt("radiusBottom", N(0.1, 9), 0.25), opt("radiusTop", N(0.1, 9), 0.25)});
		auto& shape = p.def("shape", {hand(req("type", ES({"sphere", "box", "capsule", "cylinder"}))), hand(opt("sphere", O(sphere))), hand(opt("box", O(box))), hand(opt("capsule", O(cap))), hand(opt("cylinder", O(cyl)))});
		std::vector<std::string> comb{"average", "minimum", "maximum", "multiply"};
		auto& pmat = p.def("physicsMaterial", {opt("staticFriction", N(0, 2), 0.6), opt("dynamicFriction", N(0, 2), 0.6), opt("restitution", N(0, 1), 0.0), opt("frictionCombine", ES(comb), "average"), opt("restitutionCombine", ES(comb), "average")});
		auto& cfil = p.def("collisionFilter", {opt("collisionSystems", A(S()), Json::arr()), hand(opt("collideWithSystems", A(S()), Json::arr())), hand(opt("notCollideWithSystems", A(S()), Json::arr()))});
		auto& limit = p.def("jointLimit", {hand(opt("linearAxes", A(U(0, 2)), Json::arr())), hand(opt("angularAxes", A(U(0, 2)), Json::arr())), opt("min", N()), opt("max", N()), opt("stiffness", N(0, 9)), opt("damping", N(0, 9), 0.0)});
		auto& drive = p.def("jointDrive", {req("type", ES({"linear", "angular"})), req("mode", ES({"force", "acceleration"})), req("axis", U(0, 2)), hand(opt("maxForce", N(0, 99))), hand(opt("positionTarget", N(), 0.0)), hand(opt("velocityTarget", N(), 0.0)), hand(opt("stiffness", N(0, 9), 0.0)), hand(opt("damping", N(0, 9), 0.0))});
		auto& pjoint = p.def("physicsJoint", {hand(opt("limits", A(O(limit)), Json::arr())), hand(opt("drives", A(O(drive)), Json::arr()))});
		(void)accessor; (void)bufferView; (void)buffer; (void)image; (void)sampler; (void)texture; (void)material; (void)mesh; (void)animation; (void)camera; (void)skin; (void)scene; (void)node; (void)light; (void)variantDef; (void)shape; (void)pmat; (void)cfil; (void)pjoint;
		p.arrays = {{"accessors", "accessor"}, {"animations", "animation"}, {"buffers", "buffer"}, {"bufferViews", "bufferView"}, {"cameras", "camera"}, {"images", "image"}, {"materials", "material"}, {"meshes", "mesh"}, {"nodes", "node"}, {"samplers", "sampler"}, {"scenes", "scene"}, {"skins", "skin"}, {"textures", "texture"}};
		p.extArrays = {{"KHR_lights_punctual", "lights", "light"}, {"KHR_materials_variants", "variants", "variant"}, {"KHR_implicit_shapes", "shapes", "shape"}, {"KHR_physics_rigid_bodies", "physicsMaterials", "physicsMaterial"}, {"KHR_physics_rigid_bodies", "collisionFilters", "collisionFilter"}, {"KHR_physics_rigid_bodies", "physicsJoints", "physicsJoint"}};
		return p;
	}();
	return spec;
}

#endif

// ---- the expected content of an asset for a valid document
using Exts = std::set<std::string>;
template <class F = float> Json normObj(const Json& d, const Schema& s, const Exts& on);
template <class F = float> Json normRoot(const Json& d, const Exts& on);
extern template Json normRoot<float>(const Json&, const Exts&);
extern template Json normRoot<double>(const Json&, const Exts&);
#ifdef PBT_GEN
template <class F> Json normVal(const Json& v, const Ty& t, const Exts& on) {
	switch (t.k) {
		case Ty::Num: return Json(static_cast<double>(static_cast<F>(v.num())));
		case Ty::Obj: return normObj<F>(v, *t.s, on);
		case Ty::Arr: { auto a = Json::arr(); for (auto& x : v.a) a.push(normVal<F>(x, *t.elem, on)); return a; }
		case Ty::Map: { auto o = Json::obj(); for (auto& [k, x] : v.o) o[k] = normVal<F>(x, *t.elem, on); return o; }
		default: return v;
	}
}
template <class F> Json normObj(const Json& d, const Schema& s, const Exts& on) {
	auto o = Json::obj();
	auto& ex = d.at("extensions");
	for (auto& f : s.f) {
		if (!f.ext.empty()) {
			if (!on.count(f.ext)) { if (f.mode == Inline) for (auto& m : f.ty.s->f) if (m.hasDef) o[m.ck()] = normVal<F>(m.def, m.ty, on); continue; }
			auto* e = ex.find(f.ext);
			if (f.mode == Ptr) { if (e) o[f.ck()] = normObj<F>(*e, *f.ty.s, on); continue; }
			auto sub = normObj<F>(e ? *e : Json::obj(), *f.ty.s, on);
			for (auto& kv : sub.o) o[kv.first] = kv.second;
			continue;
		}
		if (auto* v = d.find(f.key)) o[f.ck()] = normVal<F>(*v, f.ty, on);
		else if (f.hasDef) o[f.ck()] = normVal<F>(f.def, f.ty, on);
	}
	auto& n = s.name;
	auto has = [&](const char* e) { return on.count(e) && ex.find(e); };
	if (n == "material") o["unlit"] = Json(has("KHR_materials_unlit"));
	if (n == "node") {
		if (!o.find("visible")) o["visible"] = true;
		if (!o.find("selectable")) o["selectable"] = true;
		if (!o.find("hoverable")) o["hoverable"] = true;
		if (!o.find("instancing")) o["instancing"] = Json::obj();
		if (!d.find("matrix")) { if (!o.find("translation")) o["translation"] = rep(0, 3); if (!o.find("rotation")) { auto r = rep(0, 4); r.a[3] = Json(1.0); o["rotation"] = r; } if (!o.find("scale")) o["scale"] = rep(1, 3); }
	}
	if (n == "camera") { auto ty = d.at("type").s; Json keep = o.at(ty); o.erase("type"); o.erase("perspective"); o.erase("orthographic"); o[ty] = keep; }
	if (n == "light") { if (d.at("type").s != "spot") o.erase("spot"); }
	if (n == "shape") { auto ty = d.at("type").s; auto sub = d.find(ty) ? *d.find(ty) : Json::obj(); auto name = spec()[ty]; o = normObj<F>(sub, name, on); o["type"] = ty; }
	if (n == "primitive") {
		if (auto* m = o.find("KHR_materials_variants")) {
			auto list = Json::obj();
			for (auto& e : m->at("mappings").a) for (auto& v : e.at("variants").a) list["v" + std::to_string(v.u)] = e.at("material");
			o.erase("KHR_materials_variants"); o["mappings"] = list;
		} else o["mappings"] = Json::obj();
	}
	return o;
}
// All but buffer and image data (see normData)
template <class F> Json normRoot(const Json& d, const Exts& on) {
	auto o = Json::obj(); auto& p = spec();
	o["asset"] = normObj<F>(d.at("asset"), p["asset"], on);
	o["extensionsUsed"] = d.find("extensionsUsed") ? d.at("extensionsUsed") : Json::arr();
	o["extensionsRequired"] = d.find("extensionsRequired") ? d.at("extensionsRequired") : Json::arr();
	if (d.find("scene")) o["scene"] = d.at("scene");
	for (auto& [k, s] : p.arrays) { auto a = Json::arr(); for (auto& x : d.at(k).a) a.push(normObj<F>(x, p[s], on)); o[k] = a; }
	for (auto& [e, k, s] : p.extArrays) {
		auto a = Json::arr();
		if (on.count(e)) for (auto& x : d.at("extensions").at(e).at(k).a) a.push(normObj<F>(x, p[s], on));
		o[k] = a;
	}
	return o;
}
template Json normRoot<float>(const Json&, const Exts&);
template Json normRoot<double>(const Json&, const Exts&);
#endif
} // namespace gs

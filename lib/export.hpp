// Assets to export, and what the exported document has to say.
#pragma once
#include "dump.hpp"
#include "gen_gltf.hpp"
#include <list>
#include <variant>

namespace ex {
namespace fg = fastgltf;
using js::Json; using pbt::Gen; using gg::Bytes;

inline std::string pctDecode(const std::string& s) {
	std::string o;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '%' && i + 2 < s.size() && isxdigit(static_cast<unsigned char>(s[i + 1])) && isxdigit(static_cast<unsigned char>(s[i + 2]))) { o += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16)); i += 2; }
		else o += s[i];
	}
	return o;
}
// only characters a URI may have, and percent signs only as part of an escape
inline bool uriText(const std::string& s) {
	for (size_t i = 0; i < s.size(); ++i) {
		auto c = static_cast<unsigned char>(s[i]);
		if (c == '%') { if (i + 2 >= s.size() || !isxdigit(static_cast<unsigned char>(s[i + 1])) || !isxdigit(static_cast<unsigned char>(s[i + 2]))) return false; continue; }
		if (c < 0x21 || c == 0x7f || strchr("\"<>\\^`{|}", c)) return false; // other than ASCII: an IRI
	}
	return true;
}

struct Case { fg::Asset asset; gg::Doc doc; fg::Extensions exts = fg::Extensions::None; gs::Exts names; std::list<Bytes> views; size_t changed = 0; };

inline fg::sources::Array toArray(const std::byte* p, size_t n, fg::MimeType m) {
	fg::StaticVector<std::byte> v(n); if (n) memcpy(v.data(), p, n); return fg::sources::Array{std::move(v), m};
}
// the same bytes held in another way
inline void otherSource(fg::DataSource& d, Case& c, Gen& g) {
	size_t n; auto* p = dp::dataPtr(d, n); if (!p) return;
	auto m = std::visit([](auto& x) -> fg::MimeType { if constexpr (fg::is_any_of_v<std::decay_t<decltype(x)>, fg::sources::Array, fg::sources::Vector, fg::sources::ByteView>) return x.mimeType; else return fg::MimeType::None; }, d);
	switch (g.draw(3)) {
		case 0: break;
		case 1: { auto a = toArray(p, n, m); d = std::move(a); break; }
		case 2: { fg::sources::Vector v; v.bytes.assign(p, p + n); v.mimeType = m; d = std::move(v); break; }
		case 3: { auto& b = c.views.emplace_back(n); if (n) memcpy(b.data(), p, n); fg::sources::ByteView v; v.bytes = fg::span<const std::byte>(reinterpret_cast<const std::byte*>(b.data()), n); v.mimeType = m; d = std::move(v); break; }
	}
}
struct Want { bool strings = false, numbers = false, sources = true, wild = true; };

// any finite number
inline double number(Gen& g) {
	switch (g.draw(4)) {
		case 0: return g.pick<double>({0, 1, -1, 0.5, 1.5, 2, -0.0, 100, 400, 1.3});
		case 1: { uint32_t u = static_cast<uint32_t>(g.draw(0xffffffffu)); float f; memcpy(&f, &u, 4); return std::isfinite(f) ? f : 3.402823466e38f; }
		case 2: { uint32_t u = g.pick<uint32_t>({1, 0x7fffff, 0x800000, 0x7f7fffff, 0x3f7fffff, 0x3f800001, 0xff7fffffu, 0x80000001u}); float f; memcpy(&f, &u, 4); return f; }
		default: return gg::real(g, -1000, 1000);
	}
}
// a few members of the asset get other values, as applications that write assets set them
inline void numbers(Case& c, Gen& g) {
	auto& a = c.asset; uint64_t one_in = 1 + g.draw(8);
	auto set = [&](auto& x) { if (g.chance(1, one_in)) { x = static_cast<std::decay_t<decltype(x)>>(number(g)); ++c.changed; } };
	auto vec = [&](auto& v, size_t n) { if (g.chance(1, one_in)) for (size_t i = 0; i < n; ++i) { v[i] = static_cast<float>(number(g)); ++c.changed; } };
	auto opt = [&](auto& o) { if (g.chance(1, one_in)) { if (g.flip()) o = static_cast<fg::num>(number(g)); else o.reset(); ++c.changed; } };
	auto tex = [&](auto& t) { if (t.has_value() && t->transform && (c.exts & fg::Extensions::KHR_texture_transform) != fg::Extensions::None) { set(t->transform->rotation); vec(t->transform->uvOffset, 2); vec(t->transform->uvScale, 2); } };
	for (auto& m : a.materials) {
		vec(m.pbrData.baseColorFactor, 4); set(m.pbrData.metallicFactor); set(m.pbrData.roughnessFactor); vec(m.emissiveFactor, 3); tex(m.pbrData.baseColorTexture); tex(m.emissiveTexture);
		if (m.alphaMode == fg::AlphaMode::Mask) set(m.alphaCutoff); // else it has no meaning
		if (m.normalTexture.has_value()) set(m.normalTexture->scale);
		if (m.occlusionTexture.has_value()) set(m.occlusionTexture->strength);
		if (c.names.count("KHR_materials_emissive_strength")) set(m.emissiveStrength);
		if (c.names.count("KHR_materials_ior")) set(m.ior);
		if (c.names.count("KHR_materials_dispersion")) set(m.dispersion);
		if (m.anisotropy) { set(m.anisotropy->anisotropyStrength); set(m.anisotropy->anisotropyRotation); }
		if (m.clearcoat) { set(m.clearcoat->clearcoatFactor); set(m.clearcoat->clearcoatRoughnessFactor); }
		if (m.iridescence) { set(m.iridescence->iridescenceFactor); set(m.iridescence->iridescenceIor); set(m.iridescence->iridescenceThicknessMinimum); set(m.iridescence->iridescenceThicknessMaximum); }
		if (m.sheen) { vec(m.sheen->sheenColorFactor, 3); set(m.sheen->sheenRoughnessFactor); }
		if (m.specular) { set(m.specular->specularFactor); vec(m.specular->specularColorFactor, 3); }
		if (m.transmission) set(m.transmission->transmissionFactor);
		if (m.volume) { set(m.volume->thicknessFactor); set(m.volume->attenuationDistance); vec(m.volume->attenuationColor, 3); }
		if (m.specularGlossiness) { vec(m.specularGlossiness->diffuseFactor, 4); vec(m.specularGlossiness->specularFactor, 3); set(m.specularGlossiness->glossinessFactor); }
		if (m.diffuseTransmission) { set(m.diffuseTransmission->diffuseTransmissionFactor); vec(m.diffuseTransmission->diffuseTransmissionColorFactor, 3); }
	}
	for (auto& n : a.nodes) {
		if (auto* t = std::get_if<fg::TRS>(&n.transform)) { vec(t->translation, 3); vec(t->rotation, 4); vec(t->scale, 3); }
		else { auto& m = std::get<fg::math::fmat4x4>(n.transform); for (size_t k = 0; k < 4; ++k) vec(m.col(k), 4); }
		for (auto& w : n.weights) set(w);
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
		if (n.physicsRigidBody && n.physicsRigidBody->motion.has_value()) { auto& m = *n.physicsRigidBody->motion; opt(m.mass); vec(m.centerOfMass, 3); vec(m.linearVelocity, 3); vec(m.angularVelocity, 3); set(m.gravityFactor); }
#endif
	}
	for (auto& m : a.meshes) for (auto& w : m.weights) set(w);
	for (auto& l : a.lights) { vec(l.color, 3); set(l.intensity); opt(l.range); if (l.type == fg::LightType::Spot) { if (g.chance(1, one_in)) { l.innerConeAngle = static_cast<fg::num>(number(g)); l.outerConeAngle = static_cast<fg::num>(number(g)); } } }
	for (auto& x : a.cameras) { if (auto* p = std::get_if<fg::Camera::Perspective>(&x.camera)) { opt(p->aspectRatio); set(p->yfov); opt(p->zfar); set(p->znear); } else { auto& o = std::get<fg::Camera::Orthographic>(x.camera); set(o.xmag); set(o.ymag); set(o.zfar); set(o.znear); } }
	for (auto& x : a.accessors) for (auto* b : {&x.min, &x.max}) if (b->has_value() && (*b)->isType<double>() && g.chance(1, one_in)) for (size_t i = 0; i < (*b)->size(); ++i) (*b)->set<double>(i, number(g));
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
	for (auto& m : a.physicsMaterials) { set(m.staticFriction); set(m.dynamicFriction); set(m.restitution); }
	for (auto& j : a.physicsJoints) { for (auto& l : j.limits) { opt(l.min); opt(l.max); opt(l.stiffness); set(l.damping); } for (auto& d : j.drives) { set(d.maxForce); set(d.positionTarget); set(d.velocityTarget); set(d.stiffness); set(d.damping); } }
#endif
}
// Every string of the asset that the exporter writes gets arbitrary text.
inline void strings(Case& c, Gen& g) {
	auto& a = c.asset; uint64_t one_in = 1 + g.draw(3);
	auto set = [&](auto& s) { if (g.chance(1, one_in)) { auto t = gg::str(g, 10); s = std::decay_t<decltype(s)>(t.begin(), t.end()); ++c.changed; } };
	auto names = [&](auto& v) { for (auto& x : v) set(x.name); };
	auto attrs = [&](auto& v) { for (size_t i = 0; i < v.size(); ++i) { if (!g.chance(1, one_in)) continue; auto t = gg::str(g, 10); bool used = false; for (auto& x : v) used |= std::string_view(x.name.data(), x.name.size()) == t; if (!used) { v[i].name.assign(t.data(), t.size()); ++c.changed; } } };
	names(a.accessors); names(a.animations); names(a.buffers); names(a.bufferViews); names(a.cameras); names(a.images); names(a.lights); names(a.materials); names(a.meshes); names(a.nodes); names(a.samplers); names(a.scenes); names(a.skins); names(a.textures);
	for (auto& v : a.materialVariants) set(v);
	for (auto& m : a.meshes) for (auto& p : m.primitives) { attrs(p.attributes); for (auto& t : p.targets) attrs(t); if (p.dracoCompression) attrs(p.dracoCompression->attributes); }
	for (auto& n : a.nodes) attrs(n.instancingAttributes);
	if (a.assetInfo.has_value()) { set(a.assetInfo->copyright); set(a.assetInfo->generator); set(a.assetInfo->gltfVersion); }
	for (auto& e : a.extensionsUsed) set(e);
	for (auto& e : a.extensionsRequired) set(e);
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
	for (auto& f : a.collisionFilters) { for (auto& s : f.collisionSystems) set(s); for (auto& s : f.collideWithSystems) set(s); for (auto& s : f.notCollideWithSystems) set(s); }
#endif
	for (auto& b : a.buffers) if (auto* u = std::get_if<fg::sources::URI>(&b.data)) if (g.chance(1, one_in)) u->uri = fg::URI(std::string_view(gg::str(g, 12)));
	for (auto& b : a.images) if (auto* u = std::get_if<fg::sources::URI>(&b.data)) if (g.chance(1, one_in)) u->uri = fg::URI(std::string_view(gg::str(g, 12)));
}
// a generated document, loaded
inline void make(Case& c, Gen& g, gg::Opts o, Want w = {}) {
	c.doc = gg::document(g, o); c.names = gg::allExts(); c.exts = dp::extBits(c.names);
	std::string text = js::text(c.doc.root); g.note(text); g.key(pbt::hashStr(text));
	fg::Parser parser(c.exts); auto buf = dp::bytes(text);
	auto a = parser.loadGltfJson(buf, "", fg::Options::None);
	pbt::require(a.error() == fg::Error::None, "load", [&] { return "valid document refused: " + dp::err(a.error()); });
	c.asset = std::move(a.get());
	if (w.numbers) numbers(c, g);
	if (w.strings) strings(c, g);
	if (w.sources) { for (auto& b : c.asset.buffers) otherSource(b.data, c, g); for (auto& b : c.asset.images) otherSource(b.data, c, g); }
}
inline std::string u8(const std::filesystem::path& p) { auto s = p.generic_u8string(); return std::string(s.begin(), s.end()); }

// the canonical content of an exported JSON text, with {uri|fallback|view|chunk} as data
inline Json content(const std::string& text, const gs::Exts& exts) {
	Json j; std::string err;
	if (!js::parse(text, j, err)) pbt::fail("not JSON: " + err.substr(0, err.find(" at ")), "the exported text is not JSON (" + err + "): " + text);
	pbt::require(j.isObj(), "not an object", "the exported text is not an object: " + text);
	auto n = gs::normRoot(j, exts);
	auto& bs = n["buffers"];
	for (size_t i = 0; i < bs.a.size(); ++i) {
		auto& r = j.at("buffers").a[i]; auto s = Json::obj(); bs.a[i].erase("uri");
		if (auto* u = r.find("uri")) { s["uri"] = pctDecode(u->s); if (!uriText(u->s)) pbt::fail("uri characters", "the exported uri \"" + u->s + "\" has characters that must be encoded"); }
		else if (r.at("extensions").at("EXT_meshopt_compression").at("fallback").b) s["fallback"] = true;
		else s["chunk"] = true;
		bs.a[i]["data"] = s;
	}
	auto& is = n["images"];
	for (size_t i = 0; i < is.a.size(); ++i) {
		auto& r = j.at("images").a[i]; auto s = Json::obj(); for (auto* k : {"uri", "mimeType", "bufferView"}) is.a[i].erase(k);
		if (auto* u = r.find("uri")) { s["uri"] = pctDecode(u->s); if (!uriText(u->s)) pbt::fail("uri characters", "the exported uri \"" + u->s + "\" has characters that must be encoded"); }
		if (auto* u = r.find("bufferView")) s["view"] = *u;
		if (auto* u = r.find("mimeType")) s["mime"] = *u;
		is.a[i]["data"] = s;
	}
	return n;
}
// what content() should give for the asset and the paths the exporter chose
template <class R> Json expected(const fg::Asset& a, const R& r, bool glb) {
	auto n = dp::dump(a);
	for (auto& m : n["materials"].a) if (m.at("alphaMode").s != "MASK") m["alphaCutoff"] = 0.5; // has no meaning then
	pbt::require(r.bufferPaths.size() == a.buffers.size() && r.imagePaths.size() == a.images.size(), "paths", "the result does not have one path per buffer and image");
	auto one = [&](const char* k, size_t i, const auto& path, bool image) {
		auto& d = n[k].a[i]["data"]; auto s = Json::obj();
		if (d.find("bytes")) { if (!image && glb && i == 0) { s["chunk"] = true; pbt::require(!path.has_value(), "path", "the embedded buffer has a path"); } else { pbt::require(path.has_value(), "no path", std::string(k) + " of an object with bytes has no path"); s["uri"] = u8(*path); } }
		else pbt::require(!path.has_value(), "path", std::string(k) + " without bytes has a path");
		if (auto* u = d.find("uri")) s["uri"] = *u;
		if (auto* u = d.find("view")) s["view"] = *u;
		if (auto* u = d.find("fallback")) s["fallback"] = *u;
		if (image) if (auto* u = d.find("mime")) s["mime"] = *u;
		d = s;
	};
	for (size_t i = 0; i < a.buffers.size(); ++i) one("buffers", i, r.bufferPaths[i], false);
	for (size_t i = 0; i < a.images.size(); ++i) one("images", i, r.imagePaths[i], true);
	return n;
}
} // namespace ex

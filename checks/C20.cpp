// C20: node transforms compose and decompose consistently.
#include <lib/dump.hpp>
#include <lib/gen_gltf.hpp>
#include <fastgltf/tools.hpp>
using namespace pbt;
namespace fg = fastgltf; namespace m = fastgltf::math;
using js::Json;

struct M4 { double a[16] = {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}; double& at(int c, int r) { return a[c * 4 + r]; } double at(int c, int r) const { return a[c * 4 + r]; } };
static M4 mul(const M4& x, const M4& y) { M4 o; for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) { double s = 0; for (int k = 0; k < 4; ++k) s += x.at(k, r) * y.at(c, k); o.at(c, r) = s; } return o; }
static M4 absMul(const M4& x, const M4& y) { M4 o; for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) { double s = 0; for (int k = 0; k < 4; ++k) s += std::fabs(x.at(k, r)) * std::fabs(y.at(c, k)); o.at(c, r) = s; } return o; }
static M4 trs(const double* t, const double* q, const double* s) { // the matrix of the specification
	double x = q[0], y = q[1], z = q[2], w = q[3]; M4 o;
	double R[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)}, {2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)}, {2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)}};
	for (int c = 0; c < 3; ++c) for (int r = 0; r < 3; ++r) o.at(c, r) = R[r][c] * s[c];
	for (int r = 0; r < 3; ++r) o.at(3, r) = t[r];
	return o;
}
struct Trs { double t[3], q[4], s[3]; };
static double signedMag(Gen& g, double lo, double hi) { double e = lo + (hi - lo) * static_cast<double>(g.draw(1000)) / 1000; double v = std::pow(10.0, e); if (g.chance(1, 3)) v = std::round(v) < 1 ? 1 : std::round(v); return g.flip() ? v : -v; }
static Trs randomTrs(Gen& g, bool zero) {
	Trs o; double q[4], n = 0;
	switch (g.draw(5)) {
		case 0: { for (auto& x : q) x = 0; q[g.draw(3)] = g.flip() ? 1 : -1; break; } // identity and half turns about axes
		case 1: { for (auto& x : q) x = 0; for (int k = 0; k < 2; ++k) q[g.draw(3)] = g.flip() ? 0.5 : -0.5; if (!q[0] && !q[1] && !q[2] && !q[3]) q[3] = 1; break; } // quarter and half turns about diagonals
		case 2: { for (auto& x : q) x = static_cast<double>(g.draw(2000)) / 1000 - 1; q[3] = 0; if (!q[0] && !q[1] && !q[2]) q[0] = 1; break; } // half turns
		case 3: { for (auto& x : q) x = static_cast<double>(g.draw(2000)) / 1000 - 1; q[g.draw(3)] *= std::pow(10.0, -static_cast<double>(g.draw(9))); if (!q[0] && !q[1] && !q[2] && !q[3]) q[0] = 1; break; } // nearly degenerate
		default: for (auto& x : q) x = static_cast<double>(g.draw(200000)) / 100000 - 1; if (!q[0] && !q[1] && !q[2] && !q[3]) q[3] = 1;
	}
	for (double x : q) n += x * x; n = std::sqrt(n); for (int i = 0; i < 4; ++i) o.q[i] = static_cast<double>(static_cast<float>(q[i] / n));
	int how = static_cast<int>(g.draw(3)); double u = signedMag(g, -3, 3);
	for (int i = 0; i < 3; ++i) { o.t[i] = g.chance(1, 4) ? 0 : signedMag(g, -4, 5); o.s[i] = how == 0 ? 1 : how == 1 ? u : how == 2 ? signedMag(g, -2, 2) : signedMag(g, -12, 12); o.t[i] = static_cast<double>(static_cast<float>(o.t[i])); if (zero && g.chance(1, 3)) o.s[i] = g.flip() ? 0 : -0.0; o.s[i] = static_cast<double>(static_cast<float>(o.s[i])); }
	return o;
}
static Json arr(const double* v, int n) { auto a = Json::arr(); for (int i = 0; i < n; ++i) a.push(Json(v[i])); return a; }
static std::string text(const M4& x) { std::string s; char b[32]; for (int i = 0; i < 16; ++i) { snprintf(b, 32, "%.9g%s", x.a[i], i % 4 == 3 ? "; " : " "); s += b; } return s; }
static M4 of(const m::fmat4x4& x) { M4 o; for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) o.at(c, r) = static_cast<double>(x.col(c)[r]); return o; }
static m::fmat4x4 toLib(const M4& x) { return m::fmat4x4(m::fvec4(float(x.at(0, 0)), float(x.at(0, 1)), float(x.at(0, 2)), float(x.at(0, 3))), m::fvec4(float(x.at(1, 0)), float(x.at(1, 1)), float(x.at(1, 2)), float(x.at(1, 3))), m::fvec4(float(x.at(2, 0)), float(x.at(2, 1)), float(x.at(2, 2)), float(x.at(2, 3))), m::fvec4(float(x.at(3, 0)), float(x.at(3, 1)), float(x.at(3, 2)), float(x.at(3, 3)))); }
// difference per column relative to the largest magnitude that goes into it
static void near(const M4& got, const M4& want, const M4& mag, double tol, const char* tag) {
	for (int c = 0; c < 4; ++c) { double w = 0; for (int r = 0; r < 4; ++r) w = std::max({w, std::fabs(mag.at(c, r)), std::fabs(want.at(c, r))}); for (int r = 0; r < 4; ++r) require(std::fabs(got.at(c, r) - want.at(c, r)) <= tol * w, tag, [&] { return "entry in column " + std::to_string(c) + " row " + std::to_string(r) + " differs: " + text(got) + " instead of " + text(want); }); }
}
static M4 f32(M4 x) { for (auto& v : x.a) v = static_cast<double>(static_cast<float>(v)); return x; }
// bound on what rounding the entries of a product of translation, rotation and scale can contribute
static M4 bound(const M4& x) { M4 o; for (int c = 0; c < 4; ++c) { double w = 0; for (int r = 0; r < 4; ++r) w = std::max(w, std::fabs(x.at(c, r))); for (int r = 0; r < 4; ++r) o.at(c, r) = c == 3 ? std::fabs(x.at(c, r)) : r == 3 ? 0 : w; } return o; }
static std::string describe(const Trs& t) { char b[300]; snprintf(b, 300, "translation %.9g %.9g %.9g rotation %.9g %.9g %.9g %.9g scale %.9g %.9g %.9g", t.t[0], t.t[1], t.t[2], t.q[0], t.q[1], t.q[2], t.q[3], t.s[0], t.s[1], t.s[2]); return b; }
static void parts(Gen& g, const Trs& t) { int neg = 0; for (double s : t.s) neg += s < 0; if (neg % 2) g.label("mirrored"); if (neg == 2) g.label("two negative scales"); if (t.q[3] == 0 || std::fabs(t.q[3]) < 1e-6) g.label("half turn"); }

PROPERTY(decomposition, 20000, 1500000) { // a product of non-zero scale, loaded and decomposed, is the same product
	Trs t = randomTrs(g, false); M4 want = f32(trs(t.t, t.q, t.s)); parts(g, t); g.note(describe(t)); g.nontrivial(); g.key(hashStr(describe(t)));
	auto doc = Json::obj(); auto as = Json::obj(); as["version"] = "2.0"; doc["asset"] = as; auto n = Json::obj(); n["matrix"] = arr(want.a, 16); auto ns = Json::arr(); ns.push(n); doc["nodes"] = ns;
	auto data = dp::bytes(js::text(doc)); fg::Parser p; auto a = p.loadGltfJson(data, "/", fg::Options::DecomposeNodeMatrices); require(a.error() == fg::Error::None, "load", [&] { return dp::err(a.error()); });
	auto* r = std::get_if<fg::TRS>(&a->nodes[0].transform); require(r, "kind", "the node still has a matrix");
	double T[3], Q[4], S[3], qn = 0; for (int i = 0; i < 3; ++i) { T[i] = r->translation[i]; S[i] = r->scale[i]; } Q[0] = r->rotation.x(); Q[1] = r->rotation.y(); Q[2] = r->rotation.z(); Q[3] = r->rotation.w(); for (double x : Q) qn += x * x;
	require(std::fabs(qn - 1) < 1e-5, "unit rotation", [&] { return "length of the rotation is " + std::to_string(std::sqrt(qn)); });
	for (int i = 0; i < 3; ++i) require(T[i] == want.at(3, i), "translation", "translation differs");
	near(trs(T, Q, S), want, want, 1e-5, "recomposed"); near(of(fg::getLocalTransformMatrix(a->nodes[0])), want, want, 1e-5, "local matrix of the decomposed node");
	require(fg::validate(a.get()) == fg::Error::None, "validate", "the decomposed node is not valid");
}
PROPERTY(decomposition_zero, 2000, 100000) { // degenerate scale: finite values
	Trs t = randomTrs(g, true); M4 want = f32(trs(t.t, t.q, t.s)); g.note(describe(t)); m::fvec3 s, tr; m::fquat q; m::decomposeTransformMatrix(toLib(want), s, q, tr); g.nontrivial(); g.key(hashStr(describe(t))); g.label("zero scale");
	for (int i = 0; i < 3; ++i) require(std::isfinite(s[i]) && std::isfinite(tr[i]) && std::isfinite(q[i]), "not finite", "a component is not finite"); require(std::isfinite(q[3]), "not finite", "a component is not finite");
}
PROPERTY(local, 15000, 600000) { // a node's own matrix, and with a base
	Trs t = randomTrs(g, g.chance(1, 5)); M4 want; bool matrix = g.chance(1, 3); g.note(describe(t) + (matrix ? " as matrix" : "")); parts(g, t);
	fg::Node n; if (matrix) { for (auto& x : want.a) x = static_cast<double>(static_cast<float>(signedMag(g, -3, 3))); n.transform = toLib(want); g.label("matrix"); }
	else { fg::TRS r; for (int i = 0; i < 3; ++i) { r.translation[i] = static_cast<float>(t.t[i]); r.scale[i] = static_cast<float>(t.s[i]); } r.rotation = m::fquat(float(t.q[0]), float(t.q[1]), float(t.q[2]), float(t.q[3])); n.transform = r; want = trs(t.t, t.q, t.s); }
	if (matrix) near(of(fg::getLocalTransformMatrix(n)), want, M4(want), 0, "stored matrix"); else near(of(fg::getLocalTransformMatrix(n)), want, want, 1e-6, "local matrix");
	M4 base; for (auto& x : base.a) x = static_cast<double>(static_cast<float>(signedMag(g, -2, 2))); near(of(fg::getTransformMatrix(n, toLib(base))), mul(base, want), absMul(base, bound(want)), 4e-6, "with base"); near(of(fg::getTransformMatrix(n)), want, want, 1e-6, "without base");
	g.nontrivial(); g.key(hashStr(describe(t)) ^ matrix);
}
PROPERTY(walk, 6000, 300000) { // depth first, document order, product of the ancestors, once per path
	fg::Asset a; size_t n = 1 + g.size(14); bool shared = g.chance(1, 4), deep = g.chance(1, 40); if (deep) { n = 1000 + g.draw(g.chance(1, 8) ? 60000 : 9000); g.label("deep"); } if (shared) g.label("shared nodes");
	std::vector<M4> local(n); std::vector<std::vector<size_t>> kids(n); std::vector<size_t> order(n); for (size_t i = 0; i < n; ++i) order[i] = i;
	if (g.flip() && !deep) for (size_t i = n; i-- > 1;) std::swap(order[i], order[g.draw(i)]); else if (g.flip()) std::reverse(order.begin(), order.end());
	std::vector<size_t> roots; // order: a node comes after its parents
	for (size_t i = 0; i < n; ++i) {
		size_t x = order[i]; if (i && (deep || g.chance(4, 5))) { size_t par = deep ? order[i - 1] : order[g.draw(i - 1)]; kids[par].push_back(x); if (shared && g.chance(1, 4)) { size_t other = order[g.draw(i - 1)]; if (std::find(kids[other].begin(), kids[other].end(), x) == kids[other].end()) kids[other].push_back(x); } } else roots.push_back(x);
	}
	for (size_t i = 0; i < n; ++i) {
		fg::Node node; Trs t; if (deep && i % 50) { t = Trs{{0.01, 0, 0}, {0, 0, 0, 1}, {1, 1, 1}}; } else { t = randomTrs(g, false); for (auto& s : t.s) s = s < 0 ? -1 : 1; for (auto& x : t.t) x = std::fmod(x, 10); }
		for (auto& x : t.t) x = static_cast<double>(static_cast<float>(x)); local[i] = trs(t.t, t.q, t.s);
		if (i % 3) { fg::TRS r; for (int k = 0; k < 3; ++k) { r.translation[k] = static_cast<float>(t.t[k]); r.scale[k] = static_cast<float>(t.s[k]); } r.rotation = m::fquat(float(t.q[0]), float(t.q[1]), float(t.q[2]), float(t.q[3])); node.transform = r; } else { node.transform = toLib(local[i]); local[i] = f32(local[i]); }
		for (auto k : kids[i]) node.children.emplace_back(k); node.name = std::to_string(i); a.nodes.emplace_back(std::move(node));
	}
	size_t sc = 1 + g.draw(2), which = g.draw(sc - 1); for (size_t s = 0; s < sc; ++s) { fg::Scene scene; if (s == which) { for (auto r : roots) if (deep || g.chance(4, 5)) scene.nodeIndices.emplace_back(r); } else scene.nodeIndices.emplace_back(g.draw(n - 1)); a.scenes.emplace_back(std::move(scene)); }
	M4 init; if (g.flip()) { Trs t = randomTrs(g, false); for (auto& s : t.s) s = std::fmod(s, 3) + 4; init = f32(trs(t.t, t.q, t.s)); }
	struct V { size_t node; M4 mat, mag; }; std::vector<V> want; std::vector<std::tuple<size_t, M4, M4>> st; M4 absInit = init; for (auto& x : absInit.a) x = std::fabs(x);
	for (size_t k = a.scenes[which].nodeIndices.size(); k-- > 0;) st.emplace_back(a.scenes[which].nodeIndices[k], init, absInit);
	while (!st.empty() && want.size() <= 100000) { auto [x, mat, mag] = st.back(); st.pop_back(); M4 w = mul(mat, local[x]), wm = absMul(mag, bound(local[x])); want.push_back({x, w, wm}); for (size_t k = kids[x].size(); k-- > 0;) st.emplace_back(kids[x][k], w, wm); }
	if (want.size() > 100000) throw Discard{};
	g.note(std::to_string(n) + " nodes, " + std::to_string(want.size()) + " visits, scene " + std::to_string(which)); if (want.size() > 1) g.nontrivial(); size_t at = 0;
	auto cb = [&](auto& node, const m::fmat4x4& mat) {
		size_t x = static_cast<size_t>(&node - a.nodes.data()); require(at < want.size() && x == want[at].node, "order", [&] { return "visit " + std::to_string(at) + " is node " + std::to_string(x) + (at < want.size() ? " instead of " + std::to_string(want[at].node) : " after the last"); });
		if (!deep) near(of(mat), want[at].mat, want[at].mag, 1e-4, "global matrix"); ++at;
	};
	if (g.flip()) fg::iterateSceneNodes(a, which, toLib(init), cb); else { const fg::Asset& c = a; fg::iterateSceneNodes(c, which, toLib(init), cb); g.label("const asset"); }
	require(at == want.size(), "count", [&] { return std::to_string(at) + " visits instead of " + std::to_string(want.size()); });
}

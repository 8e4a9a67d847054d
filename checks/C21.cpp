// C21: vector, quaternion and matrix operations against textbook definitions written with plain loops.
#include <fastgltf/math.hpp>
#include <pbt/pbt.hpp>

using namespace pbt;
namespace fm = fastgltf::math;

template <class T> static const char* tn() { return std::is_same_v<T, float> ? "float" : std::is_same_v<T, double> ? "double" : "int"; }
// Small integers (exact in every type) or, for floating types, moderate reals.
template <class T> static T num(Gen& g, bool exact) {
	int64_t i = g.range<int64_t>(0, 18); i = (i & 1) ? -(i + 1) / 2 : i / 2;
	if constexpr (std::is_floating_point_v<T>) { if (!exact) return static_cast<T>(double(i) + double(g.draw(1023)) / 1024.0); }
	(void)exact;
	return static_cast<T>(i);
}
template <class T> static bool close(T a, double b, double scale = 1) {
	if constexpr (std::is_floating_point_v<T>) {
		double tol = (std::is_same_v<T, float> ? 4e-6 : 1e-13) * std::max({1.0, std::fabs(b), scale});
		return std::fabs(double(a) - b) <= tol;
	} else return double(a) == b;
}
template <class T, size_t N> static std::string str(const T (&a)[N]) { std::string s = "("; for (auto x : a) s += std::to_string(x) + " "; return s + ")"; }

template <class T, size_t N> struct V {
	T a[N];
	fm::vec<T, N> v() const { fm::vec<T, N> r; for (size_t i = 0; i < N; ++i) r[i] = a[i]; return r; }
};
template <class T, size_t N> static V<T, N> genV(Gen& g, bool exact) { V<T, N> r; for (auto& x : r.a) x = num<T>(g, exact); return r; }

template <class T, size_t N, class F> static void same(const char* what, const fm::vec<T, N>& got, F&& want, double scale = 1) {
	for (size_t i = 0; i < N; ++i) {
		double w = double(want(i));
		require(close<T>(got[i], w, scale), what, [&] { return std::string(what) + "<" + tn<T>() + "," + std::to_string(N) + ">[" + std::to_string(i) + "] = " + std::to_string(got[i]) + ", expected " + std::to_string(w); });
	}
}
// must be exactly the value obtained with the same arithmetic type
template <class T, size_t N, class F> static void exactly(const char* what, const fm::vec<T, N>& got, F&& want) {
	for (size_t i = 0; i < N; ++i) {
		T w = static_cast<T>(want(i));
		require(got[i] == w, what, [&] { return std::string(what) + "<" + tn<T>() + "," + std::to_string(N) + ">[" + std::to_string(i) + "] = " + std::to_string(got[i]) + ", expected " + std::to_string(w); });
	}
}


template <class T, size_t N> static void vecCase(Gen& g) {
	bool exact = g.flip();
	auto A = genV<T, N>(g, exact), B = genV<T, N>(g, exact);
	T s = num<T>(g, exact);
	g.note(std::string("vec<") + tn<T>() + "," + std::to_string(N) + "> a=" + str(A.a) + " b=" + str(B.a) + " s=" + std::to_string(s));
	auto a = A.v(), b = B.v();
	const auto& x = A.a; const auto& y = B.a;
	require(a.size() == N && a.size_bytes() == N * sizeof(T), "size", "vec size");
	exactly("a+b", a + b, [&](size_t i) { return x[i] + y[i]; });
	exactly("a-b", a - b, [&](size_t i) { return x[i] - y[i]; });
	exactly("a*b", a * b, [&](size_t i) { return x[i] * y[i]; });
	exactly("a+s", a + s, [&](size_t i) { return x[i] + s; });
	exactly("a-s", a - s, [&](size_t i) { return x[i] - s; });
	exactly("a*s", a * s, [&](size_t i) { return x[i] * s; });
	exactly("+a", +a, [&](size_t i) { return x[i]; });
	exactly("-a", -a, [&](size_t i) { return -x[i]; });
	if (s != T(0)) { exactly("a/s", a / s, [&](size_t i) { return x[i] / s; }); auto c = a; c /= s; exactly("a/=s", c, [&](size_t i) { return x[i] / s; }); }
	bool nz = true; for (auto v : y) nz &= v != T(0);
	if (nz) { exactly("a/b", a / b, [&](size_t i) { return x[i] / y[i]; }); auto c = a; c /= b; exactly("a/=b", c, [&](size_t i) { return x[i] / y[i]; }); }
	{ auto c = a; c += b; exactly("a+=b", c, [&](size_t i) { return x[i] + y[i]; }); }
	{ auto c = a; c -= b; exactly("a-=b", c, [&](size_t i) { return x[i] - y[i]; }); }
	{ auto c = a; c *= b; exactly("a*=b", c, [&](size_t i) { return x[i] * y[i]; }); }
	{ auto c = a; c += s; exactly("a+=s", c, [&](size_t i) { return x[i] + s; }); }
	{ auto c = a; c -= s; exactly("a-=s", c, [&](size_t i) { return x[i] - s; }); }
	{ auto c = a; c *= s; exactly("a*=s", c, [&](size_t i) { return x[i] * s; }); }
	{ auto c = a; ++c; exactly("++a", c, [&](size_t i) { return x[i] + T(1); }); }
	{ auto c = a; --c; exactly("--a", c, [&](size_t i) { return x[i] - T(1); }); }
	{ auto c = a; auto d = c++; exactly("a++ value", d, [&](size_t i) { return x[i]; }); exactly("a++", c, [&](size_t i) { return x[i] + T(1); }); }
	{ auto c = a; auto d = c--; exactly("a-- value", d, [&](size_t i) { return x[i]; }); exactly("a--", c, [&](size_t i) { return x[i] - T(1); }); }
	// operands are unchanged
	exactly("a unchanged", a, [&](size_t i) { return x[i]; });
	// access
	{
		const auto& ca = a;
		require(a.x() == x[0] && a.y() == x[1] && ca.x() == x[0] && ca.y() == x[1], "access", "x/y");
		if constexpr (N >= 3) require(a.z() == x[2] && ca.z() == x[2], "access", "z");
		if constexpr (N >= 4) require(a.w() == x[3] && ca.w() == x[3], "access", "w");
		for (size_t i = 0; i < N; ++i) require(ca[i] == x[i] && ca.data()[i] == x[i] && a.data()[i] == x[i], "access", "[] or data()");
		auto c = a; c.y() = s; c[0] = s; require(c.x() == s && c.y() == s, "access", "write through accessor");
	}
	exactly("fromPointer", fm::vec<T, N>::fromPointer(A.a), [&](size_t i) { return x[i]; });
	exactly("fill", fm::vec<T, N>(s), [&](size_t) { return s; });
	exactly("default", fm::vec<T, N>(), [&](size_t) { return T(0); });
	if constexpr (N == 2) { exactly("ctor", fm::vec<T, N>(x[0], x[1]), [&](size_t i) { return x[i]; }); fm::vec<T, N> il = {x[0], x[1]}; exactly("init list", il, [&](size_t i) { return x[i]; }); }
	if constexpr (N == 3) { exactly("ctor", fm::vec<T, N>(x[0], x[1], x[2]), [&](size_t i) { return x[i]; }); fm::vec<T, N> il = {x[0], x[1], x[2]}; exactly("init list", il, [&](size_t i) { return x[i]; }); }
	if constexpr (N == 4) { exactly("ctor", fm::vec<T, N>(x[0], x[1], x[2], x[3]), [&](size_t i) { return x[i]; }); fm::vec<T, N> il = {x[0], x[1], x[2], x[3]}; exactly("init list", il, [&](size_t i) { return x[i]; }); }
	{ fm::vec<double, N> c(a); exactly("to double", c, [&](size_t i) { return x[i]; }); fm::vec<double, N> d; d = a; exactly("assign to double", d, [&](size_t i) { return x[i]; }); }
	{ fm::vec<std::int64_t, N> c(a); exactly("to int64", c, [&](size_t i) { return static_cast<std::int64_t>(x[i]); }); }
	if constexpr (N < 4) {
		fm::vec<T, 4> c(a); exactly("extend", c, [&](size_t i) { return i < N ? x[i] : T(0); });
		fm::vec<T, 4> d(s); d = a; exactly("extend assign", d, [&](size_t i) { return i < N ? x[i] : T(0); });
	}
	if constexpr (N > 2) {
		fm::vec<T, 2> c(a); exactly("truncate", c, [&](size_t i) { return x[i]; });
		fm::vec<T, 2> d; d = a; exactly("truncate assign", d, [&](size_t i) { return x[i]; });
	}
	// comparison: equal iff all components are
	bool eq = true; for (size_t i = 0; i < N; ++i) eq &= x[i] == y[i];
	require((a == b) == eq && (a != b) == !eq, "==", "a == b");
	for (size_t i = 0; i < N; ++i) { auto c = a; require(c == a && !(c != a), "==", "a == copy"); c[i] += T(1); require(c != a && !(c == a), "==", [&] { return "differs in component " + std::to_string(i) + " only, but compares equal"; }); }
	// reductions
	double sum = 0, dot = 0, aa = 0, sumAbs = 0; for (size_t i = 0; i < N; ++i) { sum += double(x[i]); dot += double(x[i]) * double(y[i]); aa += double(x[i]) * double(x[i]); sumAbs += std::fabs(double(x[i]) * double(y[i])); }
	require(close<T>(fm::sum(a), sum, 40), "sum", "sum");
	require(close<T>(fm::dot(a, b), dot, sumAbs), "dot", [&] { return "dot = " + std::to_string(fm::dot(a, b)) + ", expected " + std::to_string(dot); });
	if constexpr (std::is_floating_point_v<T>) {
		require(close<T>(fm::length(a), std::sqrt(aa)), "length", "length");
		if (aa > 1e-3) same("normalize", fm::normalize(a), [&](size_t i) { return double(x[i]) / std::sqrt(aa); });
		T t = static_cast<T>(double(g.draw(16)) / 16.0);
		same("lerp", fm::lerp(a, b, t), [&](size_t i) { return double(x[i]) * (1 - double(t)) + double(y[i]) * double(t); }, 20);
		T rad = fm::radians(s); require(close<T>(rad, double(s) * 3.14159265358979323846 / 180), "radians", "radians");
		T deg = fm::degrees(s); require(close<T>(deg, double(s) * 180 / 3.14159265358979323846, 600), "degrees", "degrees");
	}
	{
		T lo = std::min(s, y[0]), hi = std::max(s, y[0]);
		exactly("clamp", fm::clamp(a, lo, hi), [&](size_t i) { return std::clamp(x[i], lo, hi); });
		require(fm::clamp(x[0], lo, hi) == std::clamp(x[0], lo, hi), "clamp", "scalar clamp");
	}
	if constexpr (N == 3) {
		T w[3] = {x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]};
		same("cross", fm::cross(a, b), [&](size_t i) { return double(w[i]); }, 200);
	}
	g.label(std::string("vec ") + tn<T>() + std::to_string(N));
}
PROPERTY(vector, 60000, 2000000) {
	unsigned t = g.draw(2), n = g.draw(2);
	g.nontrivial();
	auto run = [&](auto tag) { using T = decltype(tag); n == 0 ? vecCase<T, 2>(g) : n == 1 ? vecCase<T, 3>(g) : vecCase<T, 4>(g); };
	t == 0 ? run(float{}) : t == 1 ? run(double{}) : run(std::int32_t{});
}

// A matrix by rows and columns: r[row][col].
template <class T, size_t N, size_t M> struct Mx {
	T r[N][M];
	fm::mat<T, N, M> m() const { fm::mat<T, N, M> q; for (size_t c = 0; c < M; ++c) for (size_t i = 0; i < N; ++i) q.col(c)[i] = r[i][c]; return q; }
	std::string s() const { std::string o; for (auto& row : r) o += str(row); return o; }
};
template <class T, size_t N, size_t M> static Mx<T, N, M> genM(Gen& g, bool exact) { Mx<T, N, M> q; for (auto& row : q.r) for (auto& v : row) v = num<T>(g, exact); return q; }
template <class T, size_t N, size_t M, class F> static void sameM(const char* what, const fm::mat<T, N, M>& got, F&& want, double scale = 1) {
	for (size_t i = 0; i < N; ++i) for (size_t c = 0; c < M; ++c) {
		double w = double(want(i, c));
		require(close<T>(got.col(c)[i], w, scale), what, [&] { return std::string(what) + "<" + tn<T>() + "," + std::to_string(N) + "x" + std::to_string(M) + "> row " + std::to_string(i) + " column " + std::to_string(c) + " = " + std::to_string(got.col(c)[i]) + ", expected " + std::to_string(w); });
	}
}
template <size_t Size> static double det(const double (&m)[Size][Size]) {
	if constexpr (Size == 1) return m[0][0];
	else {
		double d = 0;
		for (size_t c = 0; c < Size; ++c) {
			double sub[Size - 1][Size - 1];
			for (size_t i = 1; i < Size; ++i) for (size_t j = 0, k = 0; j < Size; ++j) if (j != c) sub[i - 1][k++] = m[i][j];
			d += (c % 2 ? -1 : 1) * m[0][c] * det(sub);
		}
		return d;
	}
}
template <class T, size_t N, size_t M, size_t... I> static fm::mat<T, N, M> fromScalars(const T* p, std::index_sequence<I...>) { return fm::mat<T, N, M>(p[I]...); }

template <class T, size_t N, size_t M> static void matCase(Gen& g) {
	bool exact = g.flip();
	auto A = genM<T, N, M>(g, exact), B = genM<T, N, M>(g, exact);
	auto C2 = genM<T, M, 2>(g, exact); auto C3 = genM<T, M, 3>(g, exact); auto C4 = genM<T, M, 4>(g, exact);
	auto V0 = genV<T, M>(g, exact); T s = num<T>(g, exact);
	g.note(std::string("mat<") + tn<T>() + "," + std::to_string(N) + "x" + std::to_string(M) + "> rows " + A.s() + " other " + B.s() + " v " + str(V0.a) + " s=" + std::to_string(s));
	auto a = A.m(), b = B.m(); const auto& ca = a;
	const double SC = 500;
	require(a.columns() == M && a.rows() == N && a.size() == N * M && a.size_bytes() == N * M * sizeof(T), "size", "matrix sizes");
	sameM("a*s", a * s, [&](size_t i, size_t c) { return A.r[i][c] * s; }, SC);
	sameM("-a", -a, [&](size_t i, size_t c) { return -A.r[i][c]; });
	if (s != T(0)) sameM("a/s", a / s, [&](size_t i, size_t c) { return A.r[i][c] / s; });
	{ auto v = V0.v(); fm::vec<T, N> r = a * v; same("a*v", r, [&](size_t i) { double d = 0; for (size_t c = 0; c < M; ++c) d += double(A.r[i][c]) * double(V0.a[c]); return d; }, SC); }
	auto mul = [&](auto& C) {
		constexpr size_t Q = std::extent_v<std::remove_reference_t<decltype(C.r)>, 1>;
		auto p = a * C.m();
		static_assert(std::is_same_v<decltype(p), fm::mat<T, N, Q>>);
		sameM("a*b", p, [&](size_t i, size_t c) { double d = 0; for (size_t k = 0; k < M; ++k) d += double(A.r[i][k]) * double(C.r[k][c]); return d; }, SC);
	};
	mul(C2); mul(C3); mul(C4);
	{ auto t = transpose(a); static_assert(std::is_same_v<decltype(t), fm::mat<T, M, N>>); sameM("transpose", t, [&](size_t i, size_t c) { return A.r[c][i]; }); }
	for (size_t i = 0; i < N; ++i) exactly("row", a.row(i), [&](size_t c) { return A.r[i][c]; });
	for (size_t c = 0; c < M; ++c) { exactly("col", a.col(c), [&](size_t i) { return A.r[i][c]; }); exactly("[]", ca[c], [&](size_t i) { return A.r[i][c]; }); }
	for (size_t c = 0; c < M; ++c) for (size_t i = 0; i < N; ++i) require(a.data()[c * N + i] == A.r[i][c] && ca.data()[c * N + i] == A.r[i][c], "data", "data() is not column-major");
	// from N*M scalars, column by column; from M columns
	sameM("from scalars", fromScalars<T, N, M>(a.data(), std::make_index_sequence<N * M>()), [&](size_t i, size_t c) { return A.r[i][c]; });
	if constexpr (M == 2) sameM("from columns", fm::mat<T, N, M>(a.col(0), a.col(1)), [&](size_t i, size_t c) { return A.r[i][c]; });
	if constexpr (M == 3) sameM("from columns", fm::mat<T, N, M>(a.col(0), a.col(1), a.col(2)), [&](size_t i, size_t c) { return A.r[i][c]; });
	if constexpr (M == 4) sameM("from columns", fm::mat<T, N, M>(a.col(0), a.col(1), a.col(2), a.col(3)), [&](size_t i, size_t c) { return A.r[i][c]; });
	sameM("identity", fm::mat<T, N, M>(), [&](size_t i, size_t c) { return i == c ? 1 : 0; });
	sameM("diagonal", fm::mat<T, N, M>(s), [&](size_t i, size_t c) { return i == c ? s : T(0); });
	if constexpr (N > 2 && M > 2) sameM("truncate", fm::mat<T, N - 1, M - 1>(a), [&](size_t i, size_t c) { return A.r[i][c]; });
	if constexpr (N < 4 && M < 4) sameM("extend", fm::mat<T, N + 1, M + 1>(a), [&](size_t i, size_t c) { return i < N && c < M ? A.r[i][c] : T(i == c); });
	bool eq = true; for (size_t i = 0; i < N; ++i) for (size_t c = 0; c < M; ++c) eq &= A.r[i][c] == B.r[i][c];
	require((a == b) == eq && (a != b) == !eq, "==", "a == b");
	for (size_t i = 0; i < N; ++i) for (size_t c = 0; c < M; ++c) {
		auto d = a; require(d == a && !(d != a), "==", "copy is not equal");
		d.col(c)[i] += T(1); require(d != a && !(d == a), "==", [&] { return "matrices that differ in row " + std::to_string(i) + ", column " + std::to_string(c) + " only compare equal"; });
		if (c + 1 == M && M > N) g.label("wide matrix last column");
	}
	if constexpr (N == M) {
		double d[N][N]; for (size_t i = 0; i < N; ++i) for (size_t c = 0; c < N; ++c) d[i][c] = double(A.r[i][c]);
		double D = det(d); double tol = std::pow(12.0, double(N)) * 2;
		require(exact && N < 4 ? double(determinant(a)) == D : close<T>(determinant(a), D, tol), "determinant", [&] { return "determinant = " + std::to_string(determinant(a)) + ", expected " + std::to_string(D); });
		if constexpr (std::is_floating_point_v<T>) if (std::fabs(D) >= 1) {
			// adjugate / determinant in long double
			auto inv = inverse(a);
			for (size_t i = 0; i < N; ++i) for (size_t c = 0; c < N; ++c) {
				double sub[N - 1][N - 1];
				for (size_t p = 0, pi = 0; p < N; ++p) if (p != c) { for (size_t q = 0, qi = 0; q < N; ++q) if (q != i) sub[pi][qi++] = d[p][q]; ++pi; }
				double want = ((i + c) % 2 ? -1 : 1) * det(sub) / D;
				double t = (std::is_same_v<T, float> ? 4e-6 : 1e-13) * std::max({1.0, std::fabs(want) * std::max(1.0, tol / std::fabs(D)), tol / 12 / std::fabs(D)});
				require(std::fabs(double(inv.col(c)[i]) - want) <= t, "inverse", [&] { return "inverse row " + std::to_string(i) + " column " + std::to_string(c) + " = " + std::to_string(inv.col(c)[i]) + ", expected " + std::to_string(want); });
			}
			g.label("inverse" + std::to_string(N));
		}
	}
	g.label(std::string("mat ") + std::to_string(N) + "x" + std::to_string(M));
}
template <class T> static void matDispatch(Gen& g, unsigned k) {
	switch (k) {
		case 0: return matCase<T, 2, 2>(g); case 1: return matCase<T, 2, 3>(g); case 2: return matCase<T, 2, 4>(g);
		case 3: return matCase<T, 3, 2>(g); case 4: return matCase<T, 3, 3>(g); case 5: return matCase<T, 3, 4>(g);
		case 6: return matCase<T, 4, 2>(g); case 7: return matCase<T, 4, 3>(g); default: return matCase<T, 4, 4>(g);
	}
}
PROPERTY(matrix, 60000, 2000000) {
	unsigned k = g.draw(8); g.nontrivial();
	if (g.flip()) matDispatch<double>(g, k); else matDispatch<float>(g, k);
}

// Quaternions and the 4x4 builders.
template <class T> static void quatCase(Gen& g) {
	bool exact = g.flip();
	auto A = genV<T, 4>(g, exact), B = genV<T, 4>(g, exact); T s = num<T>(g, exact);
	if (g.chance(1, 6)) { bool neg = g.flip(); for (size_t i = 0; i < 4; ++i) B.a[i] = neg ? -A.a[i] : A.a[i]; if (g.flip()) { auto& c = B.a[g.draw(3)]; c += exact ? T(1) : c / T(64); } } // (nearly) the same or the opposite direction
	const auto& x = A.a; const auto& y = B.a;
	g.note(std::string("quat<") + tn<T>() + "> a=" + str(x) + " b=" + str(y) + " s=" + std::to_string(s));
	fm::quat<T> a(x[0], x[1], x[2], x[3]), b(y[0], y[1], y[2], y[3]);
	auto all = [&](const char* w, const fm::quat<T>& q, auto&& f) { for (size_t i = 0; i < 4; ++i) require(q[i] == static_cast<T>(f(i)), w, [&] { return std::string("quaternion ") + w + " component " + std::to_string(i) + " = " + std::to_string(q[i]) + ", expected " + std::to_string(static_cast<T>(f(i))); }); };
	all("ctor", a, [&](size_t i) { return x[i]; });
	require(a.x() == x[0] && a.y() == x[1] && a.z() == x[2] && a.w() == x[3] && a.size() == 4 && a.size_bytes() == 4 * sizeof(T), "access", "quaternion accessors");
	{ const auto& ca = a; require(ca.x() == x[0] && ca.y() == x[1] && ca.z() == x[2] && ca.w() == x[3] && ca.data()[3] == x[3], "access", "const quaternion accessors"); }
	all("default", fm::quat<T>(), [&](size_t i) { return i == 3 ? 1 : 0; });
	all("fromPointer", fm::quat<T>::fromPointer(A.a), [&](size_t i) { return x[i]; });
	all("a+b", a + b, [&](size_t i) { return x[i] + y[i]; });
	all("a-b", a - b, [&](size_t i) { return x[i] - y[i]; });
	all("a*s", a * s, [&](size_t i) { return x[i] * s; });
	all("+a", +a, [&](size_t i) { return x[i]; });
	all("-a", -a, [&](size_t i) { return -x[i]; });
	if (s != 0) { all("a/s", a / s, [&](size_t i) { return x[i] / s; }); auto c = a; c /= s; all("a/=s", c, [&](size_t i) { return x[i] / s; }); }
	{ auto c = a; c += b; all("a+=b", c, [&](size_t i) { return x[i] + y[i]; }); }
	{ auto c = a; c -= b; all("a-=b", c, [&](size_t i) { return x[i] - y[i]; }); }
	{ auto c = a; c *= s; all("a*=s", c, [&](size_t i) { return x[i] * s; }); }
	bool eq = true; for (size_t i = 0; i < 4; ++i) eq &= x[i] == y[i];
	require((a == b) == eq && (a != b) == !eq, "==", "quaternion comparison");
	for (size_t i = 0; i < 4; ++i) { auto c = a; require(c == a, "==", "copy"); c[i] += 1; require(c != a && !(c == a), "==", "quaternions differing in one component compare equal"); }
	double d = 0, aa = 0, bb = 0; for (size_t i = 0; i < 4; ++i) { d += double(x[i]) * y[i]; aa += double(x[i]) * x[i]; bb += double(y[i]) * y[i]; }
	require(close<T>(dot(a, b), d, 400), "dot", "quaternion dot");
	// 4x4 builders on a random matrix
	auto Mr = genM<T, 4, 4>(g, exact); auto m = Mr.m(); auto t = genV<T, 3>(g, exact);
	{
		auto mm = translate(m, t.v()); sameM("translate", mm, [&](size_t i, size_t c) { return c < 3 ? double(Mr.r[i][c]) : double(Mr.r[i][0]) * t.a[0] + double(Mr.r[i][1]) * t.a[1] + double(Mr.r[i][2]) * t.a[2] + double(Mr.r[i][3]); }, 400);
		auto ms = scale(m, t.v()); sameM("scale", ms, [&](size_t i, size_t c) { return c < 3 ? double(Mr.r[i][c]) * t.a[c] : double(Mr.r[i][3]); }, 400);
	}
	{ // affine inverse of an affine matrix
		double l[3][3]; Mx<T, 4, 4> Af = Mr; for (int c = 0; c < 3; ++c) Af.r[3][c] = 0;
		Af.r[3][3] = 1; for (int i = 0; i < 3; ++i) for (int c = 0; c < 3; ++c) l[i][c] = Mr.r[i][c];
		double D = det(l);
		if (std::fabs(D) >= 50) {
			auto p = Af.m() * affineInverse(Af.m());
			for (size_t i = 0; i < 4; ++i) for (size_t c = 0; c < 4; ++c) require(std::fabs(double(p.col(c)[i]) - (i == c)) < (std::is_same_v<T, float> ? 3e-3 : 1e-10), "affineInverse", [&] { return "m * affineInverse(m) row " + std::to_string(i) + " column " + std::to_string(c) + " = " + std::to_string(p.col(c)[i]); });
			g.label("affine inverse");
		}
	}
	if (aa < 0.1 || bb < 0.1) return;
	double nx[4], ny[4]; for (int i = 0; i < 4; ++i) { nx[i] = x[i] / std::sqrt(aa); ny[i] = y[i] / std::sqrt(bb); }
	auto q = normalize(a), r = normalize(b);
	for (size_t i = 0; i < 4; ++i) require(close<T>(q[i], nx[i]), "normalize", [&] { return "normalised quaternion component " + std::to_string(i) + " = " + std::to_string(q[i]) + ", expected " + std::to_string(nx[i]); });
	q = fm::quat<T>(T(nx[0]), T(nx[1]), T(nx[2]), T(nx[3])); r = fm::quat<T>(T(ny[0]), T(ny[1]), T(ny[2]), T(ny[3]));
	// the rotation matrix turns v into q v q^-1 (quaternion product written out with the cross product)
	double qv[3] = {nx[0], nx[1], nx[2]}, w = nx[3];
	auto crossd = [](const double* p, const double* o, double* out) { out[0] = p[1] * o[2] - p[2] * o[1]; out[1] = p[2] * o[0] - p[0] * o[2]; out[2] = p[0] * o[1] - p[1] * o[0]; };
	auto R = asMatrix(q); double Rm[3][3];
	for (int c = 0; c < 3; ++c) {
		double e[3] = {0, 0, 0}; e[c] = 1; double u[3], uu[3]; crossd(qv, e, u); crossd(qv, u, uu);
		for (int i = 0; i < 3; ++i) Rm[i][c] = e[i] + 2 * (w * u[i] + uu[i]);
	}
	sameM("asMatrix", R, [&](size_t i, size_t c) { return Rm[i][c]; });
	sameM("rotate", rotate(m, q), [&](size_t i, size_t c) { if (c == 3) return double(Mr.r[i][3]); double v = 0; for (int k = 0; k < 3; ++k) v += double(Mr.r[i][k]) * Rm[k][c]; return v; }, 60);
	// spherical interpolation along the shorter arc; q and -q are the same rotation
	double t01 = double(g.draw(32)) / 32, dd = 0; for (int i = 0; i < 4; ++i) dd += nx[i] * ny[i];
	double sgn = dd < 0 ? -1 : 1; dd = std::fabs(dd); if (dd > 1) dd = 1;
	if (dd > 1e-3) {
		auto sl = slerp(q, r, T(t01)); double th = std::acos(dd), want[4]; double best = 0;
		for (int i = 0; i < 4; ++i) { want[i] = th < 1e-6 ? nx[i] * sgn : (std::sin((1 - t01) * th) * nx[i] * sgn + std::sin(t01 * th) * ny[i]) / std::sin(th); best += want[i] * double(sl[i]); }
		double ws = best < 0 ? -1 : 1;
		for (int i = 0; i < 4; ++i) require(std::fabs(double(sl[i]) - ws * want[i]) < 2e-3, "slerp", [&] { return "slerp(" + std::to_string(t01) + ") component " + std::to_string(i) + " = " + std::to_string(sl[i]) + ", expected " + std::to_string(ws * want[i]); });
		g.label(dd > 0.9995 ? sgn < 0 ? "slerp-opposite" : "slerp-near" : sgn < 0 ? "slerp-negative" : "slerp");
	}
	g.label("rotation");
}
PROPERTY(quaternion, 60000, 2000000) {
	g.nontrivial();
	if (g.flip()) quatCase<double>(g); else quatCase<float>(g);
}

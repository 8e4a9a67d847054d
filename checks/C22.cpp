// C22: containers behave like their standard counterparts (model-based, with element life-cycle and allocator accounting).
#include <fastgltf/types.hpp>
#include <limits>
#include <map>
#include <memory_resource>
#include <optional>
#include <pbt/pbt.hpp>
#include <unordered_map>

using namespace pbt;
namespace fg = fastgltf;

// ---- element life cycle ------------------------------------------------------------------
static std::unordered_map<const void*, int> alive;      // address -> 1
static std::string lifeError;
static void born(const void* p) { if (++alive[p] != 1 && lifeError.empty()) lifeError = "an element was constructed on top of a living one"; }
static void died(const void* p) { auto it = alive.find(p); if (it == alive.end()) { if (lifeError.empty()) lifeError = "an element was destroyed that was never constructed"; } else alive.erase(it); }
static void used(const void* p) { if (!alive.count(p) && lifeError.empty()) lifeError = "an element was used that is not alive"; }
template <bool NoexceptMove, bool Movable> struct Tracked {
	int v; int* own; // own: heap memory, so that double destruction or byte copies are seen by ASan as well
	Tracked() : v(0), own(new int(0)) { born(this); }
	Tracked(int x) : v(x), own(new int(x)) { born(this); }
	Tracked(const Tracked& o) : v(o.v), own(new int(*o.own)) { used(&o); born(this); }
	Tracked(Tracked&& o) noexcept(NoexceptMove) : v(o.v), own(std::exchange(o.own, new int(-1))) { used(&o); o.v = -1; born(this); }
	Tracked& operator=(const Tracked& o) { used(this); used(&o); if (this != &o) { v = o.v; *own = *o.own; } return *this; }
	Tracked& operator=(Tracked&& o) noexcept(NoexceptMove) { used(this); used(&o); if (this != &o) { v = o.v; std::swap(own, o.own); o.v = -1; } return *this; }
	~Tracked() { died(this); delete own; own = reinterpret_cast<int*>(0x10); }
	int get() const { used(this); return v == *own ? v : -1000; }
};
struct CopyOnly { // copyable, moves deleted (like the reference counted objects of the tests)
	int v; int* own;
	CopyOnly() : v(0), own(new int(0)) { born(this); }
	CopyOnly(int x) : v(x), own(new int(x)) { born(this); }
	CopyOnly(const CopyOnly& o) : v(o.v), own(new int(*o.own)) { used(&o); born(this); }
	CopyOnly(CopyOnly&&) = delete;
	CopyOnly& operator=(const CopyOnly& o) { used(this); used(&o); v = o.v; *own = *o.own; return *this; }
	~CopyOnly() { died(this); delete own; own = reinterpret_cast<int*>(0x10); }
	int get() const { used(this); return v == *own ? v : -1000; }
};
using TrackedA = Tracked<true, true>; using TrackedB = Tracked<false, true>;
static int val(int x) { return x; }
static int val(uint64_t x) { return static_cast<int>(x); }
static int val(uint8_t x) { return x; }
template <class T> static auto val(const T& x) -> decltype(x.get()) { return x.get(); }

// ---- allocator accounting ----------------------------------------------------------------
static std::string allocError;
struct Resource final : std::pmr::memory_resource {
	std::map<void*, std::pair<size_t, size_t>> live;
	void* do_allocate(size_t n, size_t a) override { void* p = ::operator new(n ? n : 1, std::align_val_t(a)); live[p] = {n, a}; return p; }
	void do_deallocate(void* p, size_t n, size_t a) override {
		auto it = live.find(p);
		if (it == live.end()) { if (allocError.empty()) allocError = "memory was returned to an allocator that did not allocate it"; return; }
		if (it->second != std::make_pair(n, a) && allocError.empty()) allocError = "memory was returned with size " + std::to_string(n) + ", allocated were " + std::to_string(it->second.first);
		::operator delete(p, std::align_val_t(it->second.second)); live.erase(it);
	}
	bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
	~Resource() { for (auto& [p, s] : live) ::operator delete(p, std::align_val_t(s.second)); }
};
template <class T> struct CountingAlloc { // stateless: all equal
	using value_type = T;
	CountingAlloc() = default; template <class U> CountingAlloc(const CountingAlloc<U>&) {}
	static Resource& res() { static Resource* r = new Resource; return *r; }
	T* allocate(size_t n) { return static_cast<T*>(res().allocate(n * sizeof(T), alignof(T))); }
	void deallocate(T* p, size_t n) { res().deallocate(p, n * sizeof(T), alignof(T)); }
	bool operator==(const CountingAlloc&) const { return true; } bool operator!=(const CountingAlloc&) const { return false; }
};

template <class T, size_t N, class A> static void smallVector(Gen& g, const char* name) {
	using V = fg::SmallVector<T, N, A>;
	constexpr bool pmr = std::is_same_v<A, std::pmr::polymorphic_allocator<T>>;
	alive.clear(); lifeError.clear(); allocError.clear();
	Resource r0, r1, rdef; CountingAlloc<T>::res().live.clear();
	std::pmr::memory_resource* old = std::pmr::set_default_resource(&rdef);
	struct Restore { std::pmr::memory_resource* o; ~Restore() { std::pmr::set_default_resource(o); } } restore{old};
	auto alloc = [&]() -> A { if constexpr (pmr) { switch (g.draw(2)) { case 0: return A(&r0); case 1: return A(&r1); default: return A(&rdef); } } else return A(); };
	std::string log;
	{
		struct Slot { std::unique_ptr<V> v; std::vector<int> m; };
		Slot s[3];
		for (auto& x : s) x.v = std::make_unique<V>(alloc());
		int next = 1; size_t steps = 1 + g.draw(g.thorough ? 30 : 16); unsigned grew = 0, moved = 0;
		auto n = [&] { return g.chance(1, 6) ? g.draw(40) : g.draw(2 * N + 2); };
		g.note(std::string(name));
		for (size_t k = 0; k < steps; ++k) {
			size_t i = g.draw(2), j = g.draw(2); Slot &a = s[i], &b = s[j];
			std::string op = "v" + std::to_string(i);
			switch (g.draw(20)) {
				case 19: if (!a.m.empty()) { size_t e = g.draw(a.m.size() - 1); op += ".emplace_back(v" + std::to_string(i) + "[" + std::to_string(e) + "])"; g.note(op); g.label("own element"); a.v->emplace_back(std::as_const(*a.v)[e]); a.m.push_back(int(a.m[e])); } break;
				case 20: if (!a.m.empty()) { size_t z = n(), e = g.draw(a.m.size() - 1); op += ".resize(" + std::to_string(z) + ", v" + std::to_string(i) + "[" + std::to_string(e) + "])"; g.note(op); a.v->resize(z, std::as_const(*a.v)[e]); int x = a.m[e]; a.m.resize(z, x); } break;
				case 0: case 1: case 2: { int x = next++ & 0x7f; op += ".emplace_back(" + std::to_string(x) + ")"; g.note(op); auto& r = a.v->emplace_back(T(static_cast<int>(x))); a.m.push_back(x); require(val(r) == x, "emplace_back", "emplace_back returned another element"); break; }
				case 3: { size_t z = n(); op += ".resize(" + std::to_string(z) + ")"; g.note(op); a.v->resize(z); a.m.resize(z, 0); break; }
				case 4: { size_t z = n(); int x = next++ & 0x7f; op += ".resize(" + std::to_string(z) + ", " + std::to_string(x) + ")"; g.note(op); a.v->resize(z, T(x)); a.m.resize(z, x); break; }
				case 5: { size_t z = n(); op += ".reserve(" + std::to_string(z) + ")"; g.note(op); a.v->reserve(z); require(a.v->capacity() >= z, "reserve", "capacity below the reserved size"); break; }
				case 6: op += ".shrink_to_fit()"; g.note(op); a.v->shrink_to_fit(); break;
				case 7: op += ".clear()"; g.note(op); a.v->clear(); a.m.clear(); break;
				case 8: { size_t z = n(); int x = next++ & 0x7f; op += ".assign(" + std::to_string(z) + ", " + std::to_string(x) + ")"; g.note(op); a.v->assign(z, T(x)); a.m.assign(z, x); break; }
				case 9: { int x = next; next += 3; op += ".assign{3}"; g.note(op); a.v->assign({T(x & 0x7f), T((x + 1) & 0x7f), T((x + 2) & 0x7f)}); a.m = {x & 0x7f, (x + 1) & 0x7f, (x + 2) & 0x7f}; break; }
				case 10: case 11: op += " = v" + std::to_string(j); g.note(op); *a.v = *b.v; a.m = b.m; ++moved; break;
				case 12: case 13: if (i != j) { op += " = move(v" + std::to_string(j) + ")"; g.note(op); *a.v = std::move(*b.v); a.m = b.m; b.m.clear(); ++moved; } break;
				case 14: if (i != j) { op += " = new V(v" + std::to_string(j) + ")"; g.note(op); a.v = std::make_unique<V>(*b.v); a.m = b.m; ++moved; } break;
				case 15: if (i != j) { op += " = new V(move(v" + std::to_string(j) + "))"; g.note(op); a.v = std::make_unique<V>(std::move(*b.v)); a.m = b.m; b.m.clear(); ++moved; } break;
				case 16: { size_t z = n(); op += " = new V(" + std::to_string(z) + ")"; g.note(op); a.v = std::make_unique<V>(z, alloc()); a.m.assign(z, 0); break; }
				case 17: { size_t z = n(); int x = next++ & 0x7f; op += " = new V(" + std::to_string(z) + ", " + std::to_string(x) + ")"; g.note(op); a.v = std::make_unique<V>(z, T(x), alloc()); a.m.assign(z, x); break; }
				case 18: { int x = next; next += 2; op += " = new V{2}"; g.note(op); a.v = std::unique_ptr<V>(new V({T(x & 0x7f), T((x + 1) & 0x7f)}, alloc())); a.m = {x & 0x7f, (x + 1) & 0x7f}; break; }
			}
			if (a.m.size() > N) ++grew;
			size_t expectAlive = 0;
			for (size_t q = 0; q < 3; ++q) {
				auto& v = *s[q].v; const auto& cv = v; auto& m = s[q].m; expectAlive += m.size();
				auto where = [&] { return std::string(name) + " v" + std::to_string(q) + " after " + op + ": "; };
				require(v.size() == m.size() && v.empty() == m.empty(), "size", [&] { return where() + "size " + std::to_string(v.size()) + " expected " + std::to_string(m.size()); });
				require(v.capacity() >= v.size(), "capacity", [&] { return where() + "capacity below size"; });
				require(size_t(cv.end() - cv.begin()) == m.size() && v.data() == v.begin() && v.size_in_bytes() == m.size() * sizeof(T), "iterators", [&] { return where() + "iterator range"; });
				for (size_t e = 0; e < m.size(); ++e) require(val(cv[e]) == m[e] && val(v.at(e)) == m[e] && val(*(cv.begin() + e)) == m[e], "element", [&] { return where() + "element " + std::to_string(e) + " is " + std::to_string(val(cv[e])) + " expected " + std::to_string(m[e]); });
				if (!m.empty()) require(val(cv.front()) == m.front() && val(cv.back()) == m.back(), "ends", [&] { return where() + "front/back"; });
				if (!m.empty()) require(&v.front() == v.data() && &v.back() == v.data() + m.size() - 1 && &v.at(m.size() - 1) == &v.back() && &cv.at(0) == &cv.front(), "ends", [&] { return where() + "front/back/at are other elements"; });
				require(cv.cbegin() == v.data() && cv.cend() == v.data() + m.size() && v.end() == v.data() + m.size() && cv.begin() == v.data() && cv.end() == cv.cend() && cv.data() == v.data() && &*v.begin() == v.data(), "iterators", [&] { return where() + "iterators"; });
				{ size_t b = m.size(); for (auto it = cv.crbegin(); it != cv.crend(); ++it) require(b > 0 && val(*it) == m[--b], "reverse", [&] { return where() + "const reverse iteration"; }); require(b == 0, "reverse", [&] { return where() + "const reverse iteration too short"; }); b = m.size(); for (auto it = cv.rbegin(); it != cv.rend(); ++it) require(b > 0 && val(*it) == m[--b], "reverse", [&] { return where() + "const reverse iteration"; }); require(b == 0, "reverse", [&] { return where() + "const reverse iteration too short"; }); }
				{ bool t = false; try { (void)cv.at(m.size() + (m.size() & 3)); } catch (const std::out_of_range&) { t = true; } require(t, "at", [&] { return where() + "const at beyond the end did not throw"; }); }
				size_t e = m.size(); for (auto it = v.rbegin(); it != v.rend(); ++it) { require(e > 0 && val(*it) == m[--e], "reverse", [&] { return where() + "reverse iteration"; }); }
				require(e == 0, "reverse", [&] { return where() + "reverse iteration too short"; });
				bool threw = false; try { (void)v.at(m.size()); } catch (const std::out_of_range&) { threw = true; } require(threw, "at", [&] { return where() + "at(size()) did not throw"; });
			}
			require(lifeError.empty(), "lifecycle", [&] { return std::string(name) + " " + op + ": " + lifeError; });
			require(allocError.empty(), "allocator", [&] { return std::string(name) + " " + op + ": " + allocError; });
			if constexpr (!std::is_arithmetic_v<T>) require(alive.size() == expectAlive, "alive", [&] { return std::string(name) + " " + op + ": " + std::to_string(alive.size()) + " living elements, expected " + std::to_string(expectAlive); });
		}
		g.nontrivial(steps >= 3); if (grew) g.label("grew beyond inline storage"); if (moved) g.label("copied or moved"); if (pmr) g.label("pmr");
	}
	require(lifeError.empty(), "lifecycle", [&] { return std::string(name) + " on destruction: " + lifeError; });
	require(allocError.empty(), "allocator", [&] { return std::string(name) + " on destruction: " + allocError; });
	require(alive.empty(), "leaked-elements", [&] { return std::string(name) + ": " + std::to_string(alive.size()) + " elements were never destroyed"; });
	require(r0.live.empty() && r1.live.empty() && rdef.live.empty() && CountingAlloc<T>::res().live.empty(), "leaked-memory", [&] { return std::string(name) + ": memory was never returned to its allocator"; });
}
template <class T> using PA = std::pmr::polymorphic_allocator<T>;
PROPERTY(small_vector_trivial, 40000, 400000) {
	switch (g.draw(5)) {
		case 0: smallVector<int, 4, CountingAlloc<int>>(g, "SmallVector<int,4>"); break;
		case 1: smallVector<int, 4, PA<int>>(g, "pmr SmallVector<int,4>"); break;
		case 2: smallVector<uint64_t, 1, PA<uint64_t>>(g, "pmr SmallVector<uint64,1>"); break;
		case 3: smallVector<uint8_t, 3, CountingAlloc<uint8_t>>(g, "SmallVector<uint8,3>"); break;
		case 4: smallVector<uint8_t, 3, PA<uint8_t>>(g, "pmr SmallVector<uint8,3>"); break;
		default: smallVector<int, 8, std::allocator<int>>(g, "SmallVector<int,8,std>"); break;
	}
}
PROPERTY(small_vector_objects, 60000, 600000) {
	switch (g.draw(6)) {
		case 0: smallVector<TrackedA, 4, CountingAlloc<TrackedA>>(g, "SmallVector<Tracked,4>"); break;
		case 1: smallVector<TrackedA, 2, PA<TrackedA>>(g, "pmr SmallVector<Tracked,2>"); break;
		case 2: smallVector<TrackedB, 4, PA<TrackedB>>(g, "pmr SmallVector<TrackedThrowingMove,4>"); break;
		case 3: smallVector<TrackedB, 1, CountingAlloc<TrackedB>>(g, "SmallVector<TrackedThrowingMove,1>"); break;
		default: smallVector<TrackedA, 8, std::allocator<TrackedA>>(g, "SmallVector<Tracked,8,std>"); break;
	}
}
PROPERTY(small_vector_copy_only, 10000, 100000) { // only the operations such elements allow
	alive.clear(); lifeError.clear();
	{
		fg::SmallVector<CopyOnly, 4> v; std::vector<int> m; int next = 1; size_t steps = 1 + g.draw(14);
		for (size_t k = 0; k < steps; ++k) {
			switch (g.draw(6)) {
				case 0: case 1: v.emplace_back(next); m.push_back(next++); break;
				case 2: { size_t z = g.draw(10); v.resize(z); m.resize(z, 0); break; }
				case 3: v.reserve(g.draw(12)); break;
				case 4: v.shrink_to_fit(); break;
				case 5: v.clear(); m.clear(); break;
				case 6: { fg::SmallVector<CopyOnly, 4> w(v); fg::SmallVector<CopyOnly, 4> x; x.emplace_back(7); x = w; v = x; break; }
			}
			require(v.size() == m.size() && alive.size() == m.size(), "size", "size or number of living elements");
			for (size_t e = 0; e < m.size(); ++e) require(v[e].get() == m[e], "element", "element");
			require(lifeError.empty(), "lifecycle", [&] { return lifeError; });
		}
		g.nontrivial(steps > 2); g.note("copy-only elements, " + std::to_string(steps) + " steps, final size " + std::to_string(m.size()));
	}
	require(alive.empty() && lifeError.empty(), "leaked-elements", [&] { return "copy-only: " + lifeError; });
}
PROPERTY(small_vector_nested, 10000, 100000) { // vectors of vectors of strings
	using In = fg::SmallVector<std::string, 2>; fg::SmallVector<In, 2> v; std::vector<std::vector<std::string>> m;
	size_t steps = 1 + g.draw(14);
	for (size_t k = 0; k < steps; ++k) {
		size_t i = m.empty() ? 0 : g.draw(m.size() - 1);
		std::string t(g.draw(1) ? 40 : 3, static_cast<char>('a' + k));
		switch (g.draw(6)) {
			case 0: v.emplace_back(); m.emplace_back(); break;
			case 1: case 2: if (!m.empty()) { v[i].emplace_back(t); m[i].push_back(t); } break;
			case 3: { size_t z = g.draw(6); v.resize(z); m.resize(z); break; }
			case 4: if (!m.empty()) { In c = v[i]; v.emplace_back(std::move(c)); auto d = m[i]; m.push_back(d); } break;
			case 5: { auto w = v; v = std::move(w); break; }
			case 6: if (m.size() > 1) { std::swap(v[0], v[i]); std::swap(m[0], m[i]); } break;
		}
		require(v.size() == m.size(), "size", "outer size");
		for (size_t a = 0; a < m.size(); ++a) { require(v[a].size() == m[a].size(), "size", "inner size"); for (size_t b = 0; b < m[a].size(); ++b) require(v[a][b] == m[a][b], "element", "inner element"); }
	}
	g.nontrivial(steps > 2);
}

// ---- exceptions: constructors and allocations that fail ------------------------------------
struct Burnt {}; static int fuse = -1; // counts down to the construction or allocation that fails
static void burn() { if (fuse >= 0 && fuse-- == 0) throw Burnt(); }
template <bool NoexceptMove> struct Fused {
	int v; int* own;
	Fused() : v(0), own(nullptr) { burn(); own = new int(0); born(this); }
	Fused(int x) : v(x), own(nullptr) { burn(); own = new int(x); born(this); }
	Fused(const Fused& o) : v(o.v), own(nullptr) { used(&o); burn(); own = new int(*o.own); born(this); }
	Fused(Fused&& o) noexcept(NoexceptMove) : v(o.v), own(nullptr) { used(&o); if (!NoexceptMove) burn(); own = new int(*o.own); o.v = -1; *o.own = -1; born(this); }
	Fused& operator=(const Fused& o) { used(this); used(&o); if (this != &o) { burn(); v = o.v; *own = *o.own; } return *this; }
	Fused& operator=(Fused&& o) noexcept(NoexceptMove) { used(this); used(&o); if (this != &o) { v = o.v; *own = *o.own; o.v = -1; *o.own = -1; } return *this; }
	~Fused() { died(this); delete own; own = reinterpret_cast<int*>(0x10); }
	int get() const { used(this); return v == *own ? v : -1000; }
};
template <class T> struct FusedAlloc { // memory accounting, and allocations that may fail
	using value_type = T;
	FusedAlloc() = default; template <class U> FusedAlloc(const FusedAlloc<U>&) {}
	T* allocate(size_t n) { burn(); return CountingAlloc<T>().allocate(n); }
	void deallocate(T* p, size_t n) { CountingAlloc<T>().deallocate(p, n); }
	bool operator==(const FusedAlloc&) const { return true; } bool operator!=(const FusedAlloc&) const { return false; }
};
template <class T, size_t N> static void failing(Gen& g, const char* name) {
	using V = fg::SmallVector<T, N, FusedAlloc<T>>;
	alive.clear(); lifeError.clear(); allocError.clear(); CountingAlloc<T>::res().live.clear(); fuse = -1;
	struct Off { ~Off() { fuse = -1; } } off; unsigned failed = 0;
	{
		std::unique_ptr<V> v[2]{std::make_unique<V>(), std::make_unique<V>()}; std::vector<int> m[2]; int next = 1; size_t steps = 1 + g.draw(14); g.note(name);
		for (size_t k = 0; k < steps; ++k) {
			size_t i = g.draw(1), j = 1 - i; auto& a = *v[i]; auto& b = *v[j]; auto before = m[i]; bool strong = false; std::string op = "v" + std::to_string(i);
			int f = g.chance(2, 3) ? int(g.draw(10)) : -1; size_t z = g.draw(2 * N + 3); int x = next++; auto set = [&] { op += f >= 0 ? ", failing at " + std::to_string(f) : ""; g.note(op); fuse = f; };
			bool threw = false;
			try {
				switch (g.draw(12)) {
					case 9: op += " = new V(" + std::to_string(z) + ")"; set(); v[i] = std::make_unique<V>(z); m[i].assign(z, 0); break;
					case 10: { T t(x); op += " = new V(" + std::to_string(z) + ", " + std::to_string(x) + ")"; set(); v[i] = std::make_unique<V>(z, t); m[i].assign(z, x); break; }
					case 11: { std::initializer_list<T> l{T(x), T(x + 1), T(x + 2)}; op += " = new V{3}"; set(); v[i] = std::make_unique<V>(l); m[i] = {x, x + 1, x + 2}; break; }
					case 12: if constexpr (!std::is_nothrow_copy_constructible_v<V>) { op += " = new V(v" + std::to_string(j) + ")"; set(); v[i] = std::make_unique<V>(b); m[i] = m[j]; } break;
					case 0: case 1: strong = true; op += ".emplace_back(" + std::to_string(x) + ")"; set(); a.emplace_back(x); m[i].push_back(x); break;
					case 2: if (!a.empty()) { size_t e = g.draw(a.size() - 1); strong = true; op += ".emplace_back(v[" + std::to_string(e) + "])"; set(); a.emplace_back(std::as_const(a)[e]); m[i].push_back(int(m[i][e])); } break;
					case 3: strong = true; op += ".resize(" + std::to_string(z) + ")"; set(); a.resize(z); m[i].resize(z, 0); break;
					case 4: { T t(x); strong = true; op += ".resize(" + std::to_string(z) + ", " + std::to_string(x) + ")"; set(); a.resize(z, t); m[i].resize(z, x); break; }
					case 5: strong = true; op += ".reserve(" + std::to_string(z) + ")"; set(); a.reserve(z); break;
					case 6: strong = true; op += ".shrink_to_fit()"; set(); a.shrink_to_fit(); break;
					case 7: { T t(x); op += ".assign(" + std::to_string(z) + ", " + std::to_string(x) + ")"; set(); a.assign(z, t); m[i].assign(z, x); break; }
					case 8: op += " = v" + std::to_string(j); set(); a = b; m[i] = m[j]; break;
				}
			} catch (const Burnt&) { threw = true; }
			fuse = -1;
			if (threw) { ++failed; auto& c = *v[i]; m[i].clear(); for (size_t e = 0; e < c.size(); ++e) m[i].push_back(c[e].get()); if (strong) require(m[i] == before, "strong", [&] { return std::string(name) + " " + op + " failed and left other elements"; }); }
			size_t total = 0;
			for (size_t q = 0; q < 2; ++q) {
				total += m[q].size(); require(v[q]->size() == m[q].size() && v[q]->capacity() >= m[q].size(), "size", [&] { return std::string(name) + " size after " + op; });
				for (size_t e = 0; e < m[q].size(); ++e) require((*v[q])[e].get() == m[q][e], "element", [&] { return std::string(name) + " v" + std::to_string(q) + " element " + std::to_string(e) + " after " + op; });
			}
			require(lifeError.empty(), "lifecycle", [&] { return std::string(name) + " " + op + ": " + lifeError; });
			require(allocError.empty(), "allocator", [&] { return std::string(name) + " " + op + ": " + allocError; });
			require(alive.size() == total, "alive", [&] { return std::string(name) + " " + op + ": " + std::to_string(alive.size()) + " living elements, expected " + std::to_string(total); });
		}
		g.nontrivial(failed > 0); if (failed) g.label("failed operation");
	}
	require(lifeError.empty() && allocError.empty(), "lifecycle", [&] { return std::string(name) + " on destruction: " + lifeError + allocError; });
	require(alive.empty(), "leaked-elements", [&] { return std::string(name) + ": " + std::to_string(alive.size()) + " elements were never destroyed"; });
	require(CountingAlloc<T>::res().live.empty(), "leaked-memory", [&] { return std::string(name) + ": memory was never returned"; });
}
PROPERTY(small_vector_failures, 20000, 200000) {
	switch (g.draw(2)) { case 0: failing<Fused<true>, 2>(g, "SmallVector<Fused,2>"); break; case 1: failing<Fused<false>, 2>(g, "SmallVector<FusedThrowingMove,2>"); break; default: failing<Fused<true>, 4>(g, "SmallVector<Fused,4>"); }
}

// ---- StaticVector ------------------------------------------------------------------------
template <class T> static void staticVector(Gen& g, const char* name) {
	alive.clear(); lifeError.clear();
	{
		using V = fg::StaticVector<T>; struct Slot { std::unique_ptr<V> v; std::vector<int> m; }; Slot s[2];
		for (auto& x : s) x.v = std::make_unique<V>(0);
		size_t steps = 1 + g.draw(8); int next = 1; g.note(name);
		for (size_t k = 0; k < steps; ++k) {
			size_t i = g.draw(1); Slot &a = s[i], &b = s[1 - i]; size_t n = g.size(20);
			switch (g.draw(5)) {
				case 0: { a.v = std::make_unique<V>(n); a.m.assign(n, 0); for (size_t e = 0; e < n; ++e) { (*a.v)[e] = T(next & 0x7f); a.m[e] = next & 0x7f; ++next; } g.note("fill " + std::to_string(n)); break; }
				case 1: { int x = next++ & 0x7f; a.v = std::make_unique<V>(n, T(x)); a.m.assign(n, x); g.note("value " + std::to_string(n)); break; }
				case 2: { std::vector<T> src; a.m.clear(); for (size_t e = 0; e < n; ++e) { int x = (next += 3) & 0x7f; src.emplace_back(x); a.m.push_back(x); } a.v = std::make_unique<V>(V::fromVector(src)); if constexpr (std::is_arithmetic_v<T>) if (n) require(*a.v == src, "fromVector", "fromVector differs from its source"); g.note("fromVector " + std::to_string(n)); break; }
				case 3: a.v = std::make_unique<V>(*b.v); a.m = b.m; g.note("copy"); break;
				case 4: a.v = std::make_unique<V>(std::move(*b.v)); a.m = b.m; b.m.clear(); g.note("move ctor"); break;
				case 5: *a.v = std::move(*b.v); a.m = b.m; b.m.clear(); g.note("move assign"); break;
			}
			for (auto& x : s) {
				const V& cv = *x.v; require(cv.size() == x.m.size() && cv.empty() == x.m.empty() && cv.size_bytes() == x.m.size() * sizeof(T), "size", [&] { return std::string(name) + ": size " + std::to_string(cv.size()) + " expected " + std::to_string(x.m.size()); });
				size_t e = 0; for (auto& y : cv) { require(val(y) == x.m[e] && val(cv[e]) == x.m[e], "element", [&] { return std::string(name) + ": element " + std::to_string(e) + " is " + std::to_string(val(y)) + " expected " + std::to_string(x.m[e]); }); ++e; }
				require(e == x.m.size(), "iterators", "iteration length");
			}
			if constexpr (std::is_arithmetic_v<T>) if (!s[0].m.empty() && !s[1].m.empty()) require((*s[0].v == *s[1].v) == (s[0].m == s[1].m), "equality", "operator== disagrees with the elements");
			require(lifeError.empty(), "lifecycle", [&] { return std::string(name) + ": " + lifeError; });
		}
		g.nontrivial(steps > 1);
	}
	require(lifeError.empty() && alive.empty(), "lifecycle", [&] { return std::string(name) + " on destruction: " + lifeError; });
}
PROPERTY(static_vector, 20000, 200000) {
	switch (g.draw(3)) { case 0: staticVector<int>(g, "StaticVector<int>"); break; case 1: staticVector<uint8_t>(g, "StaticVector<uint8>"); break; case 2: staticVector<uint64_t>(g, "StaticVector<uint64>"); break; default: staticVector<TrackedA>(g, "StaticVector<Tracked>"); }
}

PROPERTY(static_vector_equality, 5000, 50000) { // element by element, as by the operators of the elements
	auto check = [&](auto gen) {
		using T = decltype(gen()); size_t n = g.draw(4); std::vector<T> a, b; for (size_t i = 0; i < n; ++i) a.push_back(gen()); b = a; if (g.flip() && n) b[g.draw(n - 1)] = gen(); if (g.chance(1, 5)) b.push_back(gen());
		auto x = fg::StaticVector<T>::fromVector(a), y = fg::StaticVector<T>::fromVector(b);
		require((x == y) == (a == b) && (x == b) == (a == b), "equality", "operator== of static vectors disagrees with their elements'"); g.nontrivial(n > 0);
	};
	switch (g.draw(2)) { case 0: check([&] { return g.pick<float>({0.f, -0.f, 1.f, std::numeric_limits<float>::quiet_NaN()}); }); break; case 1: check([&] { return std::string(g.draw(30), char('a' + g.draw(1))); }); break; default: check([&] { return double(g.draw(2)) * -1.; }); }
}

// ---- Optional ----------------------------------------------------------------------------
template <class T> static bool bitEq(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }
template <class T> static T genValue(Gen& g) {
	if constexpr (std::is_same_v<T, float>) { static const uint32_t sp[] = {0, 0x80000000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0x3f800000u, 0x4effdb6du, 0x4effdb6eu, 1, 0x7f7fffffu, 0x7fedb6dau}; uint32_t b = g.chance(1, 2) ? sp[g.draw(10)] : static_cast<uint32_t>(g.draw(0xffffffffu)); if (b == 0x7fedb6db) b ^= 1; float f; memcpy(&f, &b, 4); return f; }
	else if constexpr (std::is_same_v<T, double>) { static const uint64_t sp[] = {0, 1ull << 63, 0x7ff0000000000000ull, 0x7ff8000000000000ull, 0x3ff0000000000000ull, 0x43dfff6db6db6db7ull, 0x43dfff6db6db6db6ull, 1}; uint64_t b = g.chance(1, 2) ? sp[g.draw(7)] : g.draw(~0ull); if (b == 0x7ffdb6db6db6db6dull) b ^= 1; double f; memcpy(&f, &b, 8); return f; }
	else if constexpr (std::is_same_v<T, std::size_t>) { switch (g.draw(3)) { case 0: return g.draw(5); case 1: return std::numeric_limits<size_t>::max() - 1 - g.draw(3); case 2: return size_t(1) << g.draw(63); default: { auto v = g.draw(~0ull); return v == ~0ull ? 0 : v; } } }
	else { switch (g.draw(2)) { case 0: return static_cast<T>(g.draw(3)); default: return static_cast<T>(g.draw(65534)); } }
}
template <class T> static void optional(Gen& g, const char* name) {
	using O = fg::Optional<T>; static_assert(std::is_same_v<O, fg::OptionalWithFlagValue<T>>);
	O o[2]; std::optional<T> m[2]; size_t steps = 1 + g.draw(14);
	g.note(name);
	for (size_t k = 0; k < steps; ++k) {
		size_t i = g.draw(1), j = 1 - i; std::string op;
		switch (g.draw(13)) {
			case 0: { T v = genValue<T>(g); o[i] = v; m[i] = v; op = "= value " + hex(&v, sizeof v); break; }
			case 1: o[i] = std::nullopt; m[i] = std::nullopt; op = "= nullopt"; break;
			case 2: o[i].reset(); m[i].reset(); op = "reset"; break;
			case 3: o[i] = o[j]; m[i] = m[j]; op = "copy assign"; break;
			case 4: { O c(o[j]); o[i] = std::move(c); m[i] = m[j]; op = "copy, move assign"; break; }
			case 5: o[i].swap(o[j]); std::swap(m[i], m[j]); op = "swap"; break;
			case 6: { T v = genValue<T>(g); require(bitEq(o[i].emplace(v), v), "emplace", "emplace returned something else"); m[i] = v; op = "emplace"; break; }
			case 7: { std::optional<T> c = o[i]; require(c.has_value() == m[i].has_value() && (!c || bitEq(*c, *m[i])), "convert", "conversion to std::optional"); break; }
			case 8: { O t(o[i]); std::optional<T> c = std::move(t); require(c.has_value() == m[i].has_value() && (!c || bitEq(*c, *m[i])), "convert", "conversion of a temporary to std::optional"); break; }
			case 9: { T d = genValue<T>(g); T e = m[i] ? *m[i] : d; require(bitEq(o[i].value_or(d), e), "value_or", "value_or"); O t(o[i]); require(bitEq(std::move(t).value_or(d), e), "value_or", "value_or &&"); break; }
			case 10: { // the functional members, through every kind of reference, call the function once with the value
				size_t how = g.draw(3), calls = 0; T seen{}; auto f = [&](const T& x) { ++calls; memcpy(&seen, &x, sizeof x); return std::string("x") + hex(&x, sizeof x); }; auto h = [&](const T& x) { ++calls; memcpy(&seen, &x, sizeof x); return O(x); };
				auto called = [&](const char* tag) { require(calls == (m[i] ? 1u : 0u) && (!m[i] || bitEq(seen, *m[i])), tag, [&] { return std::string(name) + ": function called " + std::to_string(calls) + " times, or with another value"; }); calls = 0; };
				O c(o[i]); const O cc(o[i]);
				auto t = how == 0 ? c.transform(f) : how == 1 ? cc.transform(f) : how == 2 ? std::move(c).transform(f) : std::move(cc).transform(f); called("transform"); require(t.has_value() == m[i].has_value() && (!m[i] || *t == "x" + hex(&*m[i], sizeof(T))), "transform", "transform");
				O c2(o[i]); auto u = how == 0 ? c2.and_then(h) : how == 1 ? cc.and_then(h) : how == 2 ? std::move(c2).and_then(h) : std::move(cc).and_then(h); called("and_then"); require(u.has_value() == m[i].has_value() && (!m[i] || bitEq(*u, *m[i])), "and_then", "and_then");
				std::optional<T> v = g.chance(1, 4) ? std::optional<T>() : std::optional<T>(genValue<T>(g)); size_t other = 0; auto e = [&] { ++other; return v ? O(*v) : O(std::nullopt); };
				O c3(o[i]); auto r = how & 1 ? std::as_const(c3).or_else(e) : std::move(c3).or_else(e); auto& want = m[i] ? m[i] : v; require(other == (m[i] ? 0u : 1u) && r.has_value() == want.has_value() && (!want || bitEq(*r, *want)), "or_else", [&] { return std::string(name) + " or_else"; });
				if (m[i]) { O c4(o[i]); require(bitEq(std::move(c4).value(), *m[i]) && bitEq(std::move(cc).value(), *m[i]) && bitEq(*std::move(c4), *m[i]) && bitEq(*std::move(cc), *m[i]) && bitEq(*cc.operator->(), *m[i]), "value", "value of a temporary"); }
				break;
			}
			case 12: case 13: { // from an optional of another type
				if constexpr (std::is_floating_point_v<T> || std::is_same_v<T, std::size_t>) {
					using S = std::conditional_t<std::is_same_v<T, float>, double, float>; fg::Optional<S> s; if (!g.chance(1, 4)) s = static_cast<S>(static_cast<int>(g.draw(2000)) - (std::is_same_v<T, std::size_t> ? 0 : 1000)) / (std::is_same_v<T, std::size_t> ? 1 : 8);
					std::optional<T> want; if (s.has_value()) want = static_cast<T>(*s);
					switch (g.draw(3)) { case 0: o[i] = s; break; case 1: { auto c = s; o[i] = std::move(c); break; } case 2: { O c(s); o[i] = c; break; } default: { auto k = s; O c(std::move(k)); o[i] = std::move(c); } }
					m[i] = want; op = "= optional of another type"; if constexpr (std::is_floating_point_v<T>) require((o[i] == s) && !(o[i] != s), "compare", "comparison with an optional of another type"); g.label("converted");
				}
				break;
			}
			case 11: { T v = genValue<T>(g); O t(std::in_place, v); require(t.has_value() && bitEq(*t, v), "in_place", "in-place construction"); O n(std::nullopt); require(!n.has_value(), "nullopt", "nullopt construction"); O w(v); require(w.has_value() && bitEq(w.value(), v), "value-ctor", "construction from a value"); break; }
		}
		g.note("o" + std::to_string(i) + " " + op);
		for (size_t q = 0; q < 2; ++q) {
			require(o[q].has_value() == m[q].has_value() && static_cast<bool>(o[q]) == m[q].has_value(), "has_value", [&] { return std::string(name) + " has_value is " + std::to_string(o[q].has_value()) + " after " + op; });
			if (m[q]) require(bitEq(*o[q], *m[q]) && bitEq(o[q].value(), *m[q]) && bitEq(*o[q].operator->(), *m[q]), "value", [&] { return std::string(name) + " holds another value after " + op; });
			else { bool threw = false; try { (void)o[q].value(); } catch (const std::bad_optional_access&) { threw = true; } require(threw, "bad-access", "value() of an empty optional did not throw"); }
		}
		require((o[0] == o[1]) == (m[0] == m[1]) && (o[0] != o[1]) == (m[0] != m[1]), "compare", [&] { return std::string(name) + " comparison of optionals"; });
		T v = genValue<T>(g);
		require((o[i] == v) == (m[i] && *m[i] == v) && (o[i] != v) == !(m[i] && *m[i] == v), "compare-value", [&] { return std::string(name) + " comparison with a value"; });
		if constexpr (std::is_arithmetic_v<T>) require((o[i] < v) == (m[i] && *m[i] < v) && (o[i] <= v) == (m[i] && *m[i] <= v) && (o[i] > v) == (m[i] && *m[i] > v) && (o[i] >= v) == (m[i] && *m[i] >= v), "order", "ordering with a value");
	}
	g.nontrivial(steps > 2); g.label(name);
}
PROPERTY(optional_model, 40000, 400000) {
	switch (g.draw(4)) { case 0: optional<float>(g, "Optional<float>"); break; case 1: optional<double>(g, "Optional<double>"); break; case 2: optional<std::size_t>(g, "Optional<size_t>"); break; case 3: optional<fg::Filter>(g, "Optional<Filter>"); break; default: optional<fg::BufferTarget>(g, "Optional<BufferTarget>"); }
}

// ---- AccessorBoundsArray, span -----------------------------------------------------------
PROPERTY(bounds_array, 10000, 100000) {
	using B = fg::AccessorBoundsArray; struct M { bool d; std::vector<double> f; std::vector<int64_t> i; };
	std::vector<B> v; std::vector<M> m; size_t steps = 1 + g.draw(10);
	for (size_t k = 0; k < steps; ++k) {
		size_t n = g.draw(16); size_t i = m.empty() ? 0 : g.draw(m.size() - 1);
		switch (g.draw(4)) {
			case 0: v.push_back(B::ForType<double>(n)); m.push_back({true, std::vector<double>(n, 0.0), {}}); break;
			case 1: v.emplace_back(n, B::BoundsType::int64); m.push_back({false, {}, std::vector<int64_t>(n, 0)}); break;
			case 2: if (!m.empty()) { if (m[i].d) { for (size_t e = 0; e < m[i].f.size(); ++e) { double x = double(g.draw(1000)) - 500; v[i].set<double>(e, x); m[i].f[e] = x; } } else for (size_t e = 0; e < m[i].i.size(); ++e) { int64_t x = static_cast<int64_t>(g.draw(~0ull)); v[i].set<int64_t>(e, x); m[i].i[e] = x; } } break;
			case 3: if (m.size() > 1 && i != 0) { v[0] = std::move(v[i]); m[0] = m[i]; v.erase(v.begin() + i); m.erase(m.begin() + i); } break;
			case 4: if (!m.empty()) { B t(std::move(v[i])); v[i] = std::move(t); } break;
		}
		for (size_t q = 0; q < m.size(); ++q) {
			require(v[q].isType<double>() == m[q].d && v[q].isType<int64_t>() != m[q].d && v[q].size() == (m[q].d ? m[q].f.size() : m[q].i.size()), "type", "type or size");
			for (size_t e = 0; e < v[q].size(); ++e) require(m[q].d ? v[q].get<double>(e) == m[q].f[e] && v[q].data<double>()[e] == m[q].f[e] : v[q].get<int64_t>(e) == m[q].i[e], "value", "value");
		}
	}
	g.nontrivial(steps > 2);
}
PROPERTY(span_model, 10000, 100000) {
	std::vector<int> base(g.size(30)); for (size_t i = 0; i < base.size(); ++i) base[i] = int(i) * 7;
	size_t lo = 0, n = base.size(); fg::span<int> s(base.data(), base.size());
	for (size_t k = g.draw(4); k > 0; --k) {
		size_t c = g.draw(n);
		switch (g.draw(3)) {
			case 0: s = s.first(c); n = c; break;
			case 1: if (n) { s = s.last(c ? c : 1); lo += n - (c ? c : 1); n = c ? c : 1; } break;
			case 2: if (n) { size_t o = g.draw(n - 1); s = s.subspan(o); lo += o; n -= o; } break;
			default: if (n) { size_t o = g.draw(n - 1), z = g.draw(n - o); s = s.subspan(o, z); lo += o; n = z; } break;
		}
		require(s.size() == n && s.empty() == (n == 0) && s.size_bytes() == n * sizeof(int), "size", "span size");
		if (n) require(s.front() == base[lo] && s.back() == base[lo + n - 1] && s.data() == base.data() + lo, "ends", "span ends");
		size_t e = 0; for (int x : s) { require(x == base[lo + e] && s[e] == x && s.at(e) == x, "element", "span element"); ++e; } require(e == n, "iterate", "span iteration");
		for (auto it = s.rbegin(); it != s.rend(); ++it) { require(e > 0 && *it == base[lo + --e], "reverse", "reverse span iteration"); } require(e == 0, "reverse", "reverse span iteration too short");
	}
	{
		std::array<int, 5> arr{1, 2, 3, 4, 5}; const auto& carr = arr; fg::span<int> m(arr); fg::span<const int> c(carr), d; size_t at = g.draw(4); int v = int(g.draw(1000)); m[at] = v; auto copy = m; copy = copy.subspan(at, 1);
		require(arr[at] == v && c[at] == v && m.size() == 5 && c.size() == 5 && c.data() == arr.data() && d.empty() && d.size() == 0 && d.data() == nullptr && copy.size() == 1 && &copy.front() == &arr[at] && &copy.at(0) == &copy.back(), "array", "span of an array");
	}
	g.nontrivial(base.size() > 2);
}

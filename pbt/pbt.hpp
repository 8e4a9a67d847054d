// A small property-based testing engine: choice-sequence generators, forked parallel workers,
// crash/hang detection, Hypothesis-style shrinking, replay files, and libFuzzer-driven mode.
#pragma once
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_set>
#include <vector>

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

struct Failure : std::exception {
	std::string tag, msg;
	Failure(std::string t, std::string m) : tag(std::move(t)), msg(std::move(m)) {}
	const char* what() const noexcept override { return msg.c_str(); }
};
// Thrown to abandon a case that carries no information (counted as discarded, never a pass/fail).
struct Discard {};

inline uint64_t mix(uint64_t z) {
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
	auto* b = static_cast<const unsigned char*>(p);
	for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
	return h;
}
inline uint64_t hashStr(std::string_view s, uint64_t h = 1469598103934665603ull) { return hashBytes(s.data(), s.size(), h); }

constexpr size_t maxChoices = 1u << 18;

struct Case {
	std::set<std::string> labels;
	std::string notes;
	bool nontrivial = false;
	bool hasKey = false;
	uint64_t key = 0;
};

class Gen {
public:
	enum class Mode { Random, Replay, Bytes };
	Mode mode = Mode::Random;
	uint64_t s0 = 1, s1 = 2;                 // xoroshiro state
	const uint64_t* replay = nullptr; size_t replayN = 0;
	const uint8_t* bytes = nullptr; size_t bytesN = 0, bytePos = 0;
	uint64_t* rec = nullptr; std::atomic<uint64_t>* recN = nullptr; // recorded choices
	size_t n = 0;
	bool wantNotes = false;
	bool thorough = false;
	Case c;

	void seed(uint64_t s) { s0 = mix(s); s1 = mix(s0 ^ 0xabcdef1234567ull); if (!s0 && !s1) s1 = 1; }
	uint64_t rnd() {
		uint64_t a = s0, b = s1, r = a + b; b ^= a;
		s0 = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
		s1 = (b << 37) | (b >> 27);
		return r;
	}
	// A choice in [0, max]. 0 must always be the simplest.
	uint64_t draw(uint64_t max) {
		uint64_t v;
		if (n >= maxChoices - 1) throw Discard{};
		if (mode == Mode::Random) {
			if (max == ~0ull) v = rnd();
			else { uint64_t b = max + 1; v = static_cast<uint64_t>((static_cast<unsigned __int128>(rnd()) * b) >> 64); }
		} else if (mode == Mode::Replay) {
			v = n < replayN ? replay[n] : 0;
			if (v > max) v = max;
		} else {
			v = 0; uint64_t m = max; int k = 0;
			while (m) { uint64_t x = bytePos < bytesN ? bytes[bytePos++] : 0; v |= x << (8 * k++); m >>= 8; }
			if (max != ~0ull) v = v % (max + 1);
		}
		if (rec) { rec[n] = v; recN->store(n + 1, std::memory_order_relaxed); }
		++n;
		return v;
	}
	uint64_t caseIdx = 0;
	// enumerates [0, max] over the case numbers instead of sampling it
	uint64_t enumerate(uint64_t max) {
		if (mode != Mode::Random) return draw(max);
		uint64_t v = caseIdx % (max + 1);
		if (rec) { rec[n] = v; recN->store(n + 1, std::memory_order_relaxed); }
		++n; return v;
	}
	bool exhausted() const { return mode == Mode::Bytes ? bytePos >= bytesN : mode == Mode::Replay ? n >= replayN : false; }
	template <class T = int64_t> T range(T lo, T hi) { return static_cast<T>(static_cast<uint64_t>(lo) + draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo))); }
	// true with probability num/den; shrinks to false
	bool chance(uint64_t num, uint64_t den) { return draw(den - 1) >= den - num; }
	bool flip() { return draw(1) == 1; }
	template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
	template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size() - 1)); }
	size_t weighted(std::initializer_list<unsigned> w) {
		uint64_t t = 0; for (auto x : w) t += x;
		uint64_t d = draw(t - 1); size_t i = 0;
		for (auto x : w) { if (d < x) return i; d -= x; ++i; }
		return 0;
	}
	// size with a bias towards small numbers, at most hi
	size_t size(size_t hi) {
		if (!hi) { return 0; }
		switch (draw(3)) { case 0: return draw(hi < 2 ? hi : 2); case 1: return draw(hi < 6 ? hi : 6); default: return draw(hi); }
	}
	uint8_t byte() { return static_cast<uint8_t>(draw(255)); }

	void label(const std::string& l) { c.labels.insert(l); }
	void nontrivial(bool b = true) { if (b) c.nontrivial = true; }
	void key(uint64_t h) { c.hasKey = true; c.key = h; }
	void note(const std::string& s) { if (wantNotes && c.notes.size() < 20000) { c.notes += s; c.notes += '\n'; if (noteFd >= 0) { (void)!write(noteFd, s.data(), s.size()); (void)!write(noteFd, "\n", 1); } } }
	int noteFd = -1;
};

[[noreturn]] inline void fail(const std::string& tag, const std::string& msg) { throw Failure(tag, msg); }
inline void require(bool ok, const char* tag, const char* msg) { if (!ok) throw Failure(tag, msg); }
inline void require(bool ok, const char* tag, const std::string& msg) { if (!ok) throw Failure(tag, msg); }
template <class F, class = decltype(std::declval<F>()())> inline void require(bool ok, const char* tag, F&& msg) { if (!ok) throw Failure(tag, msg()); }

struct Prop {
	std::string name;
	std::function<void(Gen&)> fn;
	uint64_t quickN, thoroughN;   // number of cases per tier
};
inline std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
struct Reg { Reg(const char* n, uint64_t q, uint64_t t, std::function<void(Gen&)> f) { props().push_back({n, std::move(f), q, t}); } };
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PROPERTY(name, quick cases, thorough cases) { body using g }
#define PROPERTY(ident, q, t) \
	static void ident(pbt::Gen& g); \
	static pbt::Reg PBT_CAT(reg_, ident)(#ident, q, t, ident); \
	static void ident(pbt::Gen& g)

// ------------------------------------------------------------------------------------------
inline std::string jstr(std::string_view s) {
	std::string o = "\"";
	for (unsigned char ch : s) {
		char b[8];
		if (ch == '"' || ch == '\\') { o += '\\'; o += static_cast<char>(ch); }
		else if (ch == '\n') o += "\\n";
		else if (ch < 0x20 || ch >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
		else o += static_cast<char>(ch);
	}
	return o + "\"";
}
inline std::string hex(const void* p, size_t n, size_t lim = 96) {
	std::string o; auto* b = static_cast<const unsigned char*>(p);
	for (size_t i = 0; i < n && i < lim; ++i) { char t[4]; snprintf(t, 4, "%02x", b[i]); o += t; }
	if (n > lim) o += "...";
	return o;
}

struct Slot { // one per worker, in shared memory
	std::atomic<uint64_t> caseIdx;   // ~0 = idle
	std::atomic<uint64_t> recN;
	std::atomic<uint64_t> failed;    // 1 = Failure recorded in msg/tag
	char tag[128];
	char msg[8192];
	uint64_t rec[maxChoices];
};
struct Shared {
	std::atomic<uint64_t> next;
	std::atomic<uint64_t> stop;
	Slot slot[64];
};

inline void onProf(int) { static const char m[] = "PBT: CPU time limit for one case exceeded\n"; (void)!write(2, m, sizeof m - 1); _exit(97); }
inline void armCpu(int seconds) {
	struct itimerval it{}; it.it_value.tv_sec = seconds;
	setitimer(ITIMER_PROF, &it, nullptr);
}

struct Stats {
	uint64_t evals = 0, discarded = 0, nontrivial = 0;
	std::unordered_set<uint64_t> distinct;
	std::map<std::string, uint64_t> labels;
	std::map<std::string, uint64_t> perProp;
	std::vector<std::string> samples;
};

struct Options {
	std::string tier = "quick", out, replayIn, replayOut, only, bytesIn;
	uint64_t seed = 1, cases = 0; double scale = 1; int workers = 0; int cpuLimit = 60; double maxWall = 0;
	bool keepGoing = false, list = false, noShrink = false;
};

inline std::string readFile(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }

inline std::string crashSummary(int status, const std::string& errfile) {
	std::string e = readFile(errfile), s;
	if (WIFSIGNALED(status)) s = "killed by signal " + std::to_string(WTERMSIG(status));
	else s = "exited with status " + std::to_string(WEXITSTATUS(status));
	std::istringstream in(e); std::string line; int frames = 0, lines = 0;
	while (std::getline(in, line)) {
		bool k = line.find("ERROR:") != std::string::npos || line.find("ThreadSanitizer:") != std::string::npos || line.find("runtime error") != std::string::npos || line.find("PBT:") != std::string::npos ||
		         line.find("terminate called") != std::string::npos || line.find("what():") != std::string::npos || line.find("Assertion") != std::string::npos || line.find("ssertion failed") != std::string::npos;
		if (k && lines < 4) { s += "\n  " + line.substr(0, 400); ++lines; }
		if (frames < 6 && line.find("    #") == 0 && (line.find("fastgltf") != std::string::npos || line.find("/repo") != std::string::npos)) { s += "\n  " + line.substr(0, 300); ++frames; }
	}
	return s;
}
inline std::string crashTag(const std::string& summary) {
	for (const char* k : {"heap-buffer-overflow", "stack-buffer-overflow", "global-buffer-overflow", "heap-use-after-free", "stack-use-after", "double-free", "attempting free", "alloc-dealloc-mismatch", "out-of-memory", "allocation-size-too-big", "ThreadSanitizer: data race", "SEGV", "runtime error", "CPU time limit", "terminate", "stack-overflow", "memcpy-param-overlap", "negative-size-param", "container-overflow"})
		if (summary.find(k) != std::string::npos) return std::string("crash:") + k;
	return "crash";
}

// Runs one case in this process. Returns: 0 pass, 1 fail, 2 discard
inline int runOne(Gen& g, const Prop& p, std::string& tag, std::string& msg) {
	try {
		p.fn(g);
		return 0;
	} catch (const Failure& f) { tag = f.tag; msg = f.msg; return 1; }
	catch (const Discard&) { return 2; }
	catch (const std::exception& e) { tag = "exception"; msg = std::string("unexpected exception escaped: ") + e.what(); return 1; }
	catch (...) { tag = "exception"; msg = "unexpected non-standard exception escaped"; return 1; }
}

struct Found { size_t prop; uint64_t idx; std::string tag, msg; std::vector<uint64_t> choices; };

class Engine {
public:
	Options o; Shared* sh = nullptr; std::string tmp; int W = 8;
	std::vector<uint64_t> counts, starts; uint64_t total = 0;

	void locate(uint64_t idx, size_t& p, uint64_t& k) const {
		p = 0; while (p + 1 < starts.size() && idx >= starts[p + 1]) ++p;
		k = idx - starts[p];
	}
	std::string errPath(int w) const { return tmp + "/w" + std::to_string(w) + ".err"; }
	void childSetup(int w) {
		int fd = open(errPath(w).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
		dup2(fd, 2); close(fd);
		signal(SIGPROF, onProf);
	}
	[[noreturn]] void worker(int w) {
		childSetup(w);
		Stats st; Slot& sl = sh->slot[w];
		while (!sh->stop.load()) {
			uint64_t idx = sh->next.fetch_add(1);
			if (idx >= total) break;
			size_t p; uint64_t k; locate(idx, p, k);
			Gen g; g.mode = Gen::Mode::Random; g.thorough = o.tier == "thorough";
			g.seed(mix(o.seed) ^ mix(hashStr(props()[p].name)) ^ mix(k * 0x9e3779b97f4a7c15ull + 77));
			g.caseIdx = k; g.rec = sl.rec; g.recN = &sl.recN; sl.recN = 0; sl.failed = 0;
			g.wantNotes = k < 24;
			sl.caseIdx = idx;
			armCpu(o.cpuLimit);
			std::string tag, msg;
			int r = runOne(g, props()[p], tag, msg);
			armCpu(0);
			if (r == 1) {
				snprintf(sl.tag, sizeof sl.tag, "%s", tag.c_str()); snprintf(sl.msg, sizeof sl.msg, "%s", msg.c_str());
				sl.failed = 1; fflush(nullptr); dumpStats(st, w); _exit(96);
			}
			sl.caseIdx = ~0ull;
			++st.evals; ++st.perProp[props()[p].name];
			if (r == 2) { ++st.discarded; continue; }
			for (auto& l : g.c.labels) ++st.labels[l];
			if (g.c.nontrivial) {
				++st.nontrivial;
				uint64_t h = g.c.hasKey ? g.c.key : hashBytes(sl.rec, sizeof(uint64_t) * g.n);
				st.distinct.insert(mix(h ^ hashStr(props()[p].name)));
				if (g.wantNotes && !g.c.notes.empty() && st.samples.size() < 40) st.samples.push_back(props()[p].name + ": " + g.c.notes.substr(0, 1200));
			}
		}
		dumpStats(st, w);
		_exit(0);
	}
	int statGen[64] = {};
	void dumpStats(const Stats& st, int w) {
		std::ofstream f(tmp + "/s" + std::to_string(w) + "." + std::to_string(getpid()), std::ios::binary);
		f << st.evals << ' ' << st.discarded << ' ' << st.nontrivial << '\n';
		f << st.labels.size() << '\n'; for (auto& [l, c] : st.labels) f << c << ' ' << l << '\n';
		f << st.perProp.size() << '\n'; for (auto& [l, c] : st.perProp) f << c << ' ' << l << '\n';
		f << st.samples.size() << '\n'; for (auto& s : st.samples) { f << s.size() << '\n'; f.write(s.data(), static_cast<std::streamsize>(s.size())); f << '\n'; }
		f << st.distinct.size() << '\n'; for (auto h : st.distinct) f.write(reinterpret_cast<const char*>(&h), 8);
	}
	void loadStats(const std::string& path, Stats& st) {
		std::ifstream f(path, std::ios::binary); uint64_t a, b, c, n; std::string l;
		if (!(f >> a >> b >> c)) return;
		st.evals += a; st.discarded += b; st.nontrivial += c;
		f >> n; for (uint64_t i = 0; i < n; ++i) { f >> a; f.get(); std::getline(f, l); st.labels[l] += a; }
		f >> n; for (uint64_t i = 0; i < n; ++i) { f >> a; f.get(); std::getline(f, l); st.perProp[l] += a; }
		f >> n; for (uint64_t i = 0; i < n; ++i) { f >> a; f.get(); std::string s(a, 0); f.read(s.data(), static_cast<std::streamsize>(a)); f.get(); st.samples.push_back(s); }
		f >> n; f.get(); for (uint64_t i = 0; i < n; ++i) { uint64_t h; f.read(reinterpret_cast<char*>(&h), 8); st.distinct.insert(h); }
	}

	// Run a choice sequence in a forked child. Fills tag/msg and the effective choices. true = fails
	bool attempt(size_t p, const std::vector<uint64_t>& ch, std::string& tag, std::string& msg, std::vector<uint64_t>* eff = nullptr, std::string* notes = nullptr, const std::string* bytes = nullptr) {
		Slot& sl = sh->slot[63]; sl.failed = 0; sl.recN = 0;
		std::string nf = tmp + "/notes";
		if (notes) unlink(nf.c_str());
		pid_t pid = fork();
		if (pid == 0) {
			childSetup(63);
			Gen g; g.mode = Gen::Mode::Replay; g.thorough = o.tier == "thorough"; g.replay = ch.data(); g.replayN = ch.size();
			g.rec = sl.rec; g.recN = &sl.recN; g.wantNotes = notes != nullptr;
			if (bytes) { g.mode = Gen::Mode::Bytes; g.bytes = reinterpret_cast<const uint8_t*>(bytes->data()); g.bytesN = bytes->size(); }
			armCpu(o.cpuLimit);
			std::string t, m;
			int r;
			if (notes) g.noteFd = open(nf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
			r = runOne(g, props()[p], t, m);
			armCpu(0);
			if (r == 1) { snprintf(sl.tag, sizeof sl.tag, "%s", t.c_str()); snprintf(sl.msg, sizeof sl.msg, "%s", m.c_str()); sl.failed = 1; _exit(96); }
			_exit(0);
		}
		int status; while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
		if (eff) eff->assign(sl.rec, sl.rec + sl.recN.load());
		if (notes) *notes = readFile(nf);
		if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return false;
		if (sl.failed) { tag = sl.tag; msg = sl.msg; }
		else { msg = crashSummary(status, errPath(63)); tag = crashTag(msg); }
		return true;
	}
	static bool better(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
		if (a.size() != b.size()) return a.size() < b.size();
		return a < b;
	}
	void shrink(Found& f, double budget) {
		double end = now() + budget;
		auto tryIt = [&](std::vector<uint64_t> cand) {
			if (now() > end) return false;
			if (!better(cand, f.choices)) return false;
			std::string t, m; std::vector<uint64_t> eff;
			if (!attempt(f.prop, cand, t, m, &eff)) return false;
			if (t != f.tag) return false;
			// drop the trailing part that was not consumed
			if (eff.size() < cand.size()) cand = eff; else if (better(eff, cand)) cand = eff;
			if (!better(cand, f.choices)) return false;
			f.choices = std::move(cand); f.msg = m; return true;
		};
		bool progress = true;
		while (progress && now() < end) {
			progress = false;
			// truncate
			for (size_t keep = 0; keep < f.choices.size() && now() < end; keep = keep ? keep * 2 : 1) { auto c = f.choices; c.resize(keep); if (tryIt(c)) { progress = true; break; } }
			for (size_t len = f.choices.size() / 2; len >= 16 && now() < end; len /= 2) {
				for (size_t i = f.choices.size(); now() < end;) {
					i = std::min(i, f.choices.size());
					if (i < len) break;
					i -= len;
					auto c = f.choices; c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + len));
					if (tryIt(c)) progress = true;
				}
			}
			if (progress && f.choices.size() > 200) continue;
			for (size_t len : {16, 8, 6, 5, 4, 3, 2, 1}) {
				for (size_t i = f.choices.size(); i-- > 0 && now() < end;) {
					if (i + len > f.choices.size()) continue;
					auto c = f.choices; c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + len));
					if (tryIt(c)) { progress = true; continue; }
					if (i > 0 && f.choices[i - 1] > 0) { c[i - 1]--; if (tryIt(c)) progress = true; }
				}
			}
			for (size_t len : {16, 4, 1}) for (size_t i = 0; i + len <= f.choices.size() && now() < end; i += len) {
				auto c = f.choices; bool any = false; for (size_t k = i; k < i + len; ++k) { any |= c[k] != 0; c[k] = 0; }
				if (any && tryIt(c)) progress = true;
			}
			for (size_t i = 0; i < f.choices.size() && now() < end; ++i) {
				uint64_t lo = 0, hi = f.choices[i];
				while (lo < hi && now() < end) {
					uint64_t mid = lo + (hi - lo) / 2; auto c = f.choices; c[i] = mid;
					if (tryIt(c)) { progress = true; if (i >= f.choices.size()) break; hi = f.choices[i]; if (hi > mid) break; } else lo = mid + 1;
				}
			}
		}
	}

	void writeReplay(const std::string& path, const Found& f, const std::string& notes) {
		std::ofstream r(path);
		r << "{\"sub\": " << jstr(props()[f.prop].name) << ",\n \"tier\": " << jstr(o.tier) << ",\n \"seed\": " << o.seed << ",\n \"case\": " << f.idx << ",\n \"tag\": " << jstr(f.tag)
		  << ",\n \"message\": " << jstr(f.msg) << ",\n \"description\": " << jstr(notes) << ",\n \"choices\": [";
		for (size_t i = 0; i < f.choices.size(); ++i) r << (i ? "," : "") << f.choices[i];
		r << "]}\n";
	}

	int replay(const std::string& path) {
		std::string s = readFile(path);
		auto str = [&](const char* k) { auto p = s.find(std::string("\"") + k + "\": \""); if (p == std::string::npos) return std::string(); p += strlen(k) + 5; auto e = s.find('"', p); return s.substr(p, e - p); };
		std::string sub = str("sub"); auto p = s.find("\"choices\": ["); if (p == std::string::npos) { fprintf(stderr, "bad replay file\n"); return 2; }
		if (!str("tier").empty()) o.tier = str("tier");
		std::vector<uint64_t> ch; const char* q = s.c_str() + p + 12;
		while (*q && *q != ']') { char* e; ch.push_back(strtoull(q, &e, 10)); if (e == q) break; q = e; while (*q == ',' || *q == ' ') ++q; }
		for (size_t i = 0; i < props().size(); ++i) if (props()[i].name == sub) {
			std::string tag, msg, notes;
			bool f = attempt(i, ch, tag, msg, nullptr, &notes);
			printf("%s\n", notes.c_str());
			if (f) { printf("FAIL [%s] %s: %s\n%s\n", sub.c_str(), tag.c_str(), msg.c_str(), readFile(errPath(63)).substr(0, 6000).c_str()); return 1; }
			printf("PASS [%s]\n", sub.c_str()); return 0;
		}
		fprintf(stderr, "unknown sub-property %s\n", sub.c_str()); return 2;
	}

	int run(int argc, char** argv) {
		for (int i = 1; i < argc; ++i) {
			std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
			if (a == "--tier") o.tier = nx(); else if (a == "--seed") o.seed = strtoull(nx().c_str(), nullptr, 10);
			else if (a == "--out") o.out = nx(); else if (a == "--replay") o.replayIn = nx(); else if (a == "--replay-out") o.replayOut = nx();
			else if (a == "--bytes") o.bytesIn = nx(); else if (a == "--only") o.only = nx(); else if (a == "--cases") o.cases = strtoull(nx().c_str(), nullptr, 10);
			else if (a == "--scale") o.scale = atof(nx().c_str()); else if (a == "--workers") o.workers = atoi(nx().c_str());
			else if (a == "--keep-going") o.keepGoing = true; else if (a == "--list") o.list = true; else if (a == "--no-shrink") o.noShrink = true;
			else if (a == "--max-wall") o.maxWall = atof(nx().c_str()); else if (a == "--cpu-limit") o.cpuLimit = atoi(nx().c_str());
			else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
		}
		if (o.list) { for (auto& p : props()) printf("%s %llu %llu\n", p.name.c_str(), (unsigned long long)p.quickN, (unsigned long long)p.thoroughN); return 0; }
		char tb[] = "/tmp/pbt.XXXXXX"; if (!mkdtemp(tb)) return 2; tmp = tb;
		sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		if (sh == MAP_FAILED) return 2;
		int rc = !o.bytesIn.empty() ? fromBytes() : o.replayIn.empty() ? campaign() : replay(o.replayIn);
		for (int i = 0; i < 64; ++i) unlink(errPath(i).c_str());
		unlink((tmp + "/notes").c_str()); rmdir(tmp.c_str());
		return rc;
	}

	// turn a libFuzzer input into a confirmed, shrunk replay file
	int fromBytes() {
		std::string bytes = readFile(o.bytesIn);
		for (size_t i = 0; i < props().size(); ++i) if (props()[i].name == o.only) {
			o.tier = "thorough";
			Found f; f.prop = i; f.idx = 0; std::vector<uint64_t> eff;
			if (!attempt(i, {}, f.tag, f.msg, &eff, nullptr, &bytes)) { printf("PASS\n"); return 0; }
			f.choices = eff; int ok = 0; std::string t, m;
			for (int k = 0; k < 10 && ok < 3; ++k) ok += attempt(i, f.choices, t, m);
			if (ok < 3) { fprintf(stderr, "engine: fuzz input did not reproduce as a choice sequence: %s %s\n", f.tag.c_str(), f.msg.c_str()); return 3; }
			f.tag = t; if (!o.noShrink) shrink(f, 40);
			std::string notes; attempt(i, f.choices, t, m, nullptr, &notes); f.msg = m;
			if (!o.replayOut.empty()) writeReplay(o.replayOut, f, notes);
			printf("FAILED sub=%s tag=%s\n%s\n-- case --\n%s\n", o.only.c_str(), f.tag.c_str(), f.msg.c_str(), notes.substr(0, 4000).c_str());
			return 1;
		}
		return 2;
	}

	int campaign() {
		double t0 = now();
		W = o.workers ? o.workers : static_cast<int>(sysconf(_SC_NPROCESSORS_ONLN)); if (W > 60) W = 60; if (W < 1) W = 1;
		for (auto& p : props()) {
			uint64_t n = o.tier == "thorough" ? p.thoroughN : p.quickN;
			if (o.cases) n = o.cases;
			n = static_cast<uint64_t>(double(n) * o.scale);
			if (!o.only.empty() && p.name.find(o.only) == std::string::npos) n = 0;
			starts.push_back(total); counts.push_back(n); total += n;
		}
		Stats st; std::vector<Found> found; std::set<std::string> seenTags; uint64_t failures = 0;
		std::vector<pid_t> pids(static_cast<size_t>(W), 0);
		for (int w = 0; w < W; ++w) sh->slot[w].caseIdx = ~0ull;
		auto spawn = [&](int w) {
			sh->slot[w].caseIdx = ~0ull; sh->slot[w].failed = 0; fflush(nullptr);
			pid_t p = fork(); if (p == 0) worker(w);
			pids[static_cast<size_t>(w)] = p;
		};
		for (int w = 0; w < W; ++w) spawn(w);
		int live = W; bool engineError = false; bool capped = false;
		std::vector<std::string> statFiles;
		while (live > 0) {
			int status; pid_t p = waitpid(-1, &status, WNOHANG);
			if (p == 0) { usleep(5000); if (o.maxWall > 0 && now() - t0 > o.maxWall && !sh->stop.load()) { sh->stop = 1; capped = true; } continue; }
			if (p < 0) { if (errno == EINTR) continue; break; }
			int w = -1; for (int i = 0; i < W; ++i) if (pids[static_cast<size_t>(i)] == p) w = i;
			if (w < 0) continue;
			pids[static_cast<size_t>(w)] = 0; --live;
			statFiles.push_back(tmp + "/s" + std::to_string(w) + "." + std::to_string(p));
			if (WIFEXITED(status) && WEXITSTATUS(status) == 0) continue;
			Slot& sl = sh->slot[w];
			if (sl.caseIdx.load() == ~0ull) { fprintf(stderr, "engine: worker died outside a case: %s\n", crashSummary(status, errPath(w)).c_str()); engineError = true; continue; }
			Found f; f.idx = sl.caseIdx.load(); uint64_t k; locate(f.idx, f.prop, k);
			if (sl.failed) { f.tag = sl.tag; f.msg = sl.msg; } else { f.msg = crashSummary(status, errPath(w)); f.tag = crashTag(f.msg); }
			f.choices.assign(sl.rec, sl.rec + sl.recN.load());
			++failures;
			if (o.keepGoing) {
				std::string sig = props()[f.prop].name + "/" + f.tag;
				// for crashes, separate by first frame
				auto q = f.msg.find("    #"); if (f.tag.rfind("crash", 0) == 0 && q != std::string::npos) { auto in = f.msg.find(" in ", q); sig += f.msg.substr(in == std::string::npos ? q : in, 120); }
				if (seenTags.insert(sig).second) found.push_back(f);
				if (failures < 400) { spawn(w); ++live; }
			} else { found.push_back(f); sh->stop = 1; }
		}
		for (auto& s : statFiles) { loadStats(s, st); unlink(s.c_str()); }
		st.evals += failures;
		int rc = engineError ? 2 : 0;
		std::string failJson = "null";
		if (!found.empty()) {
			std::sort(found.begin(), found.end(), [](const Found& a, const Found& b) { return a.idx < b.idx; });
			size_t n = o.keepGoing ? found.size() : 1;
			bool confirmedAny = false;
			for (size_t i = 0; i < n; ++i) {
				Found& f = found[i];
				std::string t, m; int ok = 0;
				bool race = f.msg.find("ThreadSanitizer: data race") != std::string::npos; // the two accesses are in the report: once more is enough
				for (int k = 0; k < (race ? 40 : 10) && ok < (race ? 1 : 3); ++k) ok += attempt(f.prop, f.choices, t, m);
				if (ok < 3 && !(race && ok)) { // not reproducible three times: not reported as a violation unless another one is
					fprintf(stderr, "engine: failure did not reproduce 3 times (%d/10) sub=%s tag=%s msg=%s\n", ok, props()[f.prop].name.c_str(), f.tag.c_str(), f.msg.c_str());
					if (!o.keepGoing && n < found.size()) ++n;
					continue;
				}
				if (!o.noShrink) shrink(f, o.keepGoing ? 5 : 25);
				std::string notes; attempt(f.prop, f.choices, t, m, nullptr, &notes);
				f.msg = m;
				confirmedAny = true;
				std::string path = o.replayOut.empty() ? std::string() : o.replayOut + (o.keepGoing ? "." + std::to_string(i) : "");
				if (!path.empty()) writeReplay(path, f, notes);
				printf("FAILED sub=%s tag=%s case=%llu choices=%zu\n%s\n-- case --\n%s\n", props()[f.prop].name.c_str(), f.tag.c_str(), (unsigned long long)f.idx, f.choices.size(), f.msg.c_str(), notes.substr(0, 4000).c_str());
				failJson = "{\"sub\":" + jstr(props()[f.prop].name) + ",\"tag\":" + jstr(f.tag) + ",\"message\":" + jstr(f.msg.substr(0, 2000)) + ",\"description\":" + jstr(notes.substr(0, 4000)) + ",\"replay\":" + jstr(path) + "}";
				if (!o.keepGoing) break;
			}
			if (confirmedAny) rc = 1; else if (!rc) rc = 3; // 3: unreproducible
		}
		if (!o.out.empty()) {
			std::ofstream f(o.out);
			f << "{\"evaluations\":" << st.evals << ",\"discarded\":" << st.discarded << ",\"nontrivial\":" << st.nontrivial << ",\"distinct_nontrivial\":" << st.distinct.size();
			f << ",\"capped\":" << (capped ? "true" : "false");
			f << ",\"per_sub\":{"; bool first = true; for (auto& [l, c] : st.perProp) { f << (first ? "" : ",") << jstr(l) << ":" << c; first = false; }
			f << "},\"labels\":{"; first = true; for (auto& [l, c] : st.labels) { f << (first ? "" : ",") << jstr(l) << ":" << c; first = false; }
			f << "},\"samples\":["; std::map<std::string, int> per; int k = 0; first = true;
			std::sort(st.samples.begin(), st.samples.end());
			for (auto& s : st.samples) { auto nm = s.substr(0, s.find(':')); if (per[nm]++ < 2 && k < 16) { f << (first ? "" : ",") << jstr(s.substr(0, 1200)); first = false; ++k; } }
			f << "],\"failure\":" << failJson << ",\"wall_s\":" << (now() - t0) << "}\n";
		}
		return rc;
	}
};

} // namespace pbt

#ifdef PBT_LIBFUZZER
// Coverage-guided mode: the fuzzer's bytes are the choice sequence. FUZZ_SUB selects the sub-property.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
	static const pbt::Prop* p = [] { const char* s = getenv("FUZZ_SUB"); for (auto& q : pbt::props()) if (!s || q.name == s) return &q; abort(); }();
	static std::vector<uint64_t> buf(pbt::maxChoices); static std::atomic<uint64_t> cnt;
	pbt::Gen g; g.mode = pbt::Gen::Mode::Bytes; g.bytes = data; g.bytesN = size; g.rec = buf.data(); g.recN = &cnt; cnt = 0; g.thorough = true;
	std::string tag, msg;
	// keep the choices on disk so that the parent can rebuild the case after a crash
	static const char* out = getenv("FUZZ_CHOICES");
	int r = pbt::runOne(g, *p, tag, msg);
	if (r == 1) { fprintf(stderr, "PBT: property failure [%s] %s\n", tag.c_str(), msg.c_str()); (void)out; abort(); }
	return 0;
}
#else
#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { static pbt::Engine e; return e.run(argc, argv); }
#endif
#endif

// The JSON parser of the system is not instrumented, so AddressSanitizer does not see it reading beyond a buffer. While a
// guard is alive, blocks of about the size of the document end at a page that cannot be accessed.
#pragma once
#include <atomic>
#include <cstdlib>
#include <new>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
namespace guard {
inline std::atomic<size_t> lo{1}, hi{0}, used{0}; // sizes to guard; number of guarded blocks alive
struct Block { std::atomic<void*> p{nullptr}; void* map; size_t len; };
inline Block blocks[64];
struct Sizes { Sizes(size_t a, size_t b) { hi = b; lo = a; } ~Sizes() { lo = 1; hi = 0; } };
inline std::atomic<void*> pages[64]; // behind mappings of the code under test
inline std::atomic<bool> maps{false};
struct Mappings { Mappings() { maps = true; } ~Mappings() { maps = false; for (auto& p : pages) if (void* q = p.exchange(nullptr)) syscall(SYS_munmap, q, 4096); } };
inline void* get(size_t n, bool exact) {
	if (n >= lo && n <= hi) for (auto& b : blocks) {
		void* none = nullptr; if (b.p.load() || !b.p.compare_exchange_strong(none, &b)) continue;
		size_t room = (n + 15) / 16 * 16, len = (room + 4095) / 4096 * 4096 + 4096; void* m = mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (m == MAP_FAILED || mprotect(static_cast<char*>(m) + len - 4096, 4096, PROT_NONE)) abort();
		b.map = m; b.len = len; void* p = static_cast<char*>(m) + len - 4096 - (exact ? n : room); b.p = p; ++used; return p;
	}
	return malloc(n ? n : 1);
}
inline void put(void* p) {
	if (!p) return;
	if (used) for (auto& b : blocks) if (b.p.load() == p) { void* m = b.map; size_t l = b.len; b.p = nullptr; --used; munmap(m, l); return; }
	free(p);
}
inline void* must(void* p) { if (!p) throw std::bad_alloc(); return p; }
} // namespace guard
// mappings end at such a page, too
extern "C" void* mmap(void* at, size_t len, int prot, int flags, int fd, off_t off) noexcept {
	auto call = [&](size_t n, int f) { return reinterpret_cast<void*>(syscall(SYS_mmap, at, n, prot, f, fd, off)); };
	if (!guard::maps || at || (flags & MAP_FIXED) || !len) return call(len, flags);
	size_t room = (len + 4095) / 4096 * 4096; void* all = reinterpret_cast<void*>(syscall(SYS_mmap, nullptr, room + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); if (all == MAP_FAILED) return all;
	at = all; void* m = call(len, flags | MAP_FIXED); void* page = static_cast<char*>(all) + room;
	if (m == MAP_FAILED) { syscall(SYS_munmap, all, room + 4096); return m; }
	for (auto& p : guard::pages) { void* none = nullptr; if (p.compare_exchange_strong(none, page)) return m; }
	syscall(SYS_munmap, page, 4096); return m;
}
void* operator new(size_t n) { return guard::must(guard::get(n, false)); }
void* operator new[](size_t n) { return guard::must(guard::get(n, true)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return guard::get(n, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return guard::get(n, true); }
void operator delete(void* p) noexcept { guard::put(p); }
void operator delete[](void* p) noexcept { guard::put(p); }
void operator delete(void* p, size_t) noexcept { guard::put(p); }
void operator delete[](void* p, size_t) noexcept { guard::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { guard::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { guard::put(p); }

// The pointer a user passes through the library to callbacks: the callback's state, nothing, or anything else.
#pragma once
#include <pbt/pbt.hpp>
namespace user {
inline void* state = nullptr; inline void* given = nullptr; inline bool other = false;
template <typename X> void pass(pbt::Gen& g, X& x, void* s, bool fresh = true) { // tells a parser or exporter the pointer
	state = s; other = false;
	switch (g.draw(5)) { case 1: case 2: given = nullptr; break; case 3: given = reinterpret_cast<void*>(1); break; default: given = s; }
	if (given || !fresh || g.flip()) x.setUserPointer(given);
}
inline void* get(void* p) { if (p != given) other = true; return state; } // called by the callbacks
inline void check() { pbt::require(!other, "user pointer", "a callback got another pointer than the user's"); }
} // namespace user

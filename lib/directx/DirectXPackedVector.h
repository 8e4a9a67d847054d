#pragma once
#include <cstdint>
namespace DirectX { namespace PackedVector {
#define P2(N, T, V) struct N { union { struct { T x, y; }; V v; }; N() = default; constexpr N(T a, T b) : x(a), y(b) {} explicit N(const T* p) : x(p[0]), y(p[1]) {} N(float a, float b); };
#define P4(N, T, V) struct N { union { struct { T x, y, z, w; }; V v; }; N() = default; constexpr N(T a, T b, T c, T d) : x(a), y(b), z(c), w(d) {} explicit N(const T* p) : x(p[0]), y(p[1]), z(p[2]), w(p[3]) {} N(float a, float b, float c, float d); };
P2(XMBYTE2, int8_t, uint16_t) P4(XMBYTE4, int8_t, uint32_t) P2(XMUBYTE2, uint8_t, uint16_t) P4(XMUBYTE4, uint8_t, uint32_t)
P2(XMSHORT2, int16_t, uint32_t) P4(XMSHORT4, int16_t, uint64_t) P2(XMUSHORT2, uint16_t, uint32_t) P4(XMUSHORT4, uint16_t, uint64_t)
#undef P2
#undef P4
}}

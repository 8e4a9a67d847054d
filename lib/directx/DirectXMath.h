// The storage types of DirectXMath (which is not installed here): layout and constructors as documented by Microsoft.
#pragma once
#include <cstdint>
namespace DirectX {
struct XMFLOAT2 { float x, y; XMFLOAT2() = default; constexpr XMFLOAT2(float a, float b) : x(a), y(b) {} explicit XMFLOAT2(const float* p) : x(p[0]), y(p[1]) {} };
struct XMFLOAT3 { float x, y, z; XMFLOAT3() = default; constexpr XMFLOAT3(float a, float b, float c) : x(a), y(b), z(c) {} explicit XMFLOAT3(const float* p) : x(p[0]), y(p[1]), z(p[2]) {} };
struct XMFLOAT4 { float x, y, z, w; XMFLOAT4() = default; constexpr XMFLOAT4(float a, float b, float c, float d) : x(a), y(b), z(c), w(d) {} explicit XMFLOAT4(const float* p) : x(p[0]), y(p[1]), z(p[2]), w(p[3]) {} };
struct XMUINT2 { uint32_t x, y; XMUINT2() = default; constexpr XMUINT2(uint32_t a, uint32_t b) : x(a), y(b) {} explicit XMUINT2(const uint32_t* p) : x(p[0]), y(p[1]) {} };
struct XMUINT3 { uint32_t x, y, z; XMUINT3() = default; constexpr XMUINT3(uint32_t a, uint32_t b, uint32_t c) : x(a), y(b), z(c) {} explicit XMUINT3(const uint32_t* p) : x(p[0]), y(p[1]), z(p[2]) {} };
struct XMUINT4 { uint32_t x, y, z, w; XMUINT4() = default; constexpr XMUINT4(uint32_t a, uint32_t b, uint32_t c, uint32_t d) : x(a), y(b), z(c), w(d) {} explicit XMUINT4(const uint32_t* p) : x(p[0]), y(p[1]), z(p[2]), w(p[3]) {} };
struct XMFLOAT3X3 { union { struct { float _11, _12, _13, _21, _22, _23, _31, _32, _33; }; float m[3][3]; }; XMFLOAT3X3() = default;
	constexpr XMFLOAT3X3(float a, float b, float c, float d, float e, float f, float g, float h, float i) : _11(a), _12(b), _13(c), _21(d), _22(e), _23(f), _31(g), _32(h), _33(i) {} };
struct XMFLOAT4X4 { union { struct { float _11, _12, _13, _14, _21, _22, _23, _24, _31, _32, _33, _34, _41, _42, _43, _44; }; float m[4][4]; }; XMFLOAT4X4() = default;
	constexpr XMFLOAT4X4(float a, float b, float c, float d, float e, float f, float g, float h, float i, float j, float k, float l, float n, float o, float p, float q) : _11(a), _12(b), _13(c), _14(d), _21(e), _22(f), _23(g), _24(h), _31(i), _32(j), _33(k), _34(l), _41(n), _42(o), _43(p), _44(q) {} };
}

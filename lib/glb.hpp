// Builds binary glTF containers.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace glb {
using Bytes = std::vector<uint8_t>;
inline void u32(Bytes& b, uint32_t v) { for (int i = 0; i < 4; ++i) b.push_back(static_cast<uint8_t>(v >> (8 * i))); }
constexpr uint32_t Json = 0x4E4F534A, Bin = 0x004E4942, Magic = 0x46546C67;
struct Chunk { uint32_t type; Bytes data; };
// well-formed container; JSON padded with spaces and the binary chunk with zeros to 4 bytes
inline Bytes pack(const std::string& json, const Bytes* bin, size_t extraPad = 0) {
	Bytes j(json.begin(), json.end()); j.resize((j.size() + 3) / 4 * 4 + 4 * extraPad, ' ');
	Bytes o; u32(o, Magic); u32(o, 2); u32(o, 0); u32(o, static_cast<uint32_t>(j.size())); u32(o, Json); o.insert(o.end(), j.begin(), j.end());
	if (bin) { Bytes b = *bin; b.resize((b.size() + 3) / 4 * 4, 0); u32(o, static_cast<uint32_t>(b.size())); u32(o, Bin); o.insert(o.end(), b.begin(), b.end()); }
	uint32_t n = static_cast<uint32_t>(o.size()); memcpy(&o[8], &n, 4);
	return o;
}
} // namespace glb

// All kinds of data sources over the same bytes, and one of our own that honours the documented contract to the letter.
#pragma once
#include "files.hpp"
#include <fastgltf/core.hpp>
#include <memory>
namespace sources {
namespace fg = fastgltf; namespace fs = std::filesystem;
using files::Bytes;
// "The memory pointed to by the span only needs to live until the next call to read()": each span gets memory of its own
// with exactly the padding asked for, which is gone with the next call.
class Strict : public fg::GltfDataGetter {
	Bytes data; size_t pos = 0; std::unique_ptr<std::byte[]> last;
public:
	size_t reads = 0; bool beyond = false;
	explicit Strict(Bytes b) : data(std::move(b)) {}
	void read(void* p, std::size_t n) override { ++reads; last.reset(); if (n > data.size() - pos) { beyond = true; memset(p, 0, n); pos = data.size(); return; } if (n) memcpy(p, data.data() + pos, n); pos += n; }
	fg::span<std::byte> read(std::size_t n, std::size_t pad) override {
		++reads; size_t have = std::min(n, data.size() - pos); if (have < n) beyond = true;
		last.reset(new std::byte[n + pad]); memset(last.get(), 0xA5, n + pad); if (have) memcpy(last.get(), data.data() + pos, have); pos += have;
		return fg::span<std::byte>(last.get(), n);
	}
	void reset() override { pos = 0; }
	std::size_t bytesRead() override { return pos; }
	std::size_t totalSize() override { return data.size(); }
};
enum Kind { Memory, FileBuffer, Mapped, Stream, Own, Kinds };
inline const char* name(int k) { static const char* n[] = {"memory copy", "file buffer", "memory map", "file stream", "own source"}; return n[k]; }
// null: the library refused the source
inline std::unique_ptr<fg::GltfDataGetter> make(int kind, const Bytes& b, const fs::path& file, fg::Error* err = nullptr) {
	switch (kind) {
		case Memory: { // from memory of exactly this size, which is gone afterwards
			std::unique_ptr<std::byte[]> m(new std::byte[b.size() + (b.empty() ? 1 : 0)]); if (!b.empty()) memcpy(m.get(), b.data(), b.size());
			auto r = fg::GltfDataBuffer::FromBytes(m.get(), b.size()); if (err) *err = r.error(); if (r.error() != fg::Error::None) return nullptr; return std::make_unique<fg::GltfDataBuffer>(std::move(r.get())); }
		case FileBuffer: { auto r = fg::GltfDataBuffer::FromPath(file); if (err) *err = r.error(); if (r.error() != fg::Error::None) return nullptr; return std::make_unique<fg::GltfDataBuffer>(std::move(r.get())); }
		case Mapped: { auto r = fg::MappedGltfFile::FromPath(file); if (err) *err = r.error(); if (r.error() != fg::Error::None) return nullptr; return std::make_unique<fg::MappedGltfFile>(std::move(r.get())); }
		case Stream: { auto s = std::make_unique<fg::GltfFileStream>(file); if (!s->isOpen()) { if (err) *err = fg::Error::InvalidPath; return nullptr; } return s; }
		default: return std::make_unique<Strict>(b);
	}
}
} // namespace sources

// A directory of its own for one case, removed afterwards.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
#include <unistd.h>
namespace files {
namespace fs = std::filesystem;
using Bytes = std::vector<uint8_t>;
struct Dir {
	fs::path path;
	Dir() {
		const char* s = getenv("VERIF_SCRATCH"); std::string t = std::string(s && *s ? s : "/tmp") + "/d.XXXXXX";
		if (!mkdtemp(t.data())) throw std::runtime_error("no scratch directory");
		path = t;
	}
	~Dir() { std::error_code ec; fs::remove_all(path, ec); }
	Dir(const Dir&) = delete;
	fs::path put(const std::string& rel, const void* p, size_t n) const {
		auto f = path / fs::u8path(rel); fs::create_directories(f.parent_path());
		std::ofstream o(f, std::ios::binary); o.write(static_cast<const char*>(p), static_cast<std::streamsize>(n)); o.close(); if (!o) throw std::runtime_error("cannot write scratch file");
		return f;
	}
	fs::path put(const std::string& rel, const Bytes& b) const { return put(rel, b.data(), b.size()); }
	fs::path put(const std::string& rel, const std::string& b) const { return put(rel, b.data(), b.size()); }
	void put(const std::map<std::string, Bytes>& m) const { for (auto& [k, v] : m) put(k, v); }
};
inline Bytes read(const fs::path& p) { std::ifstream f(p, std::ios::binary); return Bytes(std::istreambuf_iterator<char>(f), {}); }
inline std::vector<std::string> list(const fs::path& p) { std::vector<std::string> r; for (auto& e : fs::recursive_directory_iterator(p)) if (!e.is_directory()) r.push_back(e.path().lexically_relative(p).generic_u8string()); std::sort(r.begin(), r.end()); return r; }
} // namespace files

// C11: base64 decoding inverts the RFC 4648 encoding, in bounds, with every decoder available on this machine.
#include <fastgltf/base64.hpp>
#include <fastgltf/core.hpp>
#include <memory>
#include <pbt/pbt.hpp>
#include <simdjson.h>

using namespace pbt;
namespace b64 = fastgltf::base64;

static std::string encode(const std::vector<uint8_t>& in) {
	static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o;
	for (size_t i = 0; i < in.size(); i += 3) {
		uint32_t v = uint32_t(in[i]) << 16; size_t k = 1;
		if (i + 1 < in.size()) { v |= uint32_t(in[i + 1]) << 8; ++k; }
		if (i + 2 < in.size()) { v |= in[i + 2]; ++k; }
		o += A[v >> 18]; o += A[(v >> 12) & 63]; o += k > 1 ? A[(v >> 6) & 63] : '='; o += k > 2 ? A[v & 63] : '=';
	}
	return o;
}
static bool has(const char* impl) {
	auto& impls = simdjson::get_available_implementations(); auto* i = impls[impl];
	return i != nullptr && i->supported_by_runtime_system();
}

struct Decoder { const char* name; fastgltf::StaticVector<std::uint8_t> (*fn)(std::string_view); void (*inplace)(std::string_view, std::uint8_t*, std::size_t); };
static const std::vector<Decoder>& decoders() {
	static const std::vector<Decoder> d = [] {
		std::vector<Decoder> v{{"default", b64::decode, b64::decode_inplace}, {"fallback", b64::fallback_decode, b64::fallback_decode_inplace}};
#if defined(FASTGLTF_IS_X86)
		if (has("westmere")) v.push_back({"sse4", b64::sse4_decode, b64::sse4_decode_inplace});
		if (has("haswell")) v.push_back({"avx2", b64::avx2_decode, b64::avx2_decode_inplace});
#endif
		return v;
	}();
	return d;
}

static std::vector<uint8_t> genBytes(Gen& g, size_t n) {
	std::vector<uint8_t> v(n); unsigned style = g.draw(3);
	uint64_t s = 0;
	if (style == 3) s = g.draw(~0ull);
	for (size_t i = 0; i < n; ++i) {
		if (style == 0) v[i] = g.byte();
		else if (style == 1) v[i] = static_cast<uint8_t>(i);
		else if (style == 2) v[i] = 0xff;
		else { s = mix(s); v[i] = static_cast<uint8_t>(s); }
	}
	return v;
}

static void checkDecoders(const std::vector<uint8_t>& data, const std::string& enc) {
	// An exactly sized heap copy, so that reading past the text is visible too.
	std::unique_ptr<char[]> text(new char[enc.size()]); memcpy(text.get(), enc.data(), enc.size());
	std::string_view sv(text.get(), enc.size());
	size_t pad = enc.empty() ? 0 : (enc[enc.size() - 1] == '=') + (enc[enc.size() - 2] == '=');
	if (!enc.empty()) require(b64::getPadding(sv) == pad, "padding", [&] { return "getPadding(" + enc + ") != " + std::to_string(pad); });
	require(b64::getOutputSize(enc.size(), pad) == data.size(), "outputsize", "getOutputSize wrong");
	for (auto& d : decoders()) {
		if (enc.empty() && d.fn != b64::decode) continue; // the per-ISA functions require at least one quad
		auto out = d.fn(sv);
		require(out.size() == data.size() && (data.empty() || memcmp(out.data(), data.data(), data.size()) == 0), "decode",
			[&] { return std::string(d.name) + " decode of " + enc + " gave " + std::to_string(out.size()) + " bytes " + hex(out.data(), out.size()) + " expected " + hex(data.data(), data.size()); });
		if (enc.empty()) continue;
		std::unique_ptr<uint8_t[]> buf(new uint8_t[data.size()]);
		memset(buf.get(), 0x5a, data.size());
		d.inplace(sv, buf.get(), pad);
		require(memcmp(buf.get(), data.data(), data.size()) == 0, "inplace", [&] { return std::string(d.name) + " in-place decode of " + enc + " gave " + hex(buf.get(), data.size()); });
		// Same again between guard bytes (bytes outside the output must be untouched).
		std::vector<uint8_t> guard(data.size() + 64, 0xa7);
		d.inplace(sv, guard.data() + 32, pad);
		require(memcmp(guard.data() + 32, data.data(), data.size()) == 0, "inplace", "guarded in-place decode differs");
		for (size_t i = 0; i < 32; ++i) require(guard[i] == 0xa7 && guard[guard.size() - 1 - i] == 0xa7, "guard", [&] { return std::string(d.name) + " wrote outside the output of " + std::to_string(data.size()) + " bytes"; });
	}
}

PROPERTY(roundtrip, 60000, 600000) {
	size_t n = g.weighted({6, 3, 1}) == 0 ? g.draw(200) : g.weighted({3, 1}) == 0 ? g.draw(2000) : g.draw(g.thorough ? 70000 : 9000);
	auto data = genBytes(g, n); auto enc = encode(data);
	g.note("bytes=" + std::to_string(n) + " " + hex(data.data(), data.size(), 40) + " text=" + enc.substr(0, 80));
	g.label(n == 0 ? "empty" : "pad" + std::to_string((3 - n % 3) % 3));
	if (enc.size() > 64) g.label("simd-loop"); 
	g.nontrivial(n > 0);
	g.key(hashStr(enc));
	checkDecoders(data, enc);
}

// Every length up to a bound, once each, deterministically (no gaps in the length dimension).
PROPERTY(every_length, 1200, 6000) {
	size_t n = g.enumerate(g.thorough ? 5999 : 1199);
	std::vector<uint8_t> data(n); uint64_t s = g.draw(0xffff);
	for (auto& b : data) { s = mix(s); b = static_cast<uint8_t>(s); }
	g.nontrivial(); g.label("len%48=" + std::to_string(n % 48));
	checkDecoders(data, encode(data));
}

// Text that is not base64: decoding must stay inside its input and output for any 4-aligned text.
PROPERTY(garbage_in_bounds, 30000, 300000) {
	size_t n = 4 * (g.chance(1, 4) ? g.draw(100) : g.draw(30));
	std::string enc; 
	unsigned style = g.draw(2);
	for (size_t i = 0; i < n; ++i) enc += style == 0 ? static_cast<char>(g.byte()) : style == 1 ? static_cast<char>(0x80 + g.draw(127)) : "A=/+z\xff\0 -_"[g.draw(9)];
	std::unique_ptr<char[]> text(new char[enc.size()]); memcpy(text.get(), enc.data(), enc.size());
	std::string_view sv(text.get(), enc.size());
	g.note("garbage text " + hex(enc.data(), enc.size()));
	g.nontrivial(n >= 4); g.label("garbage");
	for (auto& d : decoders()) { if (enc.empty() && d.fn != b64::decode) continue; auto out = d.fn(sv); require(out.size() <= n / 4 * 3, "size", "output larger than 3/4 of the text"); (void)out; }
}

// The same text as a data: URI buffer inside a glTF document reaches the same decoder through the parser.
PROPERTY(via_parser, 6000, 60000) {
	size_t n = 1 + (g.chance(1, 3) ? g.draw(400) : g.draw(60));
	auto data = genBytes(g, n); auto enc = encode(data);
	bool custom = g.chance(1, 4);
	std::string json = R"({"asset":{"version":"2.0"},"buffers":[{"byteLength":)" + std::to_string(n) + R"(,"uri":"data:application/octet-stream;base64,)" + enc + "\"}]}";
	auto buf = fastgltf::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(json.data()), json.size());
	require(buf.error() == fastgltf::Error::None, "frombytes", "FromBytes failed");
	fastgltf::Parser parser;
	if (custom) { // a user callback sees the same text and an output pointer for exactly the decoded size
		g.label("custom-decoder");
		parser.setBase64DecodeCallback([](std::string_view e, uint8_t* out, size_t pad, size_t outSize, void*) {
			if (outSize != e.size() / 4 * 3 - pad) abort();
			b64::fallback_decode_inplace(e, out, pad);
		});
	}
	auto a = parser.loadGltfJson(buf.get(), ".");
	require(a.error() == fastgltf::Error::None, "load", [&] { return std::string("load failed: ") + std::string(fastgltf::getErrorName(a.error())); });
	require(a->buffers.size() == 1, "load", "buffer lost");
	auto* arr = std::get_if<fastgltf::sources::Array>(&a->buffers[0].data);
	require(arr != nullptr, "source", "data URI buffer is not an array source");
	require(arr->bytes.size_bytes() == n && memcmp(arr->bytes.data(), data.data(), n) == 0, "bytes", "bytes differ from the encoded ones");
	g.nontrivial(); g.key(hashStr(json)); g.note("data URI with " + std::to_string(n) + " bytes");
}

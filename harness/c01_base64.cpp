// C01: every base64 decoder the library can dispatch to agrees with RFC 4648 on every payload length and every symbol
// at every position, and never touches memory outside [encoded] / [output].
#include "util.hpp"
using namespace fastgltf;
using Dec = StaticVector<std::uint8_t> (*)(std::string_view);
using Inp = void (*)(std::string_view, std::uint8_t*, std::size_t);
struct Path { const char* name; Dec d; Inp i; };
static const Path paths[] = {
	{"dispatch", base64::decode, base64::decode_inplace},
	{"fallback", base64::fallback_decode, base64::fallback_decode_inplace},
#if defined(FASTGLTF_IS_X86)
	{"sse4", base64::sse4_decode, base64::sse4_decode_inplace},
	{"avx2", base64::avx2_decode, base64::avx2_decode_inplace},
#endif
};
static bool one(const Path& p, bool inplace, const std::string& enc, const std::vector<uint8_t>& want) {
	Exact in(enc.data(), enc.size());
	auto pad = base64::getPadding(in.sv());
	size_t refPad = enc.size() >= 4 ? (enc[enc.size() - 2] == '=' ? 2 : enc[enc.size() - 1] == '=' ? 1 : 0) : 0;
	if (pad != refPad || base64::getOutputSize(enc.size(), pad) != want.size()) {
		mc::fail("base64:size", mc::fmt("%s: padding %zu output size %zu, expected %zu/%zu", enc.c_str(), pad, base64::getOutputSize(enc.size(), pad), refPad, want.size()));
		return false;
	}
	mc::step();
	if (inplace) {
		Exact out(want.size());
		p.i(in.sv(), out.data(), pad);
		if (memcmp(out.data(), want.data(), want.size())) {
			mc::fail(mc::fmt("base64:%s_inplace:value", p.name), enc + " -> " + hex(out.data(), want.size(), 256) + " expected " + hex(want.data(), want.size(), 256));
			return false;
		}
	} else {
		auto out = p.d(in.sv());
		if (out.size() != want.size() || memcmp(out.data(), want.data(), want.size())) {
			mc::fail(mc::fmt("base64:%s:value", p.name), enc + " -> " + hex(out.data(), out.size(), 256) + " expected " + hex(want.data(), want.size(), 256));
			return false;
		}
	}
	return true;
}
static std::vector<uint8_t> pattern(size_t n, unsigned k) {
	std::vector<uint8_t> r(n);
	for (size_t i = 0; i < n; ++i) r[i] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? uint8_t(i * 37 + 11) : uint8_t(0xA5 ^ (i * 151));
	return r;
}
static void model() {
	const size_t maxLen = mc::thorough() ? 700 : 200;
	unsigned mode = mc::choose(3, "mode");
	const Path& p = paths[mc::choose(sizeof(paths) / sizeof(*paths), "path")];
	bool inplace = mc::flip();
	mc::context(mc::fmt("base64:%s%s", p.name, inplace ? "_inplace" : ""));
	if (mode == 0) {        // all lengths x patterns x every alphabet symbol at every position
		size_t n = 1 + mc::choose(maxLen);
		if (!mc::mine()) return;
		mc::note("path=%s inplace=%d payload=%zu bytes: 4 patterns, then every symbol at every position", p.name, inplace, n);
		mc::state(mc::hash(mc::fmt("%s%d%zu", p.name, inplace, n)));
		for (unsigned k = 0; k < 4; ++k) { auto d = pattern(n, k); if (!one(p, inplace, b64enc(d), d)) return; }
		if (n > (mc::thorough() ? 160u : 64u) && n % 16 != 0) return;
		for (unsigned k = 0; k < 2; ++k) {
			std::string base = b64enc(pattern(n, k == 0 ? 2 : 3));
			for (size_t pos = 0; pos < base.size(); ++pos) {
				if (base[pos] == '=') continue;
				std::string e = base;
				for (unsigned s = 0; s < 64; ++s) {
					e[pos] = B64[s];
					// keep the padding bits of the last symbol zero: canonical encodings only
					if (pos + 3 == e.size() && e[pos + 1] == '=' && (s & 15)) continue;
					if (pos + 2 == e.size() && e.back() == '=' && (s & 3)) continue;
					if (!one(p, inplace, e, b64dec(e))) return;
				}
			}
		}
		mc::outcome(mc::hash(base64::getOutputSize(b64enc(pattern(n, 2)).size(), 0) ? b64enc(pattern(n, 2)) : ""));
	} else if (mode == 1) { // every quadruple (first symbol chosen; the other 64^3 are swept), placed first / last / in a SIMD lane
		unsigned a = mc::choose(64);
		unsigned place = mc::choose(mc::thorough() ? 4 : 3);
		if (!mc::thorough() && place == 2 && !(a % 8 == 0 || a >= 62)) return;
		if (!mc::mine()) return;
		size_t blocks = place == 0 ? 1 : place == 1 ? 12 : place == 2 ? 17 : 24;
		size_t at = place == 0 ? 0 : place == 1 ? 11 : place == 2 ? 3 : 15;
		std::string e(blocks * 4, 'Q');
		auto want = b64dec(e);
		mc::state(mc::hash(mc::fmt("q%s%d%u%u", p.name, inplace, a, place)));
		mc::note("path=%s inplace=%d all quadruples starting with '%c' in block %zu of %zu", p.name, inplace, B64[a], at, blocks);
		unsigned inc = mc::thorough() || place == 0 ? 1 : 5;
		Exact out(blocks * 3);
		for (unsigned b = 0; b < 64; b += 1) for (unsigned c = 0; c < 64; c += inc) for (unsigned d = 0; d < 64; d += inc) {
			e[at * 4] = B64[a]; e[at * 4 + 1] = B64[b]; e[at * 4 + 2] = B64[c]; e[at * 4 + 3] = B64[d];
			want[at * 3] = uint8_t(a << 2 | b >> 4); want[at * 3 + 1] = uint8_t(b << 4 | c >> 2); want[at * 3 + 2] = uint8_t(c << 6 | d);
			mc::step();
			bool ok;
			if (inplace) { p.i(e, out.data(), 0); ok = !memcmp(out.data(), want.data(), want.size()); }
			else { auto r = p.d(e); ok = r.size() == want.size() && !memcmp(r.data(), want.data(), want.size()); }
			if (!ok) { mc::fail(mc::fmt("base64:%s%s:quad", p.name, inplace ? "_inplace" : ""), e); return; }
		}
	} else {                // the decoder behind a data URI of a buffer
		if (&p != &paths[0]) return;
		size_t n = 1 + mc::choose(maxLen);
		unsigned k = mc::choose(4);
		if (!mc::mine()) return;
		auto d = pattern(n, k);
		mc::state(mc::hash(mc::fmt("u%d%zu%u", inplace, n, k)));
		std::string json = mc::fmt(R"({"asset":{"version":"2.0"},"buffers":[{"byteLength":%zu,"uri":"data:application/octet-stream;base64,%s"}]})", n, b64enc(d).c_str());
		mc::note("data URI buffer, %zu bytes, pattern %u, map callback %d", n, k, inplace);
		static Extensions none = Extensions::None;
		Parser parser(none);
		std::vector<std::unique_ptr<uint8_t[]>> maps;
		if (inplace) {
			parser.setUserPointer(&maps);
			parser.setBufferAllocationCallback([](std::uint64_t sz, void* u) -> BufferInfo {
				auto& m = *static_cast<std::vector<std::unique_ptr<uint8_t[]>>*>(u);
				m.emplace_back(new uint8_t[sz]); return BufferInfo{m.back().get(), m.size() - 1};
			});
		}
		auto data = GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(json.data()), json.size());
		auto a = parser.loadGltfJson(data.get(), {}, fastgltf::Options::None);
		mc::step();
		if (a.error() != Error::None) { mc::fail("base64:uri:error", std::string(getErrorMessage(a.error())) + " " + json); return; }
		bool ok = false;
		if (inplace) { auto* cb = std::get_if<sources::CustomBuffer>(&a->buffers[0].data); ok = cb && maps.size() == 1 && !memcmp(maps[0].get(), d.data(), n); }
		else { auto* arr = std::get_if<sources::Array>(&a->buffers[0].data); ok = arr && arr->bytes.size() == n && !memcmp(arr->bytes.data(), d.data(), n); }
		if (!ok) mc::fail("base64:uri:value", json);
	}
}
MC_MAIN(model)

// C27: the helper functions of the public headers are exact for every argument: names of extensions and errors, accessor and
// component types, attribute look-up, bit and alignment arithmetic, hashes and flag operators.
#include "util.hpp"
#include "spec.hpp"
#include <fastgltf/core.hpp>
#include <fastgltf/tools.hpp>
namespace fg = fastgltf;
using E = fg::Extensions;
#define EXPECT(key, cond, ...) do { if (!(cond)) mc::fail(key, mc::fmt(__VA_ARGS__)); } while (0)
using std::size_t; using std::string;

// ---- attributes
static const char* const NAMES[] = { "POSITION", "POSITIO", "POSITION2", "", "_X", "_x", "COLOR_0" };
template <typename List, typename Find> static void lookup(const char* what, const List& l, const std::vector<string>& n, const string& q, Find find) {
	auto it = find(q); size_t want = 0; while (want < n.size() && n[want] != q) ++want;
	size_t got = size_t(std::distance(l.begin(), decltype(l.begin())(it)));
	EXPECT(what, got == want, "%s: looking for %s among %zu names gives position %zu instead of %zu", what, q.c_str(), n.size(), got, want);
	if (got < n.size()) EXPECT(what, it->accessorIndex == got + 10, "%s: wrong element", what);
}
static void attributes() {
	unsigned len = mc::choose(6); std::vector<string> n; for (unsigned i = 0; i < len; ++i) { n.push_back(NAMES[mc::choose(7)]); if (i == 0 && !mc::mine()) return; }
	if (!len && !mc::mine()) return;
	fg::Node node; fg::Primitive p; fg::DracoCompressedPrimitive d; p.targets.resize(3);
	for (unsigned i = 0; i < len; ++i) { fg::Attribute a{ FASTGLTF_STD_PMR_NS::string(n[i]), i + 10 }; node.instancingAttributes.emplace_back(a); p.attributes.emplace_back(a); d.attributes.emplace_back(a); p.targets[1].emplace_back(a); p.targets[0].emplace_back(fg::Attribute{ FASTGLTF_STD_PMR_NS::string(n[i]), 99 }); }
	const auto &cn = node; const auto &cp = p; const auto &cd = d; mc::step(8);
	for (auto q : NAMES) {
		lookup("findAttribute", p.attributes, n, q, [&](auto& s) { return p.findAttribute(s); }); lookup("findAttribute const", cp.attributes, n, q, [&](auto& s) { return cp.findAttribute(s); });
		lookup("findTargetAttribute", p.targets[1], n, q, [&](auto& s) { return p.findTargetAttribute(1, s); }); lookup("findTargetAttribute const", cp.targets[1], n, q, [&](auto& s) { return cp.findTargetAttribute(1, s); });
		EXPECT("findTargetAttribute", p.findTargetAttribute(2, q) == p.targets[2].end() && cp.findTargetAttribute(2, q) == cp.targets[2].cend(), "found in an empty target");
		lookup("findInstancingAttribute", node.instancingAttributes, n, q, [&](auto& s) { return node.findInstancingAttribute(s); }); lookup("findInstancingAttribute const", cn.instancingAttributes, n, q, [&](auto& s) { return cn.findInstancingAttribute(s); });
		lookup("draco", d.attributes, n, q, [&](auto& s) { return d.findAttribute(s); }); lookup("draco const", cd.attributes, n, q, [&](auto& s) { return cd.findAttribute(s); });
	}
	if (len > 1) mc::nontrivial();
}
// ---- names of extensions: every set of up to three bits and its complement
static void extensions() {
	uint64_t m = 0; unsigned a = mc::choose(65), b = mc::choose(65), c = mc::choose(65); if (!mc::mine()) return; if (a < 64) m |= 1ull << a; if (b < 64) m |= 1ull << b; if (c < 64) m |= 1ull << c; if (mc::flip()) m = ~m;
	static const std::map<uint64_t, string> names = [] { std::map<uint64_t, string> r; for (auto& [n, e] : spec::knownExtensions()) r[uint64_t(e)] = n; return r; }();
	mc::step(); mc::state(m);
	string first; std::vector<string> all; for (unsigned i = 0; i < 64; ++i) if (m >> i & 1) { auto it = names.find(1ull << i); if (it != names.end()) all.push_back(it->second); }
	if (m) { auto it = names.find(m & -m); if (it != names.end()) first = it->second; }
	EXPECT("stringifyExtension", string(fg::stringifyExtension(E(m))) == first, "%llx: %s instead of %s", (unsigned long long)m, string(fg::stringifyExtension(E(m))).c_str(), first.c_str());
	auto got = fg::stringifyExtensionBits(E(m)); std::vector<string> g; for (auto& s : got) g.push_back(string(s));
	EXPECT("stringifyExtensionBits", g == all, "%llx: %zu names instead of %zu", (unsigned long long)m, g.size(), all.size());
	if (all.size() > 1) mc::nontrivial();
}
// ---- flag operators
template <typename T> static void flags(const char* what) {
	static const uint64_t M[] = { 0, 1, 2, 3, 5, 6, 0x10, 0x7F, 0x80, 0xFF00, 0x8000, 0x10000, 0x7FFFFFFF, 0x80000000u };
	using U = std::underlying_type_t<T>; auto a = U(mc::pick(M) << (sizeof(U) == 8 ? mc::choose(2) * 31 : 0)), b = U(mc::pick(M) << (sizeof(U) == 8 ? mc::choose(2) * 31 : 0)); if (!mc::mine()) return; mc::step();
	EXPECT(what, U(T(a) | T(b)) == U(a | b) && U(T(a) & T(b)) == U(a & b) && U(~T(a)) == U(~a), "%s operators on %llx and %llx", what, (unsigned long long)a, (unsigned long long)b);
	T x = T(a); x |= T(b); T y = T(a); y &= T(b); EXPECT(what, U(x) == U(a | b) && U(y) == U(a & b), "%s assignment operators on %llx and %llx", what, (unsigned long long)a, (unsigned long long)b);
	EXPECT("hasBit", fg::hasBit(T(a), T(b)) == ((a & b) == b), "hasBit %llx %llx", (unsigned long long)a, (unsigned long long)b); EXPECT("to_underlying", fg::to_underlying(T(a)) == a, "to_underlying");
	mc::nontrivial();
}
// ---- errors
static void errors() {
	static const char* const N[] = { "None", "InvalidPath", "MissingExtensions", "UnknownRequiredExtension", "InvalidJson", "InvalidGltf", "InvalidOrMissingAssetField", "InvalidGLB", "MissingField", "MissingExternalBuffer", "UnsupportedVersion", "InvalidURI", "InvalidFileData", "FailedWritingFiles", "FileBufferAllocationFailed" };
	static const fg::Error V[] = { fg::Error::None, fg::Error::InvalidPath, fg::Error::MissingExtensions, fg::Error::UnknownRequiredExtension, fg::Error::InvalidJson, fg::Error::InvalidGltf, fg::Error::InvalidOrMissingAssetField, fg::Error::InvalidGLB, fg::Error::MissingField, fg::Error::MissingExternalBuffer, fg::Error::UnsupportedVersion, fg::Error::InvalidURI, fg::Error::InvalidFileData, fg::Error::FailedWritingFiles, fg::Error::FileBufferAllocationFailed };
	unsigned i = mc::choose(15), j = mc::choose(15); if (!mc::mine()) return; mc::step();
	EXPECT("getErrorName", fg::getErrorName(V[i]) == N[i], "%s is named %s", N[i], string(fg::getErrorName(V[i])).c_str());
	EXPECT("getErrorMessage", fg::getErrorMessage(V[i]).empty() == (V[i] == fg::Error::None || V[i] == fg::Error::MissingField), "message of %s", N[i]);
	if (i != j) { EXPECT("Error", V[i] != V[j], "%s and %s have the same value", N[i], N[j]); EXPECT("getErrorMessage", fg::getErrorMessage(V[i]).empty() || fg::getErrorMessage(V[i]) != fg::getErrorMessage(V[j]), "%s and %s have the same message", N[i], N[j]); mc::nontrivial(); }
}
// ---- accessor and component types
struct AT { const char* name; fg::AccessorType t; unsigned rows, cols; };
static const AT ATS[] = { { "SCALAR", fg::AccessorType::Scalar, 1, 1 }, { "VEC2", fg::AccessorType::Vec2, 2, 1 }, { "VEC3", fg::AccessorType::Vec3, 3, 1 }, { "VEC4", fg::AccessorType::Vec4, 4, 1 }, { "MAT2", fg::AccessorType::Mat2, 2, 2 }, { "MAT3", fg::AccessorType::Mat3, 3, 3 }, { "MAT4", fg::AccessorType::Mat4, 4, 4 } };
struct CT { unsigned gl; fg::ComponentType c; unsigned size; };
static const CT CTS[] = { { 5120, fg::ComponentType::Byte, 1 }, { 5121, fg::ComponentType::UnsignedByte, 1 }, { 5122, fg::ComponentType::Short, 2 }, { 5123, fg::ComponentType::UnsignedShort, 2 }, { 5124, fg::ComponentType::Int, 4 }, { 5125, fg::ComponentType::UnsignedInt, 4 }, { 5126, fg::ComponentType::Float, 4 }, { 5130, fg::ComponentType::Double, 8 } };
static void types() {
	switch (mc::choose(3)) {
		case 0: { // sizes
			auto& a = ATS[mc::choose(7)]; auto& c = CTS[mc::choose(8)]; if (!mc::mine()) return; mc::step(); bool mat = a.cols > 1; unsigned col = a.rows * c.size; if (mat) col = (col + 3) / 4 * 4;
			EXPECT("size", fg::getNumComponents(a.t) == a.rows * a.cols && fg::getElementRowCount(a.t) == a.rows && fg::isMatrix(a.t) == mat && fg::getComponentByteSize(c.c) == c.size && fg::getComponentBitSize(c.c) == 8 * c.size && fg::getGLComponentType(c.c) == c.gl && fg::getElementByteSize(a.t, c.c) == col * a.cols, "%s of %u: %zu bytes", a.name, c.gl, size_t(fg::getElementByteSize(a.t, c.c)));
			EXPECT("getAccessorTypeName", fg::getAccessorTypeName(a.t) == a.name && fg::getAccessorTypeName(fg::AccessorType::Invalid).empty(), "name of %s", a.name);
			static const std::pair<fg::MimeType, const char*> mimes[] = { { fg::MimeType::None, "" }, { fg::MimeType::JPEG, "image/jpeg" }, { fg::MimeType::PNG, "image/png" }, { fg::MimeType::KTX2, "image/ktx2" }, { fg::MimeType::DDS, "image/vnd-ms.dds" }, { fg::MimeType::GltfBuffer, "application/gltf-buffer" }, { fg::MimeType::OctetStream, "application/octet-stream" }, { fg::MimeType::WEBP, "image/webp" } };
			for (auto& [m, n] : mimes) EXPECT("getMimeTypeString", fg::getMimeTypeString(m) == n, "name of %s", n);
			EXPECT("size", fg::getNumComponents(fg::AccessorType::Invalid) == 0 && fg::getComponentByteSize(fg::ComponentType::Invalid) == 0 && fg::getElementByteSize(fg::AccessorType::Invalid, c.c) == 0 && fg::getElementByteSize(a.t, fg::ComponentType::Invalid) == 0, "sizes of invalid types");
			mc::nontrivial(); break; }
		case 1: { // numbers
			static const uint64_t base[] = { 0, 0x10000, 1ull << 32, (1ull << 32) + 0x10000, 1ull << 63, ~0ull - 0xFFFF }; uint64_t hi = mc::pick(base); unsigned block = mc::choose(256); if (!mc::mine()) return; mc::step(256);
			for (unsigned i = 0; i < 256; ++i) { uint64_t v = hi + block * 256 + i; auto want = fg::ComponentType::Invalid; for (auto& c : CTS) if (c.gl == v) want = c.c; EXPECT("getComponentType", fg::getComponentType(v) == want, "component type of %llu", (unsigned long long)v); } break; }
		case 2: { // names: every string one edit away from a type name, and every short one
			static const char alphabet[] = "SCALRVEMT234 5vm"; string s;
			if (mc::flip()) { s = ATS[mc::choose(7)].name; unsigned at = mc::choose(unsigned(s.size() + 1)), kind = mc::choose(4); unsigned ch = mc::choose(kind < 2 ? sizeof alphabet - 1 : 1); if (!mc::mine()) return; if (kind == 0) s.insert(at, 1, alphabet[ch]); else if (at == s.size()) return; else if (kind == 1) s[at] = alphabet[ch]; else if (kind == 2) s.erase(at, 1); else s.resize(at); }
			else { unsigned n = mc::choose(5); for (unsigned i = 0; i < n; ++i) { s += alphabet[mc::choose(sizeof alphabet - 1)]; if (i == 1 && !mc::mine()) return; } if (!mc::mine()) return; }
			mc::step(); auto want = fg::AccessorType::Invalid; for (auto& a : ATS) if (s == a.name) want = a.t;
			EXPECT("getAccessorType", fg::getAccessorType(s) == want, "type of \"%s\"", s.c_str()); if (want != fg::AccessorType::Invalid) mc::nontrivial(); break; }
	}
}
// ---- bit arithmetic
template <typename T> static void bits(T v) {
	unsigned n = 0, lead = 0; for (unsigned i = 0; i < sizeof(T) * 8; ++i) n += unsigned(v >> i & 1); for (int i = int(sizeof(T) * 8) - 1; i >= 0 && !(v >> i & 1); --i) ++lead;
	EXPECT("popcount", fg::popcount(v) == n, "popcount of %llx is %u", (unsigned long long)v, unsigned(fg::popcount(v))); EXPECT("clz", fg::clz(v) == lead, "clz of %llx is %u", (unsigned long long)v, unsigned(fg::clz(v)));
	T sw = 0; for (unsigned i = 0; i < sizeof(T); ++i) sw = T(sw | T(T(v >> 8 * i & 0xFF) << 8 * (sizeof(T) - 1 - i))); EXPECT("byteswap", fg::byteswap(v) == sw, "byteswap of %llx", (unsigned long long)v);
	EXPECT("uabs", fg::uabs(v) == v, "uabs of %llx", (unsigned long long)v); auto s = std::make_signed_t<T>(v); T want = s < 0 ? T(T(0) - v) : v; EXPECT("uabs", fg::uabs(s) == want, "uabs of %lld", (long long)s);
	T r = v; auto back = fg::bit_cast<std::make_signed_t<T>>(v); EXPECT("bit_cast", memcmp(&back, &r, sizeof r) == 0, "bit_cast");
}
static void arithmetic() {
	switch (mc::choose(5)) {
		case 0: { unsigned b = mc::choose(256); if (!mc::mine()) return; mc::step(257); bits<uint8_t>(uint8_t(b)); for (unsigned i = 0; i < 256; ++i) bits<uint16_t>(uint16_t(b << 8 | i)); mc::nontrivial(); break; }
		case 1: { unsigned i = mc::choose(33), j = mc::choose(33); if (!mc::mine()) return; uint64_t m = ((1ull << i) - 1) ^ ((1ull << j) - 1); for (int d = -2; d <= 2; ++d) { mc::step(2); bits<uint32_t>(uint32_t(m + d)); bits<uint32_t>(uint32_t(m * 0x9E3779B1u + d)); } break; }
		case 2: { unsigned i = mc::choose(65), j = mc::choose(65); if (!mc::mine()) return; auto low = [](unsigned k) { return k == 64 ? ~0ull : (1ull << k) - 1; }; uint64_t m = low(i) ^ low(j); for (int d = -2; d <= 2; ++d) { mc::step(2); bits<uint64_t>(m + d); bits<uint64_t>(m * 0x9E3779B97F4A7C15ull + d); } break; }
		case 3: { // alignment
			unsigned k = mc::choose(13); uint64_t block = mc::choose(65); if (!mc::mine()) return; mc::step(256);
			for (unsigned i = 0; i < 256; ++i) { uint64_t v = block == 64 ? (1ull << 40) - 128 + i : block * 256 + i; uint64_t al = 1ull << k, up = (v + al - 1) / al * al, down = v / al * al;
				EXPECT("alignUp", fg::alignUp(v, int64_t(al)) == up && (v > 0xFFFFFFF || fg::alignUp(int(v), int(al)) == int(up)) && fg::alignUp(size_t(v), std::ptrdiff_t(al)) == up, "alignUp(%llu, %llu)", (unsigned long long)v, (unsigned long long)al);
				EXPECT("alignDown", fg::alignDown(v, al) == down && fg::alignDown(v, uint64_t(k + 1)) == v / (k + 1) * (k + 1), "alignDown(%llu, %llu)", (unsigned long long)v, (unsigned long long)al); }
			break; }
		case 4: { static const int64_t V[] = { INT64_MIN, -5, -1, 0, 1, 2, 7, INT64_MAX }; auto a = mc::pick(V), b = mc::pick(V); if (!mc::mine()) return; mc::step(); EXPECT("min", fg::min(a, b) == (a < b ? a : b), "min"); EXPECT("max", fg::max(a, b) == (a < b ? b : a), "max"); break; }
	}
}
// ---- hashes: the tabulated and the hardware version against the polynomial division
static uint32_t crcRef(const string& s) { uint32_t c = 0; for (unsigned char x : s) { c ^= x; for (int i = 0; i < 8; ++i) c = c & 1 ? c >> 1 ^ 0x82f63b78u : c >> 1; } return c; }
static void hashes() {
	unsigned len = mc::choose(mc::thorough() ? 300 : 140), at = mc::choose(len + 1), pat = mc::choose(3); if (!mc::mine()) return;
	for (unsigned v = 0; v < (at < len ? 256u : 1u); ++v) { string s(len, pat == 0 ? '\0' : pat == 1 ? 'a' : '\xff'); if (pat == 1) for (unsigned i = 0; i < len; ++i) s[i] = char('a' + i % 26); if (at < len) s[at] = char(v); mc::step(); auto w = crcRef(s); Exact e(s.data(), s.size());
		EXPECT("crc32c", fg::crc32c(s) == w && fg::crc32c(reinterpret_cast<const uint8_t*>(s.data()), s.size()) == w, "crc32c of %u bytes", len);
#if defined(FASTGLTF_IS_X86)
		if (__builtin_cpu_supports("sse4.2")) EXPECT("sse_crc32c", fg::sse_crc32c(e.sv()) == w && fg::sse_crc32c(static_cast<const uint8_t*>(e.data()), e.n) == w, "sse_crc32c of %u bytes", len);
#endif
	}
	mc::nontrivial();
}
static void prefixes() {
	string a, b; unsigned n = mc::choose(5), m = mc::choose(6); for (unsigned i = 0; i < n; ++i) a += "ab"[mc::choose(2)]; if (!mc::mine()) return; for (unsigned i = 0; i < m; ++i) b += "ab"[mc::choose(2)];
	mc::step(); EXPECT("startsWith", fg::startsWith(b, a) == (b.compare(0, a.size(), a) == 0 && b.size() >= a.size()), "startsWith(%s, %s)", b.c_str(), a.c_str());
}
static void model() {
	mc::context("");
	switch (mc::choose(9)) {
		case 0: attributes(); break; case 1: extensions(); break; case 2: flags<E>("Extensions"); break; case 3: flags<fg::Options>("Options"); break; case 4: flags<fg::Category>("Category"); break;
		case 5: errors(); break; case 6: types(); break; case 7: arithmetic(); break; case 8: mc::flip() ? hashes() : prefixes(); break;
	}
}
MC_MAIN(model)

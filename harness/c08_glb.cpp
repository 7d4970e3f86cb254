// C08: GLB containers. Every truncation, every header and chunk field at boundary values (alone and in pairs), chunk orders,
// extra chunks, paddings; a source which notices any access outside the data; type detection on every prefix.
#include "load.hpp"
#include "sources.hpp"

static void w32(std::string& s, uint32_t v) { for (int i = 0; i < 4; ++i) s += char(v >> (8 * i)); }
static uint32_t r32(const std::string& s, size_t at) { uint32_t v = 0; for (int i = 0; i < 4; ++i) v |= uint32_t(uint8_t(s[at + size_t(i)])) << (8 * i); return v; }
enum Want { Accept, Reject, Either };
struct Ref { Want want = Reject; std::string json; bool bin = false; std::string binData; const char* why = ""; };
// The container format of the glTF 2.0 specification (section 4.4). Either: deviations which readers may tolerate.
static Ref reference(const std::string& d) {
	Ref r; bool lax = false;
	auto rej = [&](const char* w) { r.want = Reject; r.why = w; return r; };
	if (d.size() < 12) return rej("shorter than the header");
	if (r32(d, 0) != 0x46546C67) return rej("magic"); if (r32(d, 4) != 2) return rej("version");
	size_t len = r32(d, 8); if (len > d.size()) return rej("longer than the data"); if (len < d.size()) lax = true; // trailing data
	if (len < 20) return rej("no room for the JSON chunk");
	size_t jl = r32(d, 12); if (r32(d, 16) != 0x4E4F534A) return rej("first chunk is not JSON"); if (jl > len - 20) return rej("JSON chunk longer than the file"); if (jl % 4) lax = true;
	r.json = d.substr(20, jl); size_t at = 20 + jl;
	if (len - at >= 8) {
		size_t bl = r32(d, at); uint32_t type = r32(d, at + 4);
		if (type != 0x004E4942) { // the second chunk is not the binary one: ignored or rejected
			lax = true; if (type == 0x4E4F534A) r.why = "second JSON chunk"; }
		else if (bl > len - at - 8) return rej("binary chunk longer than the file");
		else { if (bl % 4) lax = true; r.bin = bl != 0; r.binData = d.substr(at + 8, bl); at += 8 + bl;
			while (len - at >= 8) { size_t ul = r32(d, at); if (ul > len - at - 8) { lax = true; break; } at += 8 + ul; } if (len != at) lax = true; }
	} else if (len != at) lax = true;
	r.want = lax ? Either : Accept; return r;
}
static const char* const JSONS[] = {
	R"({"asset":{"version":"2.0"},"buffers":[{"byteLength":4},{"uri":"other.bin","byteLength":3}],"nodes":[{"name":"n"}]})",
	R"({"asset":{"version":"2.0"},"nodes":[{"name":"m"},{}]})",
	R"({"asset":{"version":"2.0"},"buffers":[{"uri":"data:application/octet-stream;base64,AQID","byteLength":3}]})",
	R"({"asset":{"version":"2.0"},"buffers":[{"byteLength":4},{"byteLength":4}]})",
	R"({"asset":{"version":"1.0"}})", "{", "",
};
static void judgeGlb(const char* label, const std::string& d) {
	mc::step(); mc::context(label); mc::state(mc::hash(d)); mc::note("%s: %zu bytes %s", label, d.size(), hex(d.data(), d.size(), 80).c_str());
	Ref r = reference(d);
	StrictGetter g(d); fg::Parser p(ALL_EXT); fg::Expected<fg::Asset> a = p.loadGltfBinary(g, {}, fg::Options::None);
	StrictGetter g2(d); auto type = fg::determineGltfFileType(g2); StrictGetter g3(d); fg::Parser p3(ALL_EXT); auto e3 = p3.loadGltf(g3, {}, fg::Options::None).error();
	for (auto* x : { &g, &g2, &g3 }) if (!x->wrong.empty()) mc::fail(std::string(label) + ":read outside the data", x->wrong);
	mc::outcome(mc::hash(fg::getErrorName(a.error())) ^ mc::hash(r.why));
	bool magic = d.size() >= 4 && r32(d, 0) == 0x46546C67;
	if (d.size() >= 12 && (type == fg::GltfType::GLB) != magic) mc::fail(std::string(label) + ":type", mc::fmt("%d", int(type)));
	if (!magic && type == fg::GltfType::GLB) mc::fail(std::string(label) + ":type", "GLB without the magic");
	if (magic && d.size() >= 12 && e3 != a.error()) mc::fail(std::string(label) + ":loadGltf differs", std::string(fg::getErrorName(e3)));
	if (r.want == Reject && a.error() == fg::Error::None) { mc::fail(std::string(label) + ":accepted", std::string(r.why) + " " + hex(d.data(), d.size(), 200)); return; }
	if (r.want == Reject) { if (e3 == fg::Error::None) mc::fail(std::string(label) + ":loadGltf accepts", r.why); return; }
	// the content decides
	J doc; std::string bad = jparse(r.json, doc);
	if (!bad.empty() || doc.t != J::Obj) { if (a.error() == fg::Error::None) mc::fail(std::string(label) + ":accepted", "JSON chunk: " + bad); return; }
	auto c = spec::interpret(doc, ALL_EXT, fg::Options::None, fg::Category::All, r.bin, r.binData);
	if (a.error() != fg::Error::None) { if (r.want == Accept && !c.reject && !c.lax) mc::fail(std::string(label) + ":rejected", std::string(fg::getErrorName(a.error())) + " " + hex(d.data(), d.size(), 300)); return; }
	mc::nontrivial();
	if (c.reject) { mc::fail(std::string(label) + ":accepted", c.why); return; }
	std::string path, df = dump::diff(c.out, dump::asset(a.get(), ALL_EXT), &path); if (!df.empty()) mc::fail(std::string(label) + ":content:" + generic(path), df + "\n" + hex(d.data(), d.size(), 300));
}
static std::string jsonOf(unsigned i) { std::string j = JSONS[i]; while (j.size() % 4) j += ' '; return j; }
static std::string base(unsigned json, unsigned binLen, bool bin) { std::string b; for (unsigned i = 0; i < binLen; ++i) b += char(0x11 * (i + 1)); return glbOf(jsonOf(json), bin ? &b : nullptr); }
static std::vector<uint32_t> values(const std::string& d, size_t field, bool many = false) { // boundary values of a field
	uint32_t t = uint32_t(d.size()), cur = r32(d, field); std::vector<uint32_t> v;
	if (field == 0 || field == 4 || field % 4 || cur > 0x1000000 || cur == 2) v = { 0, 1, 2, 3, cur + 1, cur ^ 0x20, cur << 8, 0xFFFFFFFF, 0x46546C67, 0x4E4F534A, 0x004E4942, 0x676C5446 };
	else { v = { 0, 1, 3, 4, 7, 8, 11, 12, 19, 20, 21, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFC, 0xFFFFFFF4, 0xFFFFFFEC, 0xFFFFFFE0 }; for (int k : { -24, -21, -20, -19, -16, -13, -12, -11, -9, -8, -7, -4, -1, 0, 1, 4, 7, 8, 12, 20 }) { v.push_back(t + uint32_t(k)); v.push_back(cur + uint32_t(k)); } }
	if (many) { for (int k = 0; k < 32; ++k) { v.push_back(cur ^ (1u << k)); v.push_back(cur & (0xFFFFFFFFu >> k)); v.push_back(cur & (0xFFFFFFFFu << k)); } for (uint32_t m : { 0x20u, 0x80u, 1u, 0xFFu, 0x7Fu }) for (int b = 0; b < 16; ++b) v.push_back(cur ^ ((b & 1 ? m : 0) | (b & 2 ? m << 8 : 0) | (b & 4 ? m << 16 : 0) | (b & 8 ? m << 24 : 0))); v.push_back(__builtin_bswap32(cur)); v.push_back(cur << 16 | cur >> 16); }
	std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
static void put(std::string& d, size_t at, uint32_t v) { for (size_t i = 0; i < 4; ++i) d[at + i] = char(v >> (8 * i)); }
static void model() {
	switch (mc::choose(7)) {
		case 0: { // truncations and extensions, the length field left alone or adjusted
			unsigned j = mc::choose(7), bl = mc::choose(3); bool adjust = mc::flip(); std::string d = base(j, bl * 4, bl != 0 || mc::flip());
			size_t n = mc::choose(unsigned(d.size() + 12)); if (!mc::mine()) return;
			size_t old = d.size(); d.resize(n, '\0'); if (adjust && n >= 12) put(d, 8, uint32_t(n)); judgeGlb(n < old ? "truncated" : n == old ? "intact" : "extended", d); break; }
		case 1: case 2: { // one or two fields at boundary values
			unsigned j = mc::choose(3); bool bin = mc::flip(); std::string d = base(j, 8, bin); std::vector<size_t> f = { 0, 4, 8, 12, 16 }; if (bin) { size_t at = 20 + jsonOf(j).size(); f.push_back(at); f.push_back(at + 4); }
			unsigned a = mc::choose(unsigned(f.size())), b = mc::choose(unsigned(f.size())); if (b <= a && b != 0) return; // b == 0: only one
			auto va = values(d, f[a], b == 0); uint32_t x = va[mc::choose(unsigned(va.size()))];
			if (!mc::mine()) return;
			std::string e = d; put(e, f[a], x); if (b) { auto vb = values(d, f[b]); put(e, f[b], vb[mc::choose(unsigned(vb.size()))]); } else if (mc::flip()) put(e, 8, uint32_t(e.size() / 2)); // also with half the length
			judgeGlb(b ? "two fields" : "field", e); break; }
		case 3: { // chunk sequences
			unsigned n = mc::choose(4); std::vector<unsigned> kinds; for (unsigned i = 0; i < n; ++i) kinds.push_back(mc::choose(6)); if (!mc::mine()) return;
			unsigned j = mc::choose(2), pad = mc::choose(2); std::string body;
			for (unsigned k : kinds) { std::string c = k == 0 ? jsonOf(j) : k == 1 ? std::string("\1\2\3\4") : k == 2 ? std::string() : k == 3 ? std::string("unkn") : k == 4 ? std::string(8, '\0') : std::string("\1\2\3\4\5\6\7");
				uint32_t type = k == 0 ? 0x4E4F534A : k == 3 ? 0x12345678 : k == 4 ? 0 : 0x004E4942; w32(body, uint32_t(c.size())); w32(body, type); body += c; if (pad) while (body.size() % 4) body += '\0'; }
			std::string d; w32(d, 0x46546C67); w32(d, 2); w32(d, uint32_t(12 + body.size())); judgeGlb("chunks", d + body); break; }
		case 4: { // sizes of both chunks, unpadded too
			unsigned js = mc::choose(mc::thorough() ? 260 : 70), bl = mc::choose(mc::thorough() ? 70 : 20); if (!mc::mine()) return; std::string j = jsonOf(0); j.resize(j.size() + js, ' '); std::string b(bl, '\x42'), d; w32(d, 0x46546C67); w32(d, 2); w32(d, uint32_t(12 + 8 + j.size() + 8 + b.size())); w32(d, uint32_t(j.size())); w32(d, 0x4E4F534A); d += j; w32(d, bl); w32(d, 0x004E4942); d += b; judgeGlb("sizes", d); break; }
		case 5: { // file type detection: all short strings over an alphabet, and prefixes of real files
			static const char al[] = { ' ', '\n', '\t', '\r', '{', '}', 'g', 'l', 'T', 'F', '\0', '[', '\x02' }; std::string d; unsigned n = mc::choose(mc::thorough() ? 7 : 6); for (unsigned i = 0; i < n; ++i) d += al[mc::choose(sizeof al)]; if (!mc::mine()) return;
			unsigned tail = mc::choose(3); if (tail) d += tail == 1 ? "               {}" : "{\"asset\":{\"version\":\"2.0\"}}   ";
			mc::step(); mc::context("type"); mc::note("%s", hex(d.data(), d.size()).c_str()); StrictGetter g(d); auto t = fg::determineGltfFileType(g);
			size_t i = d.find_first_not_of(" \n\t\r"); bool glb = d.compare(0, 4, "glTF") == 0; auto want = glb ? fg::GltfType::GLB : i != std::string::npos && d[i] == '{' ? fg::GltfType::glTF : fg::GltfType::Invalid;
			mc::outcome(uint64_t(t)); if (!g.wrong.empty()) mc::fail("type:read outside the data", g.wrong + " " + hex(d.data(), d.size())); if (g.pos != 0) mc::fail("type:position", "not reset afterwards");
			if (t != want && !(glb && d.size() < 12 && t == fg::GltfType::Invalid)) mc::fail("type:wrong", mc::fmt("%d instead of %d for %s", int(t), int(want), hex(d.data(), d.size()).c_str())); break; }
		case 6: { // every byte of a file replaced
			unsigned j = mc::choose(2); std::string d = base(j, 8, true); unsigned at = mc::choose(unsigned(d.size())); if (!mc::mine()) return; static const uint8_t x[] = { 0, 1, 4, 8, 0x20, 0x7F, 0x80, 0xFF }; bool header = at < 20 || at >= d.size() - 16; uint8_t v = header ? uint8_t(mc::choose(256)) : mc::pick(x); if (!header && mc::flip()) v ^= uint8_t(d[at]); d[at] = char(v); judgeGlb("byte", d); break; }
	}
}
MC_MAIN(model)

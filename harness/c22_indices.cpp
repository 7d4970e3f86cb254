// C22: generated indices draw what was drawn without them. Every mode, vertex counts around the limits of the index
// types, several primitives with and without indices.
#include "exporting.hpp"
using P = fg::PrimitiveType;
struct Prim { int mode; int count; bool indexed; bool second; }; // mode -1: absent
static const char* const MODES[] = { "points", "lines", "loop", "line strip", "triangles", "strip", "fan" };
// What a sequence of vertices draws, in order and orientation.
static std::vector<uint64_t> draws(int mode, const std::vector<uint64_t>& v) {
	std::vector<uint64_t> r; size_t n = v.size(); auto add = [&](std::initializer_list<size_t> l) { for (auto i : l) r.push_back(v[i]); };
	switch (mode) {
		case 0: r = v; break;
		case 1: for (size_t i = 0; i + 1 < n; i += 2) add({ i, i + 1 }); break;
		case 2: if (n >= 2) { for (size_t i = 0; i + 1 < n; ++i) add({ i, i + 1 }); add({ n - 1, 0 }); } break;
		case 3: for (size_t i = 0; i + 1 < n; ++i) add({ i, i + 1 }); break;
		case 4: for (size_t i = 0; i + 2 < n; i += 3) add({ i, i + 1, i + 2 }); break;
		case 5: for (size_t i = 0; i + 2 < n; ++i) { if (i % 2) add({ i, i + 2, i + 1 }); else add({ i, i + 1, i + 2 }); } break;
		case 6: for (size_t i = 0; i + 2 < n; ++i) add({ 0, i + 1, i + 2 }); break;
	}
	return r;
}
// Rotates every triangle so that equal ones compare equal.
static std::vector<uint64_t> canonical(int mode, std::vector<uint64_t> v) { if (mode >= 4) for (size_t i = 0; i + 2 < v.size(); i += 3) { auto m = std::min_element(v.begin() + long(i), v.begin() + long(i) + 3); std::rotate(v.begin() + long(i), m, v.begin() + long(i) + 3); } return v; }
static int kindOf(int mode) { return mode == 0 ? 0 : mode <= 3 ? 1 : 4; }
static J document(const std::vector<Prim>& prims, int meshes, bool extra) {
	J d = docs::lit("{\"asset\":{\"version\":\"2.0\"}}"); J acc = J::arr(), mesh = J::arr(), cur = J::arr(); size_t n = 0;
	if (extra) { d.set("buffers", docs::lit("[{\"uri\":\"data:application/octet-stream;base64,AQIDBA==\",\"byteLength\":4}]")); d.set("bufferViews", docs::lit("[{\"buffer\":0,\"byteLength\":4}]")); }
	for (auto& p : prims) {
		J a = docs::lit("{\"componentType\":5126,\"type\":\"VEC3\"}"); a.set("count", J::i(p.count)); J o = docs::lit("{\"attributes\":{}}"); auto& at = *o.get("attributes");
		if (p.second) { J b = docs::lit("{\"componentType\":5126,\"type\":\"VEC2\"}"); b.set("count", J::i(p.count + 7)); acc.a.push_back(b); at.set("A_FIRST", J::i((long long)acc.a.size() - 1)); }
		acc.a.push_back(a); at.set("POSITION", J::i((long long)acc.a.size() - 1)); if (p.second) at.set("TEXCOORD_0", J::i((long long)acc.a.size() - 2));
		if (p.mode >= 0) o.set("mode", J::i(p.mode)); if (p.indexed) { acc.a.push_back(docs::lit("{\"componentType\":5123,\"type\":\"SCALAR\",\"count\":3}")); o.set("indices", J::i((long long)acc.a.size() - 1)); }
		cur.a.push_back(o); ++n; if (meshes > 1 || n == prims.size()) { J m = J::obj(); m.set("primitives", cur); mesh.a.push_back(m); cur = J::arr(); }
	}
	d.set("accessors", acc); d.set("meshes", mesh); return d;
}
static void judge(const std::string& label, const std::vector<Prim>& prims, int meshes, bool extra, fg::Category cat, bool glb, bool trip) {
	J d = document(prims, meshes, extra); auto text = jtext(d); mc::context(label); mc::step(); mc::state(mc::hash(text) + unsigned(cat) + glb); mc::note("%s", text.c_str()); std::string bin = "\1\2\3\4"; auto bytes = glb ? glbOf(text, &bin) : text;
	fg::Parser p(ALL_EXT); auto plain = load(p, bytes, fg::Options::None, cat), l = load(p, bytes, fg::Options::GenerateMeshIndices, cat);
	if (!plain.asset) mc::die("the document does not load"); if (!l.asset) return mc::fail(label + ":error", std::string(fg::getErrorName(l.error)) + "\n" + text);
	auto &a = *plain.asset, &b = *l.asset; size_t generated = 0, k = 0;
	for (size_t m = 0; m < a.meshes.size(); ++m) for (size_t i = 0; i < a.meshes[m].primitives.size(); ++i, ++k) {
		auto &x = a.meshes[m].primitives[i], &y = b.meshes[m].primitives[i]; auto& q = prims[k]; std::string what = mc::fmt("primitive %zu (%s, %d vertices): ", k, MODES[q.mode < 0 ? 4 : q.mode], q.count);
		if (q.indexed) { if (!y.indicesAccessor || *y.indicesAccessor != *x.indicesAccessor || y.type != x.type) mc::fail(label + ":indexed", what + "was changed\n" + text); continue; }
		++generated; if (!y.indicesAccessor.has_value() || *y.indicesAccessor >= b.accessors.size()) return mc::fail(label + ":missing", what + "no indices\n" + text);
		auto& c = b.accessors[*y.indicesAccessor]; if (*y.indicesAccessor < a.accessors.size()) return mc::fail(label + ":accessor", what + "not a new accessor"); size_t w = c.componentType == fg::ComponentType::UnsignedByte ? 1 : c.componentType == fg::ComponentType::UnsignedShort ? 2 : c.componentType == fg::ComponentType::UnsignedInt ? 4 : 0;
		if (!w || c.type != fg::AccessorType::Scalar || c.normalized || c.sparse || !c.bufferViewIndex || c.byteOffset % w) return mc::fail(label + ":accessor", what + "unsuitable accessor");
		if (*c.bufferViewIndex >= b.bufferViews.size() || *c.bufferViewIndex < a.bufferViews.size()) return mc::fail(label + ":view", what + "view"); auto& v = b.bufferViews[*c.bufferViewIndex]; if (v.byteStride || v.meshoptCompression) return mc::fail(label + ":view", what + "stride");
		if (v.bufferIndex >= b.buffers.size() || v.bufferIndex < a.buffers.size()) return mc::fail(label + ":buffer", what + "buffer"); auto& u = b.buffers[v.bufferIndex]; size_t n; auto data = bytesOf(u.data, n);
		if (n != u.byteLength || v.byteOffset > n || v.byteLength > n - v.byteOffset || c.byteOffset > v.byteLength || c.count > (v.byteLength - c.byteOffset) / w || (v.byteOffset + c.byteOffset) % w) return mc::fail(label + ":bounds", what + mc::fmt("%zu indices of %zu bytes in a view of %zu bytes of a buffer of %zu bytes with %zu bytes of data\n", c.count, w, v.byteLength, u.byteLength, n) + text);
		std::vector<uint64_t> idx, ref; for (size_t t = 0; t < c.count; ++t) { uint32_t e = 0; memcpy(&e, data + v.byteOffset + c.byteOffset + t * w, w); idx.push_back(e); if (int64_t(e) >= q.count || (w < 4 && e == (1u << (8 * w)) - 1)) return mc::fail(label + ":index", what + mc::fmt("index %u at %zu\n", e, t) + text); } for (int t = 0; t < q.count; ++t) ref.push_back(uint64_t(t));
		int before = q.mode < 0 ? 4 : q.mode, after = int(y.type); if (int(x.type) != before) mc::die("mode"); if (kindOf(after) != kindOf(before)) return mc::fail(label + ":mode", what + "mode " + std::to_string(after));
		auto want = canonical(before, draws(before, ref)), got = canonical(after, draws(after, idx)); if (want != got) { std::string s; for (size_t t = 0; t < got.size() && t < 40; ++t) s += std::to_string(got[t]) + " "; return mc::fail(label + ":draws", what + "draws " + s + "\n" + text); } if (!want.empty()) mc::nontrivial();
	}
	if (b.accessors.size() != a.accessors.size() + generated || b.bufferViews.size() < a.bufferViews.size() || b.buffers.size() < a.buffers.size()) mc::fail(label + ":size", text); mc::outcome(mc::hash(label) + generated * 31 + b.accessors.size());
	// everything else is as before
	auto da = dump::asset(a, ALL_EXT), db = dump::asset(b, ALL_EXT); auto starts = [](const std::string& s, const std::string& p) { return s.rfind(p, 0) == 0; };
	for (auto it = db.begin(); it != db.end();) { bool drop = it->first.find("/indices") != std::string::npos || it->first.find("/mode") != std::string::npos; for (auto& [sec, n] : std::map<std::string, size_t>{ { "accessors", a.accessors.size() }, { "bufferViews", a.bufferViews.size() }, { "buffers", a.buffers.size() } }) { if (it->first == sec + "/#") drop = true; if (starts(it->first, sec + "/") && isdigit((unsigned char)it->first[sec.size() + 1]) && size_t(atoi(it->first.c_str() + sec.size() + 1)) >= n) drop = true; } if (drop && !(da.count(it->first) && da[it->first] == it->second)) { da.erase(it->first); it = db.erase(it); } else ++it; }
	std::string path; auto w = dump::diff(da, db, &path); if (!w.empty()) mc::fail(label + ":else", w + "\n" + text);
	if (trip && validEnough(b)) { fg::Exporter e; for (Form f : { COMPACT, GLB }) roundTrip(label, b, f, e, ALL_EXT, fg::Options::None); }
}
static void model() {
	std::vector<int> counts; for (int i = 0; i <= (mc::thorough() ? 300 : 40); ++i) counts.push_back(i); for (int c : { 84, 85, 86, 126, 127, 128, 253, 254, 255, 256, 257, 258, 511, 512 }) counts.push_back(c);
	std::vector<int> large{ 21844, 21845, 21846, 32766, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 65538, 131071 };
	using C = fg::Category;
	switch (mc::choose(5)) {
		case 0: { int mode = int(mc::choose(8)) - 1; int n = mc::pick(counts); if (!mc::mine()) return; bool second = mc::flip(), extra = mc::flip(), glb = extra && mc::flip(); judge("one", { { mode, n, false, second } }, 1, extra, C::All, glb, n <= 40); break; }
		case 1: { int mode = int(mc::choose(8)) - 1; int n = mc::pick(large); if (!mc::mine()) return; judge("large", { { mode, n, false, false } }, 1, false, C::All, false, false); break; }
		case 2: { // two primitives, each with or without indices
			Prim a[2]; for (auto& x : a) { static const int c[] = { 0, 1, 2, 3, 4, 5, 7, 254, 255, 256 }; x = { int(mc::choose(7)), mc::pick(c), mc::flip(), false }; } int meshes = 1 + int(mc::choose(2)); if (!mc::mine()) return; judge("two", { a[0], a[1] }, meshes, true, C::All, false, false); break; }
		case 3: { // category selections, several meshes
			static const C m[] = { C::Meshes | C::Accessors, C::OnlyRenderable, C::All, C::Meshes }; auto cat = mc::pick(m); std::vector<Prim> v; unsigned n = mc::choose(mc::thorough() ? 6 : 4); for (unsigned i = 0; i < n; ++i) v.push_back({ int(mc::choose(7)), 3 + int(i), mc::flip(), i % 2 == 1 }); if (!mc::mine()) return; if (v.empty()) v.push_back({ 4, 3, true, false }); judge("meshes", v, 2, true, cat, false, false); break; }
		case 4: { // positions which do not exist; huge counts
			unsigned k = mc::choose(6); int mode = int(mc::choose(7)); bool valid = mc::flip(); if (!mc::mine()) return; static const char* const idx[] = { "1", "2", "1000000", "4294967296", "9223372036854775808", "0" }; static const char* const cnt[] = { "3", "3", "3", "3", "3", "9223372036854775807" };
			std::string t = std::string("{\"asset\":{\"version\":\"2.0\"},\"accessors\":[{\"componentType\":5126,\"type\":\"VEC3\",\"count\":") + cnt[k] + "}],\"meshes\":[{\"primitives\":[{\"attributes\":{\"POSITION\":" + idx[k] + "},\"mode\":" + std::to_string(mode) + "}]}]}"; mc::context("dangling"); mc::step(); mc::state(mc::hash(t) + valid); mc::note("%s", t.c_str());
			fg::Parser p(ALL_EXT); auto l = load(p, t, valid ? fg::Options::GenerateMeshIndices : fg::Options::GenerateMeshIndices | fg::Options::AllowDouble); mc::outcome(mc::hash(fg::getErrorName(l.error))); if (l.asset) mc::fail("dangling", "accepted: " + t); else mc::nontrivial(); break; }
	}
}
MC_MAIN(model)

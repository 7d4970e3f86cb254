// C09: all sources of data deliver the same bytes. Operation sequences on every kind of getter in lockstep with a position
// in a byte string; loading the same document through every kind of getter, sizes around page and padding boundaries.
#include "load.hpp"
#include "sources.hpp"
#include "read_faults.hpp"

static const Scratch& scratch() { static Scratch s; return s; }
static std::string bytesOf(size_t n) { std::string s; uint32_t x = 12345; for (size_t i = 0; i < n; ++i) { x = x * 1664525 + 1013904223; s += char(x >> 24); } return s; }
static const size_t SIZES[] = { 0, 1, 2, 5, 63, 64, 65, 4032, 4033, 4095, 4096, 4097, 8192, 100000 };
enum Kind { Bytes, Path, Mapped, Stream, KINDS };
static const char* const NAME[] = { "bytes", "path", "mapped", "stream" };

struct Any { // one getter of some kind, possibly moved around
	Kind k; std::unique_ptr<fg::GltfDataBuffer> b; std::unique_ptr<fg::MappedGltfFile> m; std::unique_ptr<fg::GltfFileStream> s; fg::Error err = fg::Error::None;
	Any(Kind k, const std::string& data, const fs::path& file) : k(k) {
		if (k == Bytes) { Exact e(data.data(), data.size()); auto x = fg::GltfDataBuffer::FromBytes(reinterpret_cast<std::byte*>(e.data()), e.n); err = x.error(); if (x) b = std::make_unique<fg::GltfDataBuffer>(std::move(x.get())); }
		if (k == Path) { auto x = fg::GltfDataBuffer::FromPath(file); err = x.error(); if (x) b = std::make_unique<fg::GltfDataBuffer>(std::move(x.get())); }
		if (k == Mapped) { auto x = fg::MappedGltfFile::FromPath(file); err = x.error(); if (x) m = std::make_unique<fg::MappedGltfFile>(std::move(x.get())); }
		if (k == Stream) { s = std::make_unique<fg::GltfFileStream>(file); if (!s->isOpen()) err = fg::Error::InvalidPath; }
	}
	fg::GltfDataGetter* get() { if (b) return b.get(); if (m) return m.get(); return s.get(); }
	void moveConstruct() { if (b) b = std::make_unique<fg::GltfDataBuffer>(std::move(*b)); if (m) { auto n = std::make_unique<fg::MappedGltfFile>(std::move(*m)); m = std::move(n); } }
	void moveAssign(Kind, const std::string& data, const fs::path& file) { // over a live, already used getter of the same kind
		if (b) { Any o(k, data, file); if (!o.b) return; if (data.size()) { char c; o.b->read(&c, 1); } *o.b = std::move(*b); b = std::move(o.b); }
		if (m) { Any o(k, data, file); if (!o.m) return; if (data.size()) { char c; o.m->read(&c, 1); } *o.m = std::move(*m); m = std::move(o.m); }
	}
	void selfMove() { if (m) { auto& r = *m; *m = std::move(r); } }
	fg::span<std::byte> whole() { if (b) return static_cast<fg::span<std::byte>>(*b); if (m) return static_cast<fg::span<std::byte>>(*m); return fg::span<std::byte>(nullptr, 0); }
};
static void ops() {
	size_t size = mc::pick(SIZES); Kind k = Kind(mc::choose(KINDS));
	if (!mc::mine()) return;
	std::string data = bytesOf(size), other = bytesOf(100), file = "f" + std::to_string(size); if (!fs::exists(scratch().dir / file)) scratch().write(file, data); if (!fs::exists(scratch().dir / "other")) scratch().write("other", other);
	mc::context(NAME[k]); std::string hist = mc::fmt("%s size %zu:", NAME[k], size);
	Any g(k, data, scratch().dir / file);
	auto bad = [&](const char* key, const std::string& w) { mc::fail(std::string(NAME[k]) + ":" + key, hist + " " + w); };
	if (g.err != fg::Error::None) { bad("open", std::string("fails with ") + std::string(fg::getErrorName(g.err))); return; }
	size_t pos = 0; unsigned depth = mc::thorough() || size == 5 ? 4 : 3;
	for (unsigned i = 0;; ++i) {
		auto* d = g.get(); mc::step();
		if (d->totalSize() != size) return bad("totalSize", mc::fmt("totalSize %zu", d->totalSize()));
		if (d->bytesRead() != pos) return bad("bytesRead", mc::fmt("bytesRead %zu want %zu", d->bytesRead(), pos));
		if (k != Stream) { auto w = g.whole(); if (w.size() != size || (size && memcmp(w.data(), data.data(), size))) return bad("span", "conversion to span"); }
		if (i == depth) break;
		mc::state(mc::hash(mc::fmt("%zu %d %zu", size, int(k), pos))); mc::outcome(mc::hash(mc::fmt("%d %zu", int(k), pos)));
		unsigned op = mc::choose(8); size_t left = size - pos, n = 0;
		static const size_t part[] = { 0, 1, 3, 64, 4096 };
		if (op < 5) { // reads: a fixed size, or what is left, or all but one
			unsigned w = mc::choose(7); n = w < 5 ? part[w] : w == 5 ? left : left ? left - 1 : 0; if (n > left || (w < 5 && (n == left || n + 1 == left) && n)) return;
		}
		switch (op) {
			case 0: { Exact e(n); d->read(e.data(), n); hist += mc::fmt(" read(%zu)", n); if (n && memcmp(e.data(), data.data() + pos, n)) return bad("read", "delivers other bytes"); pos += n; mc::nontrivial(); break; }
			case 1: case 2: case 3: case 4: {
				static const size_t pads[] = { 0, 1, 64 }; if (op == 4) return; size_t pad = pads[op - 1]; auto s = d->read(n, pad); hist += mc::fmt(" read(%zu,padding %zu)", n, pad);
				if (s.size() != n) return bad("span read size", mc::fmt("gives %zu bytes", s.size())); if (n && memcmp(s.data(), data.data() + pos, n)) return bad("span read", "delivers other bytes");
				unsigned sum = 0; for (size_t j = 0; j < pad; ++j) sum += unsigned(s.data()[n + j]); static volatile unsigned sink; sink = sum; // the padding has to be there; its content is free
				pos += n; mc::nontrivial(); break; }
			case 5: d->reset(); hist += " reset"; pos = 0; break;
			case 6: if (k == Stream) return; g.moveConstruct(); hist += " move"; break;
			case 7: if (k == Stream) return; if (mc::flip()) { g.moveAssign(k, other, scratch().dir / "other"); hist += " move-assign"; } else { if (k != Mapped) return; g.selfMove(); hist += " self-move"; } break;
		}
		mc::note("%s", hist.c_str());
	}
}
// The same document through every getter: equal results, the sizes shifted by trailing white space.
static fg::Error loadVia(fg::GltfDataGetter& g, std::string& out, unsigned how) {
	fg::Parser p(ALL_EXT); auto a = how == 0 ? p.loadGltf(g, {}, fg::Options::None) : how == 1 ? p.loadGltfJson(g, {}, fg::Options::None) : p.loadGltfBinary(g, {}, fg::Options::None);
	if (a.error() == fg::Error::None) { out.clear(); for (auto& [k, v] : dump::asset(a.get(), ALL_EXT)) out += k + "=" + v + "\n"; }
	return a.error();
}
static void loads() {
	unsigned doc = mc::choose(3), glb = mc::choose(2), how = mc::choose(3), variant = mc::choose(40);
	if (!mc::mine()) return;
	std::string text = jtext(doc == 0 ? docs::lit("{\"asset\":{\"version\":\"2.0\"}}") : doc == 1 ? docs::core() : docs::ext(), 0), data;
	// sizes: natural, 4096 and 8192 plus/minus; then truncations
	static const int around[] = { -65, -64, -63, -33, -2, -1, 0, 1, 2, 63, 64, 65 };
	size_t base = text.size() + (glb ? 40 : 0); size_t page = (base + 4095 + 70) / 4096 * 4096;
	size_t want = variant == 0 ? base : variant <= 12 ? page + size_t(around[variant - 1]) : base;
	while (text.size() + (glb ? 32 : 0) < want) text += ' ';
	std::string bin = "1234"; data = glb ? glbOf(text, &bin) : text;
	if (variant > 12 && variant < 39) { static const size_t cut[] = { 0, 1, 2, 3, 4, 5, 8, 11, 12, 13, 16, 19, 20, 21, 24, 30, 40 }; unsigned c = variant - 13; data = c < 17 ? data.substr(0, cut[c]) : data.substr(0, data.size() - (c - 16)); }
	if (variant == 39) data = std::string(1, '\t') + data;
	std::string file = mc::fmt("d%u-%u-%u-%u", doc, glb, how, variant); scratch().write(file, data);
	mc::step(); mc::state(mc::hash(data) + how); mc::note("document %u glb %u how %u variant %u, %zu bytes", doc, glb, how, variant, data.size());
	std::string ref, got; StrictGetter sg(data); fg::Error re = loadVia(sg, ref, how); mc::outcome(mc::hash(fg::getErrorName(re)));
	if (!sg.wrong.empty()) mc::fail("strict:read outside the data", sg.wrong + mc::fmt(" (%u %u %u %u)", doc, glb, how, variant));
	for (int k = 0; k < KINDS; ++k) for (int moved = 0; moved < 2; ++moved) {
		Any g(Kind(k), data, scratch().dir / file); mc::context(NAME[k]);
		if (g.err != fg::Error::None) { mc::fail(std::string(NAME[k]) + ":open", mc::fmt("%zu bytes: %s", data.size(), std::string(fg::getErrorName(g.err)).c_str())); continue; }
		if (moved) { if (k == Stream) { if (!data.empty()) { char c; g.get()->read(&c, 1); } } else g.moveConstruct(); }
		auto e = loadVia(*g.get(), got, how); if (re == fg::Error::None) mc::nontrivial();
		if (e != re) mc::fail(std::string(NAME[k]) + ":load error", mc::fmt("%s gives %s instead of %s (document %u glb %u how %u variant %u, %zu bytes)", NAME[k], std::string(fg::getErrorName(e)).c_str(), std::string(fg::getErrorName(re)).c_str(), doc, glb, how, variant, data.size()));
		else if (re == fg::Error::None && got != ref) mc::fail(std::string(NAME[k]) + ":load result", mc::fmt("document %u glb %u how %u variant %u", doc, glb, how, variant));
		auto e2 = loadVia(*g.get(), got, how); if (e2 != re) mc::fail(std::string(NAME[k]) + ":second load", mc::fmt("%s after %s (document %u glb %u how %u variant %u, %zu bytes)", std::string(fg::getErrorName(e2)).c_str(), std::string(fg::getErrorName(re)).c_str(), doc, glb, how, variant, data.size()));
	}
}
static size_t openFiles() { size_t n = 0; for (auto& e : fs::directory_iterator("/proc/self/fd")) { (void)e; ++n; } return n; }
// Things which are not files; no descriptors are lost either way.
static void invalid() {
	unsigned what = mc::choose(3), k = 1 + mc::choose(3); if (!mc::mine()) return;
	fs::path p = what == 0 ? scratch().dir / "missing" : what == 1 ? scratch().dir : scratch().dir / "missing" / "file"; mc::context(NAME[k]); mc::step(); mc::note("%s on %s", NAME[k], what == 1 ? "a directory" : "a missing file");
	size_t before = openFiles();
	try { Any g(Kind(k), "", p); if (g.err == fg::Error::None && (what != 1 || k != Stream)) mc::fail(std::string(NAME[k]) + ":opened", mc::fmt("%u", what)); if (g.err == fg::Error::None && g.get()->totalSize() != 0) mc::fail(std::string(NAME[k]) + ":size of nothing", mc::fmt("%u: %zu", what, g.get()->totalSize())); }
	catch (const std::exception& e) { mc::fail(std::string(NAME[k]) + ":throws", e.what()); }
	if (openFiles() != before) mc::fail(std::string(NAME[k]) + ":descriptor lost", mc::fmt("%u", what));
	scratch().write("ok", "abc"); { Any g(Kind(k), "abc", scratch().dir / "ok"); } if (openFiles() != before) mc::fail(std::string(NAME[k]) + ":descriptor lost", "after a regular file");
}
// Reads which fail, end early or deliver single bytes: the getter either has all bytes of the file or says that it failed.
static void faults() {
	Kind k = mc::flip() ? Path : Stream; static const size_t sizes[] = { 1, 2, 100, 5000, 70000 }; size_t size = mc::pick(sizes); int fault = 1 + int(mc::choose(4)); unsigned at = fault <= 2 ? mc::choose(3) : 0; bool chunks = mc::flip();
	if (!mc::mine()) return;
	size_t after = at == 0 ? 0 : at == 1 ? size / 2 : size - 1; std::string data = bytesOf(size); scratch().write("fault", data); mc::step(); mc::context(NAME[k]); std::string what = mc::fmt("%s, %zu bytes, fault %d after %zu", NAME[k], size, fault, after); mc::state(mc::hash(what)); mc::note("%s", what.c_str());
	std::string got(size, '?'); g_after = after; g_given = 0; g_hit = false; g_fault = fault;
	fg::Error err; { Any g(k, data, scratch().dir / "fault"); err = g.err; if (err == fg::Error::None) { if (chunks && size > 1) { g.get()->read(got.data(), 1); g.get()->read(got.data() + 1, size - 1); } else g.get()->read(got.data(), size); } g_fault = 0; }
	mc::outcome(mc::hash(mc::fmt("%d%d", int(err), int(k)))); if (g_hit) mc::nontrivial();
	if (fault == 4 && err == fg::Error::None) mc::fail(std::string(NAME[k]) + ":opening failed without error", what);
	if (fault == 3 && (err != fg::Error::None || got != data)) mc::fail(std::string(NAME[k]) + ":short reads", what);
	if (fault < 3 && k == Path && err == fg::Error::None && g_hit && got != data) mc::fail(std::string(NAME[k]) + ":incomplete without error", what);
}
static void model() {
#if !defined(__SANITIZE_ADDRESS__)
	faults(); return;
#endif
 switch (mc::choose(3)) { case 0: ops(); break; case 1: loads(); break; case 2: invalid(); break; } }
MC_MAIN(model)

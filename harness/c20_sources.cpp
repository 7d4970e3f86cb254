// C20: every kind of source of a buffer or image x load options x callbacks x state of the file, with faults injected into the
// reading of files (plain build). Oracle: the reference below; every access of the code under test to memory it was given by
// the allocation callback is guarded.
#include "load.hpp"
#include "sources.hpp"
#include "read_faults.hpp"

// ---- callbacks
enum Mode { NoMap, Map, MapNull, MapNoUnmap, MODES };
struct Memory { size_t size; std::unique_ptr<char[]> mem; uint64_t id; };
struct Log { Mode mode; std::vector<std::string> calls; std::vector<Memory> mem; std::string wrong; uint64_t next = 100; };
static constexpr size_t GUARD = 32;
static fg::BufferInfo mapCb(std::uint64_t size, void* user) {
	auto& l = *static_cast<Log*>(user); l.calls.push_back(mc::fmt("map(%llu)", static_cast<unsigned long long>(size)));
	if (l.mode == MapNull) return { nullptr, 7 };
	if (size > (1u << 24)) { l.wrong = "absurd size"; return { nullptr, 0 }; }
	Memory m{ size_t(size), std::unique_ptr<char[]>(new char[size + 2 * GUARD]), l.next++ }; memset(m.mem.get(), 0x77, size + 2 * GUARD);
	fg::BufferInfo r{ m.mem.get() + GUARD, m.id }; l.mem.push_back(std::move(m)); return r;
}
static void unmapCb(fg::BufferInfo* i, void* user) {
	auto& l = *static_cast<Log*>(user); l.calls.push_back(mc::fmt("unmap(%llu)", static_cast<unsigned long long>(i->customId)));
	bool known = false; for (auto& m : l.mem) if (m.id == i->customId) known = i->mappedMemory == m.mem.get() + GUARD; if (!known) l.wrong = "unmap of something which was not mapped";
}
static void decodeCb(std::string_view text, std::uint8_t* out, std::size_t padding, std::size_t size, void* user) {
	auto& l = *static_cast<Log*>(user); l.calls.push_back(mc::fmt("decode(%zu,%zu,%zu)", text.size(), padding, size)); auto d = b64dec(text); if (d.size() != size) l.wrong = "size given to the decode callback"; memcpy(out, d.data(), std::min(size, d.size()));
}

// ---- resources
struct Res { // one buffer or image of the document
	enum Kind { Data, BadData, File, Remote, View, ViewNoMime, Both, None } kind; std::string uri; std::string bytes; std::string mime; // mime: of the data URI
	std::string file; int state = 0; // 0 present, 1 missing, 2 directory
};
static std::string payload(size_t n, unsigned salt) { std::string s; for (size_t i = 0; i < n; ++i) s += char(i * 37 + salt * 11 + (i >> 7)); return s; }
static std::string b64(const std::string& s) { return b64enc(std::vector<uint8_t>(s.begin(), s.end())); }
struct FileName { const char* uri; const char* file; };
static const FileName NAMES[] = { { "a.bin", "a.bin" }, { "some%20file.bin", "some file.bin" }, { "some file.bin", "some file.bin" }, { "p%25q.bin", "p%q.bin" }, { "a%3Ab.bin", "a:b.bin" }, { "a%23b%3Fc.bin", "a#b?c.bin" }, { "%C3%A4.bin", "\xC3\xA4.bin" }, { "\xC3\xA4.bin", "\xC3\xA4.bin" }, { "sub/x.bin", "sub/x.bin" }, { "./sub/../a.bin", "a.bin" }, { "sub%2Fx.bin", "sub/x.bin" }, { "b.bin?query", "b.bin" }, { "b.bin#fragment", "b.bin" }, { "%2525.bin", "%25.bin" }, { "noext", "noext" }, { "file:sub/x.bin", "sub/x.bin" }, { "a%3Ab%3Ac.bin", "a:b:c.bin" }, { "file:a%3Ab.bin", "a:b.bin" }, { "file:a:b.bin", "a:b.bin" } };
static const size_t SIZES[] = { 0, 1, 2, 3, 4, 17, 4096, 70001 };
static const char* const MIMES[] = { "application/octet-stream", "application/gltf-buffer", "image/png", "image/jpeg", "image/ktx2", "image/vnd-ms.dds", "image/webp", "text/plain", "" };
static std::string knownMime(const std::string& m) { for (int i = 0; i < 7; ++i) if (m == MIMES[i]) return m; return "none"; }

static const Scratch& scratch() { static Scratch s; return s; }
static void prepare(const Res& r) {
	fs::create_directories(scratch().dir / "sub"); auto p = scratch().dir / r.file; std::error_code ec; fs::remove_all(p, ec); fs::create_directories(p.parent_path());
	if (r.state == 0) scratch().write(r.file, r.bytes); else if (r.state == 2) fs::create_directory(p);
}
struct Want { bool error = false; std::string source; std::vector<std::string> calls; std::string bytes; bool custom = false; };

// What has to come out for one resource. `ext`: external loading enabled for it.
static Want expect(const Res& r, bool ext, Mode mode, bool decode, const std::string& imageMime, uint64_t id, bool fault) {
	Want w; auto mapped = [&](size_t n) { if (mode != NoMap) w.calls.push_back(mc::fmt("map(%zu)", n)); w.custom = mode == Map || mode == MapNoUnmap; };
	auto unmapped = [&] { if (mode == Map) w.calls.push_back("unmap(" + spec::u(id) + ")"); };
	auto bytes = [&](std::string mime) { if (!imageMime.empty()) mime = knownMime(imageMime); w.bytes = r.bytes; w.source = (w.custom ? "custom:" + spec::u(id) : "bytes:" + dump::D::hexs(reinterpret_cast<const std::byte*>(r.bytes.data()), r.bytes.size())) + " mime:" + mime; };
	switch (r.kind) {
		case Res::Data: { mapped(r.bytes.size()); auto e = b64(r.bytes); size_t pad = e.size() > 1 ? (e[e.size() - 1] == '=') + (e[e.size() - 2] == '=') : 0; if (decode) w.calls.push_back(mc::fmt("decode(%zu,%zu,%zu)", e.size(), pad, r.bytes.size())); unmapped(); bytes(knownMime(r.mime)); break; }
		case Res::BadData: case Res::None: case Res::ViewNoMime: case Res::Both: w.error = true; break;
		case Res::File: if (!ext) { w.source = "uri:" + spec::unpercent(r.uri) + " mime:" + (imageMime.empty() ? "none" : knownMime(imageMime)); break; }
			if (r.state != 0 || fault) { w.error = true; break; }
			mapped(r.bytes.size()); unmapped(); bytes("none"); break;
		case Res::Remote: w.source = "uri:" + spec::unpercent(r.uri) + " mime:" + (imageMime.empty() ? "none" : knownMime(imageMime)); break;
		case Res::View: w.source = "view:0 mime:" + knownMime(imageMime); break;
	}
	return w;
}
static Res pickRes(bool image, bool small) {
	Res r{}; unsigned k = mc::choose(image ? 8 : 5);
	switch (k) {
		case 0: r.kind = Res::Data; r.bytes = payload(small ? 5 : SIZES[1 + mc::choose(6)], 1); r.mime = small ? "image/png" : mc::pick(MIMES); r.uri = "data:" + r.mime + ";base64," + b64(r.bytes); break;
		case 1: { r.kind = Res::BadData; static const char* const bad[] = { "data:,abcd", "data:text/plain,abcd", "data:a/b;base64,", "data:a/b;base64,abc", "data:a/b;base64,abcde", "data:a/b;base32,abcd", "data:a/b", "data:a/b;base64", "data:,;base64abcd", "data:" }; r.uri = small ? bad[0] : mc::pick(bad); break; }
		case 2: { r.kind = Res::File; auto& n = small ? NAMES[1] : mc::pick(NAMES); r.uri = n.uri; r.file = n.file; r.state = int(mc::choose(3)); r.bytes = payload(small ? 9 : r.state ? 3 : mc::pick(SIZES), 2); break; }
		case 3: { r.kind = Res::Remote; static const char* const u[] = { "http://host/x.bin", "https://user@host:80/x%20y.bin?q#f", "custom:opaque"}; r.uri = small ? u[0] : mc::pick(u); break; }
		case 4: r.kind = Res::None; break;
		case 5: r.kind = Res::View; break;
		case 6: r.kind = Res::ViewNoMime; break;
		case 7: r.kind = Res::Both; r.uri = "a.png"; break;
	}
	return r;
}
static std::string text(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r + "\""; }
static std::string item(const Res& r, bool image, const std::string& mime) {
	std::string s = "{"; auto add = [&](const std::string& m) { s += (s.size() > 1 ? "," : "") + m; };
	if (!image) add("\"byteLength\":" + std::to_string(std::max<size_t>(1, r.bytes.size())));
	if (r.kind == Res::View || r.kind == Res::ViewNoMime || r.kind == Res::Both) add("\"bufferView\":0");
	if (!r.uri.empty()) add("\"uri\":" + text(r.uri));
	if (!mime.empty() && r.kind != Res::ViewNoMime) add("\"mimeType\":\"" + mime + "\"");
	return s + "}";
}
static void check(const char* key, const std::string& what, const std::string& doc, fg::Options opt, Log& log, bool decode, const std::vector<Want>& wants, bool image, bool lateError = false) {
	log.calls.clear(); log.mem.clear(); log.next = 100; log.wrong.clear();
	fg::Parser p(ALL_EXT); if (log.mode != NoMap) p.setBufferAllocationCallback(mapCb, log.mode == MapNoUnmap ? nullptr : unmapCb); if (decode) p.setBase64DecodeCallback(decodeCb); p.setUserPointer(&log);
	mc::step(); mc::state(mc::hash(what + doc)); mc::context(key); mc::note("%s", what.c_str());
	int f = g_fault; g_fault = 0; g_given = 0; g_hit = false;
	Exact e(doc.data(), doc.size()); auto data = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(e.data()), e.n);
	g_fault = f; auto a = p.loadGltf(data.get(), scratch().dir, opt); g_fault = 0;
	bool wantError = lateError; for (auto& w : wants) wantError |= w.error;
	std::string K = std::string(key) + ":";
	auto bad = [&](const std::string& k, const std::string& d) { mc::fail(K + k, what + ": " + d); };
	mc::outcome(mc::hash(fg::getErrorName(a.error())));
	if (!log.wrong.empty()) bad("callback", log.wrong);
	for (auto& m : log.mem) { for (size_t i = 0; i < GUARD; ++i) if (m.mem[i] != 0x77 || m.mem[GUARD + m.size + i] != 0x77) { bad("guard", "bytes outside the mapped memory written"); break; } }
	if (log.mode == Map) { // paired, whatever happens
		std::multiset<uint64_t> open; for (auto& m : log.mem) open.insert(m.id); size_t un = 0; for (auto& c : log.calls) if (c[0] == 'u') { ++un; auto it = open.find(strtoull(c.c_str() + 6, nullptr, 10)); if (it == open.end()) bad("unmap", c); else open.erase(it); } if (!open.empty() || un != log.mem.size()) bad("unpaired", mc::fmt("%zu mapped, %zu unmapped", log.mem.size(), un));
	}
	if (log.mode == NoMap && !log.calls.empty() && log.calls[0][0] != 'd') bad("callback", "called although none is set");
	if (wantError != (a.error() != fg::Error::None)) return bad(wantError ? "accepted" : "rejected", std::string(fg::getErrorName(a.error())));
	if (wantError) return;
	mc::nontrivial();
	std::vector<std::string> calls; for (auto& w : wants) for (auto& c : w.calls) calls.push_back(c);
	auto join = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + " "; return s; };
	if (calls != log.calls) bad("calls", "got " + join(log.calls) + "instead of " + join(calls));
	size_t nm = 0; dump::D d;
	size_t have = image ? a->images.size() : a->buffers.size(); if (have != wants.size()) return bad("number", std::to_string(have));
	for (size_t i = 0; i < wants.size(); ++i) {
		auto& w = wants[i]; auto got = d.source(image ? a->images[i].data : a->buffers[i].data);
		if (!w.source.empty() && w.source != got && !(w.source.size() > 5 && w.source.substr(w.source.size() - 5) == "lax*" )) bad("source", "got " + got.substr(0, 200) + " instead of " + w.source.substr(0, 200));
		if (w.custom) { if (nm >= log.mem.size() || log.mem[nm].size != w.bytes.size() || memcmp(log.mem[nm].mem.get() + GUARD, w.bytes.data(), w.bytes.size())) bad("mapped bytes", mc::fmt("resource %zu", i)); ++nm; }
	}
}
static const char* const OPTN[] = { "none", "buffers", "images", "both" };
static fg::Options optOf(unsigned o) { return (o & 1 ? fg::Options::LoadExternalBuffers : fg::Options::None) | (o & 2 ? fg::Options::LoadExternalImages : fg::Options::None); }

static void resources() {
	bool image = mc::flip(), pair = mc::flip(); std::vector<Res> rs; for (int i = 0; i < 1 + pair; ++i) rs.push_back(pickRes(image, pair));
	if (!mc::mine()) return;
	unsigned o = mc::choose(4); Log log; log.mode = Mode(mc::choose(MODES)); bool decode = mc::flip();
	std::string mime; if (image) { static const char* const im[] = { "", "image/jpeg", "image/png", "image/webp", "application/x-unknown" }; mime = pair ? im[mc::choose(2)] : mc::pick(im); }
	if (pair && rs[1].kind == Res::File && rs[0].kind == Res::File) { rs[1].uri = "second.bin"; rs[1].file = "second.bin"; rs[1].bytes = payload(12, 3); }
	int fault = 0;
#if !defined(__SANITIZE_ADDRESS__)
	bool extFile = false; for (auto& r : rs) extFile |= r.kind == Res::File && (o & (image ? 2 : 1)) && r.state == 0; 
	g_after = 0; if (extFile) { // a fault hits somewhere in the bytes which are read
		fault = int(mc::choose(5)); size_t total = 0; for (auto& r : rs) if (r.kind == Res::File && r.state == 0) total += r.bytes.size();
		if (fault == 1 || fault == 2) { if (!total) return; unsigned after = mc::choose(3); g_after = after == 0 ? 0 : after == 1 ? total / 2 : total - 1; if (after && g_after == 0) return; }
	}
#endif
	std::vector<Want> ws; uint64_t id = 100; std::string items, what = mc::fmt("%s, options %s, callbacks %d%s, mime '%s', fault %d after %zu:", image ? "image" : "buffer", OPTN[o], int(log.mode), decode ? "+decode" : "", mime.c_str(), fault, g_after);
	for (size_t i = 0; i < rs.size(); ++i) {
		auto& r = rs[i]; if (r.kind == Res::View && mime.empty()) r.kind = Res::ViewNoMime; if (r.kind == Res::File) prepare(r);
		bool mine = fault != 0 && fault != 3 && r.kind == Res::File && (o & (image ? 2 : 1)) && r.state == 0;
		auto w = expect(r, (o & (image ? 2 : 1)) != 0, log.mode, decode, image ? mime : "", id, mine); if (w.custom) ++id; ws.push_back(w);
		items += (i ? "," : "") + item(r, image, mime); what += mc::fmt(" [kind %d '%s' %zu bytes state %d]", int(r.kind), r.uri.substr(0, 40).c_str(), r.bytes.size(), r.state);
	}
	std::string doc = "{\"asset\":{\"version\":\"2.0\"},\"" + std::string(image ? "images" : "buffers") + "\":[" + items + "]}";
	g_fault = fault; check(image ? "image" : "buffer", what, doc, optOf(o), log, decode, ws, image);
}
// The binary chunk of a GLB: which buffers get it.
static void glb() {
	static const size_t sizes[] = { 1, 4, 5, 64, 70000 }; size_t n = mc::pick(sizes); unsigned layout = mc::choose(8), o = mc::choose(2);
	if (!mc::mine()) return;
	Log log; log.mode = Mode(mc::choose(MODES)); bool decode = mc::flip();
	std::string bin = payload(n, 5), padded = bin; while (padded.size() % 4) padded += '\0';
	Res file{ Res::File, "ext.bin", payload(9, 6), "", "ext.bin", 0 }; prepare(file);
	Res data{ Res::Data, "data:application/octet-stream;base64," + b64("abcde"), "abcde", "application/octet-stream", "", 0 };
	std::string own = mc::fmt("{\"byteLength\":%zu}", n); std::vector<std::string> bufs; bool need = false; // layouts
	uint64_t id = 100; std::vector<Want> ws; Want chunk; if (log.mode != NoMap) chunk.calls.push_back(mc::fmt("map(%zu)", padded.size())); chunk.custom = log.mode == Map || log.mode == MapNoUnmap; if (log.mode == Map) chunk.calls.push_back("unmap(100)"); chunk.bytes = padded; bool error = false;
	Want mine = chunk; mine.calls.clear();
	std::string note; auto owned = [&] { bufs.push_back(own); ws.push_back(mine); }; if (chunk.custom) ++id;
	auto other = [&](const Res& r) { bufs.push_back(item(r, false, "")); auto w = expect(r, o & 1, log.mode, decode, "", id, false); if (w.custom) ++id; ws.push_back(w); };
	auto dangling = [&] { bufs.push_back(own); error = true; ws.push_back(Want{}); };
	switch (layout) { case 0: owned(); break; case 1: owned(); other(data); break; case 2: owned(); other(file); break; case 3: other(data); break; case 4: other(data); dangling(); break; case 5: owned(); dangling(); break; case 6: break; case 7: other(file); owned(); error = true; break; }
	(void)need; std::string doc = "{\"asset\":{\"version\":\"2.0\"}"; if (!bufs.empty()) { doc += ",\"buffers\":["; for (size_t i = 0; i < bufs.size(); ++i) doc += (i ? "," : "") + bufs[i]; doc += "]"; } doc += "}";
	// the chunk is read before anything else
	bool used = layout <= 2 || layout == 5; size_t shift = used ? 0 : 1;
	auto bytes = glbOf(doc, &bin); std::string what = mc::fmt("GLB chunk of %zu bytes, layout %u, options %s, callbacks %d%s", n, layout, OPTN[o], int(log.mode), decode ? "+decode" : "");
	// expected log: the chunk first
	if (!ws.empty()) ws[0].calls.insert(ws[0].calls.begin(), chunk.calls.begin(), chunk.calls.end());
	log.calls.clear(); log.mem.clear();
	fg::Parser p(ALL_EXT); if (log.mode != NoMap) p.setBufferAllocationCallback(mapCb, log.mode == MapNoUnmap ? nullptr : unmapCb); if (decode) p.setBase64DecodeCallback(decodeCb); p.setUserPointer(&log);
	mc::step(); mc::state(mc::hash(what)); mc::context("glb"); mc::note("%s", what.c_str());
	StrictGetter g(bytes); auto a = p.loadGltf(g, scratch().dir, optOf(o)); auto bad = [&](const std::string& k, const std::string& d) { mc::fail("glb:" + k, what + ": " + d); };
	mc::outcome(mc::hash(fg::getErrorName(a.error())));
	if (!g.wrong.empty()) bad("read", g.wrong); if (!log.wrong.empty()) bad("callback", log.wrong);
	for (auto& m : log.mem) for (size_t i = 0; i < GUARD; ++i) if (m.mem[i] != 0x77 || m.mem[GUARD + m.size + i] != 0x77) { bad("guard", "bytes outside the mapped memory written"); break; }
	if (log.mode == Map && std::count_if(log.calls.begin(), log.calls.end(), [](auto& c) { return c[0] == 'u'; }) != long(log.mem.size())) bad("unpaired", "");
	if (error != (a.error() != fg::Error::None)) return bad(error ? "accepted" : "rejected", std::string(fg::getErrorName(a.error())));
	if (error) return;
	mc::nontrivial(); std::vector<std::string> calls; for (auto& w : ws) calls.insert(calls.end(), w.calls.begin(), w.calls.end());
	if (layout == 6) calls = chunk.calls;
	auto join = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + " "; return s; };
	if (calls != log.calls) bad("calls", "got " + join(log.calls) + "instead of " + join(calls));
	if (a->buffers.size() != ws.size()) return bad("number", std::to_string(a->buffers.size()));
	dump::D d; size_t nm = shift;
	for (size_t i = 0; i < ws.size(); ++i) {
		auto& w = ws[i]; auto got = d.source(a->buffers[i].data);
		if (i == 0 && used) { // the chunk itself; its MIME type is that of a glTF buffer or none
			std::string want = w.custom ? "custom:100" : "bytes:" + dump::D::hexs(reinterpret_cast<const std::byte*>(padded.data()), padded.size());
			if (got != want + " mime:none" && got != want + " mime:application/gltf-buffer") bad("chunk", "got " + got.substr(0, 100));
			if (w.custom && (log.mem.empty() || log.mem[0].size != padded.size() || memcmp(log.mem[0].mem.get() + GUARD, padded.data(), padded.size()))) bad("mapped chunk", ""); if (w.custom) nm = 1;
		} else { if (got != w.source) bad("source", "got " + got.substr(0, 200) + " instead of " + w.source.substr(0, 200)); if (w.custom) { if (nm >= log.mem.size() || log.mem[nm].size != w.bytes.size() || memcmp(log.mem[nm].mem.get() + GUARD, w.bytes.data(), w.bytes.size())) bad("mapped bytes", mc::fmt("%zu", i)); ++nm; } }
	}
}
static void model() { if (mc::flip()) glb(); else resources(); }
MC_MAIN(model)

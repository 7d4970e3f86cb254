// C11: histories of one parser: loads of different documents with different options and callbacks, moves of parsers and assets.
// Every load has to give what a fresh parser gives; every asset alive stays what it was when it was loaded; nothing leaks.
#include "load.hpp"
#include "sources.hpp"
#include <simdjson.h>

static const Scratch& scratch() { static Scratch s; return s; }
struct Doc { std::string name, bytes; fg::Options opt; fg::Category cat; fs::path dir; int how = 0; };
static std::string b(const char* s) { return s; }
static const std::vector<Doc>& docsList() {
	static const std::vector<Doc> all = [] {
		std::vector<Doc> v; auto A = fg::Category::All; using O = fg::Options; auto add = [&](const char* n, const std::string& s, O o, fg::Category c = fg::Category::All, fs::path d = {}, int how = 0) { v.push_back({ n, s, o, c, d, how }); };
		std::string asset = "\"asset\":{\"version\":\"2.0\",\"generator\":\"a generator of considerable length\"}", bin = "0123456789abcdef";
		scratch().write("ext.bin", "external bytes");
		add("no uri", "{" + asset + ",\"buffers\":[{\"byteLength\":4}]}", O::None);
		add("glb with chunk", glbOf("{" + asset + ",\"buffers\":[{\"byteLength\":16,\"name\":\"the buffer in the binary chunk\",\"extras\":{\"a\":1}}]}", &bin), O::None);
		add("glb without chunk", glbOf("{" + asset + ",\"buffers\":[{\"byteLength\":16}]}", nullptr), O::None);
		add("glb with chunk failing", glbOf("{" + asset + ",\"buffers\":[{\"byteLength\":16}],\"nodes\":[{\"mesh\":-1}]}", &bin), O::None);
		add("glb with unused chunk", glbOf("{" + asset + ",\"buffers\":[{\"byteLength\":2,\"uri\":\"data:image/png;base64,AAE=\"}]}", &bin), O::None);
		add("glb with broken json", glbOf("{" + asset, &bin), O::None);
		add("core", jtext(docs::core(), 0), O::None);
		add("extensions", jtext(docs::ext(), 0), O::DecomposeNodeMatrices);
		add("not json", "{\"asset\":{", O::None);
		add("late error", "{" + asset + ",\"buffers\":[{\"byteLength\":2,\"uri\":\"data:image/png;base64,AAE=\",\"extras\":{}}],\"nodes\":[{\"name\":\"a node with a name longer than a small string\",\"extras\":{\"x\":[]}},{\"mesh\":-1}]}", O::None);
		add("no asset", "{\"scenes\":[{\"name\":\"s\",\"nodes\":[0]}],\"nodes\":[{\"name\":\"a node with a name longer than a small string\",\"matrix\":[2,0,0,0,0,3,0,0,0,0,4,0,5,-6,7.5,1],\"extras\":{\"q\":\"text\"}}]}", O::DontRequireValidAssetMember);
		add("no asset, required", "{\"scenes\":[]}", O::None);
		add("external", "{" + asset + ",\"buffers\":[{\"byteLength\":14,\"uri\":\"ext.bin\"}]}", O::LoadExternalBuffers, A, scratch().dir);
		add("external, no directory", "{" + asset + ",\"buffers\":[{\"byteLength\":14,\"uri\":\"ext.bin\"}]}", O::LoadExternalBuffers);
		add("external image missing", "{" + asset + ",\"images\":[{\"uri\":\"missing.png\"}]}", O::LoadExternalImages, A, scratch().dir);
		add("not loaded", "{" + asset + ",\"buffers\":[{\"byteLength\":14,\"uri\":\"ext.bin\"}],\"images\":[{\"uri\":\"missing.png\"}]}", O::None, A, scratch().dir);
		add("indices", "{" + asset + ",\"accessors\":[{\"componentType\":5126,\"count\":6,\"type\":\"VEC3\"}],\"meshes\":[{\"primitives\":[{\"attributes\":{\"POSITION\":0}}]}]}", O::GenerateMeshIndices);
		add("nodes only", jtext(docs::core(), 0), O::None, fg::Category::Nodes);
		add("glb read as json", glbOf("{" + asset + "}", &bin), O::None, A, {}, 1);
		return v;
	}();
	return all;
}
// ---- callbacks, logged
enum Mode { NoCb, AllCb, MapNull, MODES };
struct Log { std::vector<std::string> calls; std::vector<std::pair<uint64_t, std::unique_ptr<char[]>>> mem; std::vector<size_t> size; Mode mode; };
static fg::BufferInfo mapCb(std::uint64_t n, void* u) { auto& l = *static_cast<Log*>(u); l.calls.push_back(mc::fmt("map %llu", (unsigned long long)n)); if (l.mode == MapNull) return { nullptr, 3 }; l.mem.emplace_back(l.mem.size() + 1, new char[n]); l.size.push_back(n); return { l.mem.back().second.get(), l.mem.back().first }; }
static void unmapCb(fg::BufferInfo* i, void* u) { auto& l = *static_cast<Log*>(u); std::string s = "unmap"; for (size_t k = 0; k < l.mem.size(); ++k) if (l.mem[k].first == i->customId) s += mc::fmt(" %zu ", k) + hex(l.mem[k].second.get(), l.size[k]); l.calls.push_back(s); }
static void decodeCb(std::string_view t, std::uint8_t* o, std::size_t, std::size_t n, void* u) { static_cast<Log*>(u)->calls.push_back("decode " + std::string(t)); auto d = b64dec(t); memcpy(o, d.data(), std::min(n, d.size())); }
static void extrasCb(simdjson::dom::object* o, std::size_t i, fg::Category c, void* u) { std::ostringstream s; s << simdjson::minify(*o); static_cast<Log*>(u)->calls.push_back(mc::fmt("extras %zu %llu ", i, (unsigned long long)c) + s.str()); }
static void setMode(fg::Parser& p, Mode m) {
	if (m == NoCb) { p.setBufferAllocationCallback(nullptr); p.setBase64DecodeCallback(nullptr); p.setExtrasParseCallback(nullptr); }
	else { p.setBufferAllocationCallback(mapCb, unmapCb); p.setBase64DecodeCallback(m == AllCb ? decodeCb : nullptr); p.setExtrasParseCallback(m == AllCb ? extrasCb : nullptr); }
}
struct Result { fg::Error err; std::string text; std::vector<std::string> calls; };
static std::string textOf(const fg::Asset& a) { std::string s; for (auto& [k, v] : dump::asset(a, ALL_EXT)) s += k + "=" + v + "\n"; s += "categories " + std::to_string(static_cast<uint64_t>(a.availableCategories)); return s; }
static fg::Expected<fg::Asset> loadDoc(fg::Parser& p, const Doc& d) {
	Exact e(d.bytes.data(), d.bytes.size()); auto data = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(e.data()), e.n);
	return d.how == 1 ? p.loadGltfJson(data.get(), d.dir, d.opt, d.cat) : p.loadGltf(data.get(), d.dir, d.opt, d.cat);
}
static const Result& fresh(size_t doc, bool ext, Mode m) {
	static std::map<std::tuple<size_t, bool, Mode>, Result> cache; auto key = std::make_tuple(doc, ext, m); auto it = cache.find(key); if (it != cache.end()) return it->second;
	Log l; l.mode = m; fg::Parser p(ext ? ALL_EXT : fg::Extensions::None); setMode(p, m); p.setUserPointer(&l);
	auto a = loadDoc(p, docsList()[doc]); return cache.emplace(key, Result{ a.error(), a.error() == fg::Error::None ? textOf(a.get()) : "", l.calls }).first->second;
}
struct Slot { std::unique_ptr<fg::Asset> a; std::string text; };

static uint64_t g_seen[64]; static unsigned g_nSeen; static void seen(uint64_t h) { if (g_nSeen < 64) g_seen[g_nSeen++] = h; } // recorded after the execution: the explorer's tables must not count as memory in use

// Under AddressSanitizer a choice of the documents only.
static unsigned chooseDoc() {
#if defined(__SANITIZE_ADDRESS__) || defined(C11_SOME)
	if (!mc::thorough()) { static const unsigned some[] = { 0, 1, 2, 3, 7, 9, 10, 12 }; return mc::pick(some); }
#endif
	return mc::choose(unsigned(docsList().size()));
}
static void run(std::string& hist) {
	unsigned depth = mc::thorough() ? 4 : 3;
	Log log; log.mode = NoCb; bool ext = true; Mode mode = NoCb; auto p = std::make_unique<fg::Parser>(ALL_EXT); p->setUserPointer(&log); Slot s[2]; unsigned loads = 0;
	auto& D = docsList();
	for (unsigned i = 0; i < depth; ++i) {
		unsigned op = mc::choose(10); // 0: load
		if (op == 0) {
			unsigned d = chooseDoc(), m = mc::choose(MODES + 1); if (i == 1 && !mc::mine()) return;
			if (m < MODES) { mode = Mode(m); setMode(*p, mode); } log.mode = mode; log.calls.clear(); log.mem.clear(); log.size.clear();
			hist += (i ? "; " : "") + D[d].name + (m == MODES ? " (callbacks as before)" : m == NoCb ? "" : m == AllCb ? " (callbacks)" : " (allocation refused)"); mc::context(""); mc::note("%s", hist.c_str()); mc::step();
			auto& want = fresh(d, ext, mode); auto a = loadDoc(*p, D[d]); seen(mc::hash(hist)); 
			if (a.error() != want.err) { mc::fail("error:" + D[d].name, hist + ": " + std::string(fg::getErrorName(a.error())) + " instead of " + std::string(fg::getErrorName(want.err))); return; }
			if (log.calls != want.calls) { mc::fail("callbacks:" + D[d].name, hist + mc::fmt(": %zu calls instead of %zu", log.calls.size(), want.calls.size())); return; }
			if (want.err == fg::Error::None) { auto& t = s[loads++ & 1]; t.a = std::make_unique<fg::Asset>(std::move(a.get())); t.text = want.text; if (textOf(*t.a) != want.text) { mc::fail("result:" + D[d].name, hist); return; } }
		} else {
			if (i == 1 && !mc::mine()) return;
			mc::step(); hist += (i ? "; " : "");
			switch (op) {
				case 1: { auto n = std::make_unique<fg::Parser>(std::move(*p)); p = std::move(n); hist += "parser move"; break; }
				case 2: { auto n = std::make_unique<fg::Parser>(fg::Extensions::None); (void)loadDoc(*n, D[1]); *n = std::move(*p); p = std::move(n); hist += "parser moved onto a used one"; break; }
				case 3: { fg::Parser n(fg::Extensions::None); n.setUserPointer(&log); (void)loadDoc(n, D[6]); *p = std::move(n); ext = false; mode = NoCb; hist += "another used parser moved in"; break; }
				case 4: { p.reset(); p = std::make_unique<fg::Parser>(ALL_EXT); p->setUserPointer(&log); mode = NoCb; ext = true; hist += "parser replaced"; break; }
				case 5: if (!s[0].a) return; s[0].a = std::make_unique<fg::Asset>(std::move(*s[0].a)); hist += "asset 0 move"; break;
				case 6: if (!s[0].a || !s[1].a) return; *s[1].a = std::move(*s[0].a); s[1].text = s[0].text; s[0].a.reset(); hist += "asset 0 moved onto 1"; break;
				case 7: if (!s[0].a || !s[1].a) return; *s[0].a = std::move(*s[1].a); s[0].text = s[1].text; s[1].a.reset(); hist += "asset 1 moved onto 0"; break;
				case 8: if (!s[0].a) return; s[0].a.reset(); hist += "asset 0 destroyed"; break;
				case 9: if (!s[0].a) return; { fg::Asset n; n = std::move(*s[0].a); s[0].a = std::make_unique<fg::Asset>(std::move(n)); } hist += "asset 0 moved through an empty one"; break;
			}
			mc::note("%s", hist.c_str()); mc::nontrivial();
		}
	}
	if (!mc::mine()) return;
	for (int k = 0; k < 2; ++k) if (s[k].a && textOf(*s[k].a) != s[k].text) { mc::fail("asset changed", hist + mc::fmt(": asset %d", k)); return; }
	bool parserFirst = hist.size() % 4 == 1; if (parserFirst) { p.reset(); for (auto& x : s) if (x.a && textOf(*x.a) != x.text) mc::fail("asset changed with its parser's end", hist); }
}
static void model() {
	static bool warm = [] { for (size_t d = 0; d < docsList().size(); ++d) for (int m = 0; m < MODES; ++m) for (int e = 0; e < 2; ++e) { fresh(d, e, Mode(m)); } return true; }(); (void)warm;
	mc::g_path.reserve(mc::MAXDEPTH); g_nSeen = 0; size_t before = mc::liveBytes();
	{ std::string hist; run(hist); }
	size_t after = mc::liveBytes();
	if (after != before && !mc::g_failed && mc::g_notes.empty()) mc::fail("memory", mc::fmt("%zu bytes still allocated", after - before));
	for (unsigned i = 0; i < g_nSeen; ++i) { mc::state(g_seen[i]); mc::outcome(g_seen[i] * 31 + i); }
}
MC_MAIN(model)

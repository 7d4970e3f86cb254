// C14: exporting to files. Names, folders and kinds of sources in every combination of up to three resources, into an
// arbitrary target path; the n-th call to the operating system fails, for every n.
#include "exporting.hpp"
#include "sources.hpp"
#include "write_faults.hpp"

struct Item { bool image; int kind; std::string name; fg::MimeType mime; std::string bytes; }; // kind 0 array 1 vector 2 view 3 URI
static std::string payload(size_t n, unsigned seed) { std::string s; for (size_t i = 0; i < n; ++i) s += char((i * 37 + seed * 101 + (i >> 8)) & 255); return s; }
static fg::DataSource sourceOf(const Item& it, std::vector<std::string>& keep) {
	auto b = reinterpret_cast<const std::byte*>(it.bytes.data());
	switch (it.kind) {
		case 0: { return fg::sources::Array { fg::StaticVector<std::byte>::fromVector(std::vector<std::byte>(b, b + it.bytes.size())), it.mime }; }
		case 1: { fg::sources::Vector v; v.bytes.assign(b, b + it.bytes.size()); v.mimeType = it.mime; return v; }
		case 2: { keep.push_back(it.bytes); fg::sources::ByteView v; v.bytes = fg::span<const std::byte>(reinterpret_cast<const std::byte*>(keep.back().data()), keep.back().size()); v.mimeType = it.mime; return v; }
		default: { fg::sources::URI u; u.uri = fg::URI(std::string_view(it.name)); u.mimeType = it.mime; return u; }
	}
}
static fg::Asset build(const std::vector<Item>& items, std::vector<std::string>& keep) {
	fg::Asset a; keep.reserve(8); a.assetInfo = fg::AssetInfo{}; a.assetInfo->gltfVersion = "2.0";
	for (auto& it : items) {
		if (it.image) { auto& i = a.images.emplace_back(); if (it.kind != 3) i.name = it.name; i.data = sourceOf(it, keep); }
		else { auto& b = a.buffers.emplace_back(); if (it.kind != 3) b.name = it.name; b.data = sourceOf(it, keep); b.byteLength = it.bytes.size(); }
	}
	return a;
}
static std::string slurp(const fs::path& p) { std::ifstream f(p, std::ios::binary); return std::string(std::istreambuf_iterator<char>(f), {}); }
static Scratch& scratch() { static Scratch s; return s; }
struct Config { unsigned form, folder, target; bool relative; };
static const char* const FOLDERS[][2] = { { "", "" }, { "sub", "sub" }, { "buf", "img/deep/er" }, { "a b#c%d", "./x/../y" }, { "/abs", "/abs" } };
static const char* const TARGETS[] = { "out.gltf", "new/out.gltf", "new/er/out.gltf", "we ird#%.bin", "buffer0.bin" };
// Everything happens at the bottom of a deep directory, so that even paths which escape stay inside of the scratch directory.
static fs::path root() { return scratch().dir / "r"; }
static fs::path home() { return root() / "1" / "2" / "3" / "4"; }

static void fail(const std::string& k, const std::string& what, const std::string& d) { mc::fail(k, what + ": " + d); }
static fg::Error exportIt(fg::FileExporter& e, const fg::Asset& a, const Config& c) {
	fs::path t = TARGETS[c.target]; if (!c.relative) t = home() / t;
	if (c.folder) { e.setBufferPath(FOLDERS[c.folder][0]); e.setImagePath(FOLDERS[c.folder][1]); }
	return c.form == 2 ? e.writeGltfBinary(a, t) : e.writeGltfJson(a, t, c.form == 1 ? fg::ExportOptions::PrettyPrintJson : fg::ExportOptions::None);
}
static void fresh() { std::error_code ec; fs::current_path(scratch().dir); fs::remove_all(root(), ec); fs::create_directories(home()); fs::current_path(home()); }
// After a reported success: the tree holds exactly the document and one file per resource, and loads to the same data.
static void complete(const std::vector<Item>& items, const fg::Asset& a, const Config& c, const std::string& what) {
	fs::path target = home() / TARGETS[c.target], dir = target.parent_path();
	std::map<std::string, std::string> files; for (auto& e : fs::recursive_directory_iterator(root())) if (e.is_regular_file()) files[e.path().lexically_normal().string()] = slurp(e.path());
	if (!files.count(target.lexically_normal().string())) return fail("document", what, "no document was written");
	size_t data = 0; bool embedded = c.form == 2 && !items.empty() && !items[0].image && items[0].kind != 3; for (auto& i : items) data += i.kind != 3; if (embedded) --data;
	std::string doc = files[target.lexically_normal().string()], json = doc, bin; bool hasBin = false;
	if (c.form == 2) { auto w = takeApart(doc, json, bin, hasBin); if (!w.empty()) return fail("document", what, w); } J j; if (auto w = jparse(json, j); !w.empty()) return fail("document", what, w);
	for (auto& f : files) { auto rel = fs::path(f.first).lexically_relative(dir.lexically_normal()).string(); if (rel.empty() || rel.substr(0, 3) == "../") fail("outside", what, f.first + " is outside of the target folder"); }
	if (files.size() != data + 1) { std::string l; for (auto& f : files) l += f.first + " "; return fail("files", what, mc::fmt("%zu files for %zu resources: ", files.size(), data) + l); }
	// load from disk (the resources which were external before do not exist; they are put there)
	for (auto& i : items) if (i.kind == 3) { auto p = dir / fg::URI(std::string_view(i.name)).fspath(); std::error_code ec; fs::create_directories(p.parent_path(), ec); if (fs::exists(p)) return fail("reference", what, p.string() + " was overwritten"); std::ofstream(p, std::ios::binary) << i.bytes; }
	fg::Parser p; auto d = fg::GltfDataBuffer::FromPath(target); if (d.error() != fg::Error::None) return fail("load", what, "cannot be read");
	auto l = p.loadGltf(d.get(), dir, fg::Options::LoadExternalBuffers | fg::Options::LoadExternalImages); if (l.error() != fg::Error::None) return fail("load", what, std::string(fg::getErrorName(l.error())) + ": " + json);
	if (l->buffers.size() != a.buffers.size() || l->images.size() != a.images.size()) return fail("load", what, "number of resources");
	size_t b = 0, im = 0; for (auto& i : items) {
		auto& s = i.image ? l->images[im++].data : l->buffers[b++].data; size_t n; auto q = bytesOf(s, n); bool first = embedded && !i.image && b == 1;
		if (!q && n == 0 && !hasBytes(s)) return fail("contents", what, "resource " + i.name + " was not loaded");
		if (first ? n < i.bytes.size() || n - i.bytes.size() > 3 : n != i.bytes.size()) return fail("contents", what, mc::fmt("resource '%s' has %zu instead of %zu bytes", i.name.c_str(), n, i.bytes.size()));
		if (memcmp(q, i.bytes.data(), i.bytes.size())) return fail("contents", what, "bytes of resource " + i.name);
		if (i.image) { auto m = std::visit([](auto& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, fg::sources::Array>) return x.mimeType; else return fg::MimeType::None; }, s); if (i.mime != fg::MimeType::None && m != i.mime) fail("mime", what, i.name); }
	}
	mc::nontrivial();
}
static void run(const std::vector<Item>& items, const Config& c, bool faults, bool mayFail) {
	std::vector<std::string> keep; auto a = build(items, keep); std::string what = mc::fmt("%s, folders '%s' '%s', target %s%s:", FORMN[c.form], FOLDERS[c.folder][0], FOLDERS[c.folder][1], c.relative ? "relative " : "", TARGETS[c.target]);
	for (auto& i : items) what += mc::fmt(" [%s kind %d '%s' %s %zu bytes]", i.image ? "image" : "buffer", i.kind, i.name.c_str(), dump::D::mime(i.mime).c_str(), i.bytes.size());
	fresh(); fg::FileExporter e; g_failnext = false; g_whit = false; g_wkind = WF_NONE; g_wat = -1; g_wcalls = 0; g_wfds.clear();
	auto note = [&] { mc::step(); mc::state(mc::hash(what)); mc::context("export"); mc::note("%s", what.c_str()); };
	if (!faults) {
		note(); auto r = exportIt(e, a, c); mc::outcome(mc::hash(fg::getErrorName(r)));
		if (r != fg::Error::None) { if (!mayFail) fail("error", what, std::string(fg::getErrorName(r))); return; }
		return complete(items, a, c, what);
	}
#if !defined(__SANITIZE_ADDRESS__)
	g_watch = true; auto r = exportIt(e, a, c); g_watch = false; if (r != fg::Error::None) { if (!mayFail) fail("error", what, std::string(fg::getErrorName(r))); return; }
	long n = g_wcalls; if (!n) mc::die("no call was intercepted"); fresh(); g_wat = long(mc::choose(unsigned(n))); g_wkind = 1 + int(mc::choose(3)); g_wcalls = 0; bool reuse = mc::flip(); fg::FileExporter e2;
	what += mc::fmt(" fault %d at call %ld of %ld", g_wkind, g_wat, n); note();
	auto& x = reuse ? e : e2; g_watch = true; r = exportIt(x, a, c); g_watch = false; bool hit = g_whit; what += " (" + g_wwhat + ")"; mc::outcome(mc::hash(std::string(fg::getErrorName(r)) + g_wwhat));
	if (!hit) return fail("nondeterministic", what, "the fault was not reached");
	bool harmless = g_wkind == WF_SHORT && g_wwhat == "write";
	if (r == fg::Error::None) { if (!harmless && g_wkind != WF_SHORT_THEN_FAIL) return fail("unreported", what, "success although " + g_wwhat + " failed"); complete(items, a, c, what); }
	else { mc::nontrivial(); if (harmless) return fail("error", what, std::string(fg::getErrorName(r))); }
	// the exporter works again afterwards
	g_failnext = false; fresh(); r = exportIt(x, a, c); if (r != fg::Error::None) return fail("error", what + " then again", std::string(fg::getErrorName(r))); complete(items, a, c, what + " then again");
#endif
}
static const std::vector<std::string>& names() {
	static const std::vector<std::string> n{ "", "a", "A.b", "a_0", "buffer0", "buffer1", "image0", "image1", "../x", "../../../y", "a/b", "/", "..", ".", root().string() + "/esc", "a\\b", "100%", "x%20y", "q?r#s", "s p", "c:\\d", "t\tn\n", "é", std::string(60, 'n'), "\"q\"" };
	return n;
}
static void model() {
	static const fg::MimeType M[] = { fg::MimeType::PNG, fg::MimeType::JPEG, fg::MimeType::KTX2, fg::MimeType::DDS, fg::MimeType::WEBP };
	auto& N = names(); std::vector<Item> items; Config c{ 0, 0, 0, false };
	switch (mc::choose(6)) {
		case 0: { // two resources, all names
			int pattern = int(mc::choose(3)); auto& n1 = mc::pick(N); auto& n2 = mc::pick(N); if (!mc::mine()) return; c.form = mc::choose(2) * 2; c.folder = mc::choose(3);
			items.push_back({ pattern == 2, 0, n1, pattern == 2 ? fg::MimeType::None : fg::MimeType::GltfBuffer, payload(5, 1) }); items.push_back({ pattern >= 1, 0, n2, pattern >= 1 ? (pattern == 2 ? fg::MimeType::None : fg::MimeType::PNG) : fg::MimeType::GltfBuffer, payload(7, 2) });
			if (pattern == 2) { items[0].mime = items[1].mime = fg::MimeType::PNG; } run(items, c, false, false); break; }
		case 1: { // three resources with related names, one of them may be external
			static const char* const r[] = { "", "a", "buffer1", "buffer2", "buffer1_0", "a_0", "image0" }; static const char* const ext[] = { "buffer0.bin", "a.bin", "a_0.bin", "sub/a.bin", "./buffer1.bin", "a%2Ebin", "x.png", "image0.png" };
			unsigned where = mc::choose(4); bool im = mc::flip(); std::vector<std::string> n; for (unsigned i = 0; i < 3; ++i) n.push_back(where == i ? std::string(mc::pick(ext)) : std::string(mc::pick(r))); if (!mc::mine()) return; c.form = mc::choose(3); c.folder = mc::choose(2);
			for (unsigned i = 0; i < 3; ++i) { bool isImage = im && i == 2; items.push_back({ isImage, where == i ? 3 : 0, n[i], isImage ? fg::MimeType::PNG : fg::MimeType::None, payload(4 + i, 7 + i) }); }
			run(items, c, false, false); break; }
		case 2: { // configurations, sources, sizes
			c.form = mc::choose(3); c.folder = mc::choose(5); c.target = mc::choose(5); c.relative = mc::flip(); if (!mc::mine()) return;
			static const size_t sizes[] = { 1, 4, 4096, 70001 }; size_t n = mc::pick(sizes); int k = int(mc::choose(3)), k2 = int(mc::choose(3)); auto m = mc::pick(M);
			items.push_back({ false, k, "", fg::MimeType::None, payload(n, 3) }); items.push_back({ false, k2, "second", fg::MimeType::None, payload(n + 1, 4) }); items.push_back({ true, k, "pic", m, payload(n + 2, 5) }); items.push_back({ true, k2, "pic", m, payload(n + 3, 6) });
			bool clash = c.target == 4 && c.folder % 4 == 0 && c.form != 2; run(items, c, false, clash); break; }
		case 3: { // every fault at every call
			c.form = mc::choose(3); c.folder = mc::choose(3); c.target = mc::choose(3); c.relative = mc::flip(); static const size_t sizes[] = { 3, 70001 }; size_t n = mc::pick(sizes); unsigned count = mc::choose(6), images = mc::choose(2); if (!mc::mine()) return; if (images && count < 3) return;
			for (unsigned i = 0; i < count; ++i) items.push_back({ images ? i >= 1 : i >= 2, int((i + images) % 3), i == 1 ? "named" : "", (images ? i >= 1 : i >= 2) ? fg::MimeType::JPEG : fg::MimeType::None, payload(n + i, i) }); run(items, c, true, false); break; }
		case 5: { // a directory in the place of every single resource
			c.form = mc::choose(3); c.folder = mc::choose(3); unsigned nb = mc::choose(4), ni = mc::choose(4), kind = mc::choose(3); if (!mc::mine() || nb + ni == 0) return;
			for (unsigned i = 0; i < nb + ni; ++i) items.push_back({ i >= nb, int((kind + i) % 3), mc::fmt("r%u", i), i >= nb ? fg::MimeType::PNG : fg::MimeType::None, payload(5 + i, i) });
			unsigned at = mc::choose(nb + ni); fresh(); std::string what = mc::fmt("%s, folders '%s' '%s', %u buffers and %u images, first kind %u, a directory in the place of resource %u", FORMN[c.form], FOLDERS[c.folder][0], FOLDERS[c.folder][1], nb, ni, kind, at);
			fs::create_directories(home() / FOLDERS[c.folder][at >= nb] / (items[at].name + (at >= nb ? ".png" : ".bin"))); std::vector<std::string> keep; auto a = build(items, keep); bool embedded = c.form == 2 && at == 0 && nb > 0;
			mc::step(); mc::state(mc::hash(what)); mc::context("obstacle"); mc::note("%s", what.c_str()); fg::FileExporter e; auto r = exportIt(e, a, c); mc::outcome(mc::hash(fg::getErrorName(r)));
			if (!embedded && r == fg::Error::None) { // the exporter may have chosen another name
				complete(items, a, c, what); } else if (!embedded) mc::nontrivial(); else if (r != fg::Error::None) fail("error", what, std::string(fg::getErrorName(r))); else complete(items, a, c, what);
			break; }
		case 4: { // things in the way: a directory or a longer file at the place of the document or of a resource, a file at the place of a folder
			c.form = mc::choose(3); unsigned obstacle = mc::choose(6); if (!mc::mine()) return;
			items.push_back({ false, 0, "one", fg::MimeType::None, payload(9, 3) }); items.push_back({ false, 0, "two", fg::MimeType::None, payload(11, 4) }); items.push_back({ true, 0, "pic", fg::MimeType::PNG, payload(13, 5) });
			c.folder = 1; fresh(); std::vector<std::string> keep; auto a = build(items, keep); auto at = home(); bool error = true; std::string old(100000, 'z'); std::string what = mc::fmt("%s obstacle %u", FORMN[c.form], obstacle);
			auto put = [&](const fs::path& p) { fs::create_directories(p.parent_path()); std::ofstream(p) << old; };
			switch (obstacle) { case 0: fs::create_directories(at / "out.gltf"); break; case 1: put(at / "out.gltf"); put(at / "sub/two.bin"); put(at / "sub/pic.png"); error = false; break; case 2: fs::create_directories(at / "sub/two.bin"); break; case 3: fs::create_directories(at / "sub/pic.png"); break; case 4: put(at / "sub"); break; case 5: c.target = 1; put(at / "new"); break; }
			mc::step(); mc::state(mc::hash(what)); mc::context("obstacle"); mc::note("%s", what.c_str()); fg::FileExporter e; auto r = exportIt(e, a, c); mc::outcome(mc::hash(fg::getErrorName(r)));
			if (error) { mc::nontrivial(); if (r == fg::Error::None) fail("unreported", what, "success although a file could not be written"); } else if (r != fg::Error::None) fail("error", what, std::string(fg::getErrorName(r))); else complete(items, a, c, what);
			break; }
	}
}
MC_MAIN(model)

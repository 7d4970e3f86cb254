// C10: no bytes can make loading, validating or exporting misbehave. Nothing is compared; every execution must return
// normally under the sanitizers, within the time and memory limits, and what is exported must be well-formed.
#include "exporting.hpp"
#include <unistd.h>
extern "C" const char* __asan_default_options() { return "max_allocation_size_mb=256"; }
static const char* const VALUES[] = { "null", "true", "false", "0", "-0", "1", "2", "3", "4", "16", "-1", "255", "256", "5120", "5126", "5130", "10497", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551614", "18446744073709551615", "18446744073709551616",
	"0.0", "0.5", "-0.5", "1.0", "1e2", "1e-400", "1e38", "3.5e38", "-1e39", "1e300", "-1e308", "1.7976931348623157e308", "1e309", "1e99999", "1E+05", "\"\"", "\"a\"", "\"SCALAR\"", "\"VEC3\"", "\"rotation\"", "\"data:,\"", "\"data:application/octet-stream;base64,\"", "\"data:application/octet-stream;base64,A\"", "\"data:application/octet-stream;base64,AA==\"", "\"data:application/octet-stream;base64,====\"", "\"data:image/png;base64,AAA\\u00e9\"", "\"data:;base64,AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA\"", "\"%\"", "\"%4\"", "\"%00%ff\"", "\"http://[::\"", "\"a:b@c:99999999/\"", "\"\\u0000\"", "\"\\ud800\"", "\"no_such_file.bin\"", "\"../../x\"", "\"file:///no/such\"", "\"KHR_materials_ior\"",
	"[]", "[0]", "[null]", "[[]]", "[{}]", "[-1]", "[1e300,2,3]", "[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17]", "[18446744073709551615]", "[\"a\"]", "{}", "{\"a\":0}", "{\"POSITION\":18446744073709551615}", "{\"index\":0}", "{\"extensions\":{}}", "{\"extensions\":0,\"extras\":0}" };
static const char* const FEW[] = { "null", "-1", "18446744073709551614", "1e300", "\"\"", "[]", "{}", "0", "[1e300]", "0.5", "4294967296", "[{}]", "\"data:,\"", "9223372036854775808", "true", "[null]" };
static const unsigned NV = sizeof VALUES / sizeof *VALUES;
using Path = std::vector<std::pair<int, std::string>>; // index (or -1) and member
static void paths(const J& j, Path& at, std::vector<Path>& out) {
	if (!at.empty()) out.push_back(at);
	if (j.t == J::Obj) for (auto& m : j.o) { at.push_back({ -1, m.first }); paths(m.second, at, out); at.pop_back(); }
	if (j.t == J::Arr) for (size_t i = 0; i < j.a.size(); ++i) { at.push_back({ int(i), "" }); paths(j.a[i], at, out); at.pop_back(); }
}
static J* find(J& d, const Path& p, size_t n) { J* j = &d; for (size_t i = 0; i < n && j; ++i) { if (p[i].first < 0) j = j->get(p[i].second); else j = j->t == J::Arr && size_t(p[i].first) < j->a.size() ? &j->a[size_t(p[i].first)] : nullptr; } return j; }
static std::string name(const Path& p) { std::string r; for (auto& x : p) r += "/" + (x.first < 0 ? x.second : std::to_string(x.first)); return r; }
static void remove(J& d, const Path& p) { J* parent = find(d, p, p.size() - 1); if (!parent) return; if (p.back().first < 0) parent->erase(p.back().second); else if (parent->t == J::Arr && size_t(p.back().first) < parent->a.size()) parent->a.erase(parent->a.begin() + p.back().first); }
struct Doc { J doc; std::vector<Path> all; };
static Doc makeDoc(const J& j) { Doc d; d.doc = j; Path p; paths(j, p, d.all); return d; }
static std::vector<Doc> sections(const J& doc) { // one document per element of an array
	std::vector<Doc> r; auto add = [&](J d) { r.push_back(makeDoc(d)); };
	for (auto& m : doc.o) { if (m.first == "asset") continue; if (m.second.t == J::Arr) for (auto& e : m.second.a) { J d = J::obj(); d.set("asset", docs::lit("{\"version\":\"2.0\"}")); d.set(m.first, J::arr({ e })); add(d); }
		else if (m.second.t == J::Obj) for (auto& e : m.second.o) for (auto& arr : e.second.o) if (arr.second.t == J::Arr) for (auto& x : arr.second.a) { J d = J::obj(); d.set("asset", docs::lit("{\"version\":\"2.0\"}")); J o = J::obj(), q = J::obj(); q.set(arr.first, J::arr({ x })); o.set(e.first, q); d.set(m.first, o); add(d); } }
	return r;
}
static const fg::Options ALLOPT = fg::Options::AllowDouble | fg::Options::DecomposeNodeMatrices | fg::Options::GenerateMeshIndices | fg::Options::LoadExternalBuffers | fg::Options::LoadExternalImages;
static std::filesystem::path dir() { static const std::filesystem::path d = [] { auto p = std::filesystem::temp_directory_path() / mc::fmt("c10-%d", int(getpid())); std::filesystem::create_directories(p); return p; }(); return d; }
// A large vertex count makes GenerateMeshIndices allocate as much: not a matter of this check.
static fg::Options safe(fg::Options o, const std::string& text) { static const std::string big[] = { "2147483647", "2147483648", "4294967295", "3.5e38" }; for (auto& b : big) if (text.find("\"count\":" + b) != std::string::npos) return fg::Options(uint64_t(o) & ~uint64_t(fg::Options::GenerateMeshIndices)); return o; }
static void run(const std::string& label, const std::string& bytes, int option, bool pretty = false, const std::string& what = "") {
	mc::context(label); mc::step(); mc::state(mc::hash(bytes) * 31 + unsigned(option)); mc::note("%s %s options %d: %s", label.c_str(), what.c_str(), option, bytes.size() < 1500 ? mc::esc(bytes).c_str() : ""); Exact e(bytes.data(), bytes.size());
	static const fg::Options opts[] = { fg::Options::None, fg::Options::DontRequireValidAssetMember | fg::Options::AllowDouble, ALLOPT };
	fg::Parser p(option == 3 ? fg::Extensions::None : ALL_EXT); auto data = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(e.data()), e.n); if (data.error() != fg::Error::None) { mc::outcome(1); return; }
	auto a = p.loadGltf(data.get(), option == 2 ? dir() : std::filesystem::path(), option == 3 ? fg::Options::None : safe(opts[option], bytes)); mc::outcome(mc::hash(std::string(fg::getErrorName(a.error())) + label)); if (a.error() != fg::Error::None) return;
	mc::nontrivial(); (void)fg::validate(a.get()); fg::Exporter ex;
	for (Form f : { COMPACT, GLB, PRETTY }) { if (f == PRETTY && !pretty) continue; auto x = doExport(ex, a.get(), f); mc::outcome(mc::hash(fg::getErrorName(x.err)) + unsigned(f)); if (x.err != fg::Error::None) continue; if (auto w = wellFormed(x, f, a.get()); !w.empty()) mc::fail(label + ":export", w + "\n" + x.json.substr(0, 2000) + "\n" + mc::esc(bytes).substr(0, 2000)); }
}
static const char* const SMALL[] = {
	R"({"asset":{"version":"2.0"},"scene":0,"scenes":[{"nodes":[0]}],"nodes":[{"name":"a\"b","translation":[1,2.5,-3e2],"children":[1]},{"mesh":0,"matrix":[1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1]}],"extensionsUsed":["X"]})",
	R"({"asset":{"version":"2.0"},"buffers":[{"uri":"data:application/octet-stream;base64,AAECAw==","byteLength":4}],"bufferViews":[{"buffer":0,"byteLength":4}],"accessors":[{"bufferView":0,"componentType":5121,"count":4,"type":"SCALAR","max":[1.5],"min":[-3]}]})",
	R"({"asset":{"version":"2.0"},"meshes":[{"primitives":[{"attributes":{"POSITION":0},"indices":2,"mode":4}],"extras":{"a":[null,true]}}],"images":[{"uri":"a%20b:c"}],"materials":[{"emissiveFactor":[1,0,0.5],"extensions":{"KHR_materials_ior":{"ior":1.4}}}]})",
	R"({"asset":{"version":"2.0"},"nodes":[{"rotation":[0,0,0,1]}]})" };
static std::string seedBytes(unsigned k) { static const std::string bin = "\1\2\3\4\5\6\7\x08"; if (k < 4) return SMALL[k]; if (k == 4) return glbOf("{\"asset\":{\"version\":\"2.0\"},\"buffers\":[{\"byteLength\":8}]}", &bin); if (k == 5) return glbOf("{\"asset\":{\"version\":\"2.0\"}}", nullptr); return glbOf("{\"asset\":{\"version\":\"2.0\"},\"images\":[{\"bufferView\":0,\"mimeType\":\"image/png\"}]}", &bin); }
static void model() {
	static const Doc D[] = { makeDoc(docs::core()), makeDoc(docs::ext()), makeDoc(docs::phys()) }; static const std::vector<Doc> S = [] { std::vector<Doc> r; for (auto* j : { &D[0], &D[1], &D[2] }) for (auto& d : sections(j->doc)) r.push_back(d); return r; }();
	bool T = mc::thorough(); static const char special[] = "{}[]:,\"\\ \n-+.eE019atnu\xff\x80/%"; static const unsigned nSpecial = sizeof special; // with the terminating zero
	switch (mc::choose(8)) {
		case 0: { // one value
			auto& d = D[mc::choose(3)]; auto& p = d.all[mc::choose(unsigned(d.all.size()))]; if (!mc::mine()) return; unsigned v = mc::choose(NV + 2); J j = d.doc; if (v < NV) { if (auto* x = find(j, p, p.size())) *x = J::lit(VALUES[v]); } else if (v == NV) remove(j, p); else { J* x = find(j, p, p.size() - 1); if (x && p.back().first >= 0) x->a.push_back(x->a[size_t(p.back().first)]); else return; }
			auto text = jtext(j); run("value", text, 1, v % 8 == 0, name(p)); run("value", text, 2, false, name(p)); if (T) { run("value", text, 3); run("value", glbOf(text, &text), 2); } break; }
		case 1: { // pairs within an element
			auto& d = S[mc::choose(unsigned(S.size()))]; unsigned n = unsigned(d.all.size()), i = mc::choose(n), k = mc::choose(n); if (k <= i || !mc::mine()) return; if (!T && n > 60 && k > i + 30) return; unsigned nf = T ? 16 : 8, v = mc::choose(nf + 1), w = mc::choose(nf + 1); J j = d.doc;
			auto change = [&](const Path& p, unsigned v) { if (v == nf) remove(j, p); else if (auto* x = find(j, p, p.size())) *x = J::lit(FEW[v]); }; change(d.all[k], w); change(d.all[i], v); run("values", jtext(j), (v + w) & 1 ? 2 : 1); break; }
		case 2: { // one byte
			unsigned s = mc::choose(7); auto b = seedBytes(s); unsigned at = mc::choose(unsigned(b.size()) + 1), op = mc::choose(4); if (!mc::mine()) return; if (op < 2) { unsigned c = mc::choose(256); if (op == 0) { if (at == b.size()) return; b[at] = char(c); } else b.insert(b.begin() + at, char(c)); } else if (op == 2) { if (at == b.size()) return; b.erase(b.begin() + at); } else b.resize(at); run("byte", b, 2); break; }
		case 3: { // two bytes
			unsigned s = T ? mc::choose(7) : 3 + 2 * mc::choose(2); auto b = seedBytes(s); unsigned n = unsigned(b.size()), i = mc::choose(n), k = mc::choose(n); if (k <= i || !mc::mine()) return; b[i] = special[mc::choose(nSpecial)]; b[k] = special[mc::choose(nSpecial)]; run("bytes", b, 1); break; }
		case 4: { // nesting
			static const char* const open[] = { "[", "{\"a\":", "[[],", "{\"extras\":", "{\"extensions\":", "{\"nodes\":[", "[{\"children\":[", "{\"asset\":", "[\"", }; static const char* const close[] = { "]", "}", "]", "}", "}", "]}", "]}]", "}", "\"]" }; static const char* const inner[] = { "0", "{}", "0", "{}", "{}", "{}", "0", "{}", "x" }; static const char* const where[] = { "nodes", "extras", "unknown", "extensions", "asset", "materials" };
			static const unsigned depths[] = { 1, 2, 3, 30, 100, 500, 1000, 1010, 1020, 1021, 1022, 1023, 1024, 1025, 1030, 2000, 3000 }; unsigned k = mc::choose(9), w = mc::choose(6), d = mc::pick(depths); bool closed = mc::flip(), root = mc::flip(); if (!mc::mine()) return; std::string t; for (unsigned i = 0; i < d; ++i) t += open[k]; t += inner[k]; if (closed) for (unsigned i = 0; i < d; ++i) t += close[k];
			run("nesting", root ? t : std::string("{\"asset\":{\"version\":\"2.0\"},\"") + where[w] + "\":" + t + "}", 1); break; }
		case 5: { // numbers and strings of every length
			static const char* const where[] = { "{\"asset\":{\"version\":\"2.0\"},\"scene\":%}", "{\"asset\":{\"version\":\"2.0\"},\"nodes\":[{\"translation\":[%,0,0]}]}", "{\"asset\":{\"version\":\"2.0\"},\"accessors\":[{\"componentType\":5126,\"count\":1,\"type\":\"SCALAR\",\"min\":[%],\"max\":[%]},{\"componentType\":5121,\"count\":1,\"type\":\"SCALAR\",\"min\":[%],\"max\":[%]}]}", "{\"asset\":{\"version\":\"2.0\"},\"nodes\":[{\"name\":%}]}", "{\"asset\":{\"version\":\"2.0\"},\"images\":[{\"uri\":%}]}", "{\"asset\":{\"version\":%}}", "{\"asset\":{\"version\":\"2.0\"},\"buffers\":[{\"uri\":%,\"byteLength\":3}]}", "{\"asset\":{\"version\":\"2.0\"},\"extensionsUsed\":[%],\"extensionsRequired\":[%]}" };
			unsigned w = mc::choose(8), k = mc::choose(14), n = mc::choose(T ? 400 : 140); if (!mc::mine()) return; if (n > 100 && !T) n = n * 3; std::string v;
			switch (k) { case 0: v = std::string(n, '9'); break; case 1: v = "-" + std::string(n, '1'); break; case 2: v = "0." + std::string(n, '0') + "1"; break; case 3: v = "1." + std::string(n, '3'); break; case 4: v = "1e" + std::to_string(n * 2); break; case 5: v = "1e-" + std::to_string(n * 2); break; case 6: v = "1" + std::string(n, '0') + ".5e-" + std::to_string(n); break;
				case 7: v = "\"" + std::string(n, 'a') + "\""; break; case 8: v = "\"" + std::string(n, 'a') + "\\u00e9\""; break; case 9: v = "\"data:" + std::string(n, 'a') + "\""; break; case 10: v = "\"data:application/octet-stream;base64," + std::string(n, 'A') + "\""; break; case 11: { v = "\""; for (unsigned i = 0; i < n; ++i) v += "%4" + std::string(i % 3, '1'); v += "\""; break; } case 12: v = "\"data:a/b;base64," + std::string(n, 'A') + "=\""; break; case 13: v = "\"" + std::string(n, 'a') + "://" + std::string(n, '/') + "\""; break; }
			std::string t; for (const char* c = where[w]; *c; ++c) { if (*c == '%') t += v; else t += *c; } run("length", t, int(n % 3)); run("length", t, 2); break; }
		case 6: { // graphs of nodes: every reference of 3 nodes to each other and outside
			unsigned kids[3], root = mc::choose(5); for (auto& k : kids) k = mc::choose(16); if (!mc::mine()) return; std::string t = "{\"asset\":{\"version\":\"2.0\"},\"scene\":0,\"scenes\":[{\"nodes\":[" + std::to_string(root) + "]}],\"nodes\":["; for (int i = 0; i < 3; ++i) { t += i ? ",{" : "{"; std::string c; for (int k = 0; k < 4; ++k) if (kids[i] >> k & 1) c += (c.empty() ? "" : ",") + std::to_string(k); if (!c.empty()) t += "\"children\":[" + c + "],"; t += "\"matrix\":[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0]}"; } run("graph", t + "]}", 2); break; }
		case 7: { // all short byte strings
			unsigned n = mc::choose(T ? 7 : 6); std::string t; for (unsigned i = 0; i < n; ++i) { t += special[mc::choose(n > 4 ? 12 : nSpecial)]; if (i == 1 && !mc::mine()) return; } if (!mc::mine()) return; run("short", t, 1); break; }
	}
}
MC_MAIN(model)

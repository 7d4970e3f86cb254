// C04: malformed documents. Same departure spaces as C03/C05/C06, judged on the malformed side, plus text-level edits
// of small documents (every prefix, every token deleted / doubled / swapped / replaced / inserted).
#include "parse_model.hpp"

// Token split of JSON text (strings, punctuation, literals).
static std::vector<std::string> tokens(const std::string& s) {
	std::vector<std::string> r; size_t i = 0;
	while (i < s.size()) {
		size_t j = i + 1;
		if (s[i] == '"') { while (s[j] != '"') j += s[j] == '\\' ? 2 : 1; ++j; }
		else if (!strchr("{}[]:,", s[i])) while (j < s.size() && !strchr("{}[]:,\"", s[j])) ++j;
		r.push_back(s.substr(i, j - i)); i = j;
	}
	return r;
}
static const char* const SMALL[] = {
	R"({"asset":{"version":"2.0"},"scene":0,"nodes":[{"name":"a\"b","translation":[1,2.5,-3e2],"children":[1]},{"mesh":0}],"extensionsUsed":["X"]})",
	R"({"asset":{"version":"2.0"},"buffers":[{"uri":"data:application/octet-stream;base64,AAECAw==","byteLength":4}],"bufferViews":[{"buffer":0,"byteLength":4}],"accessors":[{"bufferView":0,"componentType":5121,"count":4,"type":"SCALAR","normalized":true,"max":[3],"min":[0]}]})",
	R"({"asset":{"version":"2.0"},"meshes":[{"primitives":[{"attributes":{"POSITION":0,"NORMAL":1},"indices":2,"mode":4}],"extras":{"a":[null,true]}}],"materials":[{"pbrMetallicRoughness":{"baseColorFactor":[1,0,0.5,1]},"extensions":{"KHR_materials_ior":{"ior":1.25}}}]})",
};
static const char* const INS[] = { "{", "}", "[", "]", ":", ",", "\"x\"", "0", "1", "-", "1.5", "01", "+1", ".5", "1.", "1e", "true", "null", "tru", "nul", "NaN", "\"", "'x'", "/", "{}", "[]", "\"\\x\"", "\"\\u12\"", "\"\n\"", "\"\xff\"", "\"\xc0\x80\"", "\"\\ud800\"", "\xef\xbb\xbf" };

static void judgeText(const char* label, const std::string& text) {
	if (text.compare(0, 3, "\xef\xbb\xbf") == 0) return; // parsers may ignore a byte order mark
	J doc; std::string bad = jparse(text, doc);
	if (bad.find("duplicate") != std::string::npos) return;
	mc::context(label); mc::step(); mc::state(mc::hash(text)); mc::note("%s: %s", label, text.c_str());
	if (bad.empty() && doc.t == J::Obj) {
		auto v = judge(doc, text, ALL_EXT, fg::Options::None);
		mc::outcome(mc::hash(fg::getErrorName(v.err)) ^ mc::hash(label));
		if (!v.diff.empty()) mc::fail(std::string("text:") + label + (v.wantReject ? ":accepted" : v.path == "!" ? ":rejected" : ":" + generic(v.path)), v.diff + "\n" + text);
		return;
	}
	mc::nontrivial();
	fg::Parser p(ALL_EXT); Exact e(text.data(), text.size());
	auto data = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(e.data()), e.n);
	if (data.error() != fg::Error::None) { if (e.n) mc::fail(std::string("text:") + label + ":buffer", text); return; }
	auto a = p.loadGltfJson(data.get(), {}, fg::Options::None);
	mc::outcome(mc::hash(fg::getErrorName(a.error())) ^ mc::hash(label));
	if (a.error() == fg::Error::None) mc::fail(std::string("text:") + label + ":accepted", bad + "\n" + text);
	else if (!bad.empty() && a.error() != fg::Error::InvalidJson) mc::fail(std::string("text:") + label + ":error", std::string(fg::getErrorName(a.error())) + " for text that is not JSON: " + bad + "\n" + text);
}
static void model() {
	static const fg::Options O = fg::Options::None;
	static const DocSpace C = makeSpace(docs::core(), fg::Extensions::None, O, 1, 3, true), X = makeSpace(docs::ext(), ALL_EXT, O, 1, 2, true), P = makeSpace(docs::phys(), ALL_EXT, O, 1, 2, true);
	static const std::vector<std::string> T[] = { tokens(SMALL[0]), tokens(SMALL[1]), tokens(SMALL[2]) };
	unsigned mode = mc::choose(9);
#ifdef __SANITIZE_ADDRESS__
	const bool styles = false; if (mode == 4 && !mc::thorough()) return; // pairs: in the plain build
#else
	const bool styles = true; if (mode == 3 || mode > 4) return;
#endif
	switch (mode) {
		case 0: singles(C, mc::flip() ? ALL_EXT : fg::Extensions::None, O, MALFORMED, styles); break;
		case 1: singles(X, ALL_EXT, O, MALFORMED, styles); break;
		case 2: singles(P, ALL_EXT, O, MALFORMED, styles); break;
		case 3: { static const fg::Options o[] = { fg::Options::DontRequireValidAssetMember, fg::Options::AllowDouble }; auto opt = mc::pick(o); singles(mc::flip() ? X : C, ALL_EXT, opt, MALFORMED, false); break; }
		case 4: { unsigned w = mc::choose(3); pairs(w == 0 ? C : w == 1 ? X : P, w ? ALL_EXT : fg::Extensions::None, O, MALFORMED); break; }
		case 5: { std::string s = SMALL[mc::choose(3)]; size_t n = mc::choose(unsigned(s.size())); if (!mc::mine()) return; judgeText("prefix", s.substr(0, n)); break; }
		case 6: { // one token edit
			auto t = T[mc::choose(3)]; unsigned op = mc::choose(5), at = mc::choose(unsigned(t.size())); if (!mc::mine()) return;
			static const char* const name[] = { "delete", "double", "swap", "replace", "insert" };
			auto it = t.begin() + at;
			if (op == 0) t.erase(it); else if (op == 1) t.insert(it, std::string(*it)); else if (op == 2) { if (at + 1 == t.size()) return; std::swap(t[at], t[at + 1]); }
			else if (op == 3) *it = mc::pick(INS); else t.insert(it, mc::pick(INS));
			std::string s; for (auto& x : t) s += x; judgeText(name[op], s); break; }
		case 7: { // two deletions
			auto t = T[mc::choose(3)]; unsigned n = unsigned(t.size()), a = mc::choose(n), b = mc::choose(n); if (a >= b || (!mc::thorough() && b - a > 12)) return; if (!mc::mine()) return;
			t.erase(t.begin() + b); t.erase(t.begin() + a); std::string s; for (auto& x : t) s += x; judgeText("delete2", s); break; }
		case 8: { // documents whose root is not an object, and degenerate texts
			static const char* k[] = { "[]", "5", "\"x\"", "null", "true", " ", "\n", "[{}]", "{}", "{ }", "{\"asset\":{}}", "{\"asset\":5}", "{\"asset\":{\"version\":2.0}}", "{\"asset\":{\"version\":\"1.0\"}}", "{\"asset\":{\"version\":\"20\"}}", "{\"asset\":{\"version\":\"3.0\"}}", "{\"asset\":{\"version\":\"\"}}", "{}{}", "{\"asset\":{\"version\":\"2.0\"}}x", "{\"asset\":{\"version\":\"2.0\"}}{}", "{\"asset\":{\"version\":\"2.0\"}} \n\t", "\t{\"asset\":{\"version\":\"2.0\"}}", "\n {\"asset\":{\"version\":\"2.0\"}}", "\r\n{\"asset\":{\"version\":\"2.0\"}}" };
			judgeText("root", mc::pick(k)); break; }
	}
}
MC_MAIN(model)

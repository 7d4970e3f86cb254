// C26: the build options (64-bit numbers, the library's own SmallVector, no memory pool, C++20, without the optional
// extensions) change how an asset is represented, not what is loaded, written or kept: built once per configuration.
#include "mc.hpp"
#define C11_SOME
#define model c11_model
#pragma push_macro("MC_MAIN")
#undef MC_MAIN
#define MC_MAIN(x)
#include "c11_history.cpp"
#pragma pop_macro("MC_MAIN")
#undef model
#include "parse_model.hpp"
#include "exporting.hpp"
#include <fastgltf/tools.hpp>
#include <fastgltf/math.hpp>

#if defined(__SANITIZE_ADDRESS__)
static constexpr bool ASAN = true;
#else
static constexpr bool ASAN = false;
#endif
static void trip(const std::string& label, const J& d, Form f) {
	static const fg::Options O = fg::Options::AllowDouble;
	auto pre = spec::interpret(d, ALL_EXT, O); if (pre.reject || pre.lax) return;
	auto text = jtext(d); mc::context(generic(label)); mc::step(); mc::state(mc::hash(text) * 31 + f); mc::note("%s: %.1500s", label.c_str(), text.c_str());
	fg::Parser p(ALL_EXT); auto l = load(p, text, O); if (!l.asset) return;
	fg::Exporter e; roundTrip(generic(label), *l.asset, f, e, ALL_EXT, O);
}
// every number of a document
static void numbers(J& j, const std::string& path, std::vector<std::pair<std::string, J*>>& out) {
	if (j.t == J::Num) out.push_back({ path, &j });
	if (j.t == J::Arr) for (size_t i = 0; i < j.a.size(); ++i) numbers(j.a[i], path + "/" + std::to_string(i), out);
	if (j.t == J::Obj) for (auto& m : j.o) if (m.first != "asset" && m.first != "extras") numbers(m.second, path + "/" + m.first, out);
}
static J sized(const J& doc, const std::string& sec, unsigned len) {
	J d = doc; auto src = doc.get(sec)->a; std::vector<J> v; for (unsigned i = 0; i < len; ++i) { J e = src[i % src.size()]; if (e.t == J::Obj) e.set("name", J::str("n" + std::to_string(i))); v.push_back(e); }
	d.set(sec, J::arr(v)); return d;
}
// one array of one object of the document, with `len` elements
static const char* const INNER[] = { "children", "node weights", "mesh weights", "scene nodes", "joints", "attributes", "targets", "primitives", "target attributes", "min max", "channels", "samplers" };
static bool inner(J& d, unsigned which, unsigned len) {
	std::vector<J> v; auto at = [&](const char* sec, size_t i) -> J& { return d.get(sec)->a[i]; };
	auto rep = [&](J& arr) { auto src = arr.a; std::vector<J> w; for (unsigned i = 0; i < len; ++i) w.push_back(src[i % src.size()]); arr = J::arr(w); };
	for (unsigned i = 0; i < len; ++i) if (which == 0 || which == 3 || which == 4) v.push_back(J::i((i * 7 + 1) % 50)); else v.push_back(J::lit(std::to_string(i) + ".5"));
	J attrs = J::obj(); for (unsigned i = 0; i < len; ++i) attrs.set("_ATTRIBUTE_WITH_A_LONG_NAME_" + std::to_string(i), J::i(i));
	if (which >= 5 && which <= 8 && (at("meshes", 0).get("primitives")->a.empty() || (which == 8 && at("meshes", 0).get("primitives")->a[0].get("targets")->a.size() < 2))) return false;
	switch (which) {
		case 0: at("nodes", 0).set("children", J::arr(v)); break; case 1: at("nodes", 0).set("weights", J::arr(v)); break; case 2: at("meshes", 0).set("weights", J::arr(v)); break;
		case 3: at("scenes", 0).set("nodes", J::arr(v)); break; case 4: at("skins", 0).set("joints", J::arr(v)); break;
		case 5: at("meshes", 0).get("primitives")->a[0].set("attributes", attrs); break;
		case 6: rep(*at("meshes", 0).get("primitives")->a[0].get("targets")); break;
		case 7: rep(*at("meshes", 0).get("primitives")); break;
		case 8: at("meshes", 0).get("primitives")->a[0].get("targets")->a[1] = attrs; break;
		case 9: return false;
		case 10: rep(*at("animations", 0).get("channels")); break; case 11: rep(*at("animations", 0).get("samplers")); break;
	}
	return true;
}
static void model() {
	static const J D[] = { docs::core(), docs::ext(), docs::phys() }; static const fg::Options O = fg::Options::AllowDouble;
	static const DocSpace S[] = { makeSpace(D[0], ALL_EXT, O, 1, 0, true), makeSpace(D[1], ALL_EXT, O, 1, 0, true), makeSpace(D[2], ALL_EXT, O, 1, 0, true) };
	static const char* const numbersAlphabet[] = { "0.1", "0.3333333333333333", "1e-7", "-123456789.123", "16777217.5", "0.30000001192092896", "1.3", "5e-324", "3.4028234663852886e38", "-0.0", "2.5", "0.6" };
	switch (mc::choose(6)) {
		case 0: { auto& s = S[mc::choose(3)]; static const fg::Extensions e[] = { ALL_EXT, fg::Extensions::None }; auto ext = mc::pick(e); if (ASAN && ext != ALL_EXT) return; singles(s, ext, O, VALID | MALFORMED, mc::thorough()); break; }
		case 1: { unsigned k = mc::choose(3); auto& s = S[k]; auto [t, a] = single(s.targets); if (!mc::mine() || !t) return; J d = s.doc; if (!spec::apply(d, *t, *a)) return; Form f = Form(mc::choose(FORMS)); if (ASAN && f == PRETTY) return; trip(t->label, d, f); break; }
		case 2: { // sections of every length
			auto& s = S[mc::choose(3)]; std::vector<std::string> k; for (auto& m : s.doc.o) if (m.second.t == J::Arr && !m.second.a.empty()) k.push_back(m.first); auto& sec = mc::pick(k); unsigned len = mc::choose(mc::thorough() ? 70 : 24); if (!mc::mine()) return;
			J d = sized(s.doc, sec, len); check("size/" + sec, d, 0, ALL_EXT, O, VALID | MALFORMED); trip("size/" + sec, d, COMPACT); break; }
		case 3: { // small vectors around their inline capacities, two of them at once
			unsigned a = mc::choose(12), b = mc::choose(12); static const unsigned L[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33, 64 }; unsigned la = mc::pick(L), lb = b == a ? 0 : mc::pick(L); if (b < a || (ASAN && b != a && (a < 5 || b > 8)) || !mc::mine()) return;
			J d = D[0]; if (!inner(d, a, la) || (b != a && !inner(d, b, lb))) return; std::string l = std::string("inner/") + INNER[a] + (b == a ? "" : std::string("+") + INNER[b]); check(l, d, 0, ALL_EXT, O, VALID | MALFORMED); trip(l, d, COMPACT); break; }
		case 4: { // every number of the documents
			unsigned k = mc::choose(3); static const std::vector<size_t> count = [] { std::vector<size_t> r; for (auto& x : D) { J d = x; std::vector<std::pair<std::string, J*>> n; numbers(d, "", n); r.push_back(n.size()); } return r; }();
			unsigned i = mc::choose(unsigned(count[k])); auto val = mc::pick(numbersAlphabet); if (ASAN || !mc::mine()) return;
			J d = D[k]; std::vector<std::pair<std::string, J*>> n; numbers(d, "", n); *n[i].second = J::lit(val); check("number" + n[i].first, d, 0, ALL_EXT, O, VALID | MALFORMED); trip("number" + n[i].first, d, COMPACT); break; }
		case 5: c11_model(); break;
	}
}
MC_MAIN(model)

// C05: extension data is parsed exactly, and only when enabled; required extensions.
#include "parse_model.hpp"
static const char* const CONTAINS[] = { "core", "ext", "phys" };
static void required(std::vector<std::string> req, fg::Extensions en, const char* label) {
	J d = J::obj(); J a = J::obj(); a.set("version", J::str("2.0")); d.set("asset", a); std::vector<J> v; for (auto& r : req) v.push_back(J::str(r)); d.set("extensionsRequired", J::arr(v)); d.set("extensionsUsed", J::arr(v));
	bool unknown = false, missing = false;
	for (auto& r : req) { bool k = false; for (auto& [n, e] : spec::knownExtensions()) if (n == r) { k = true; if (!(static_cast<uint64_t>(e) & static_cast<uint64_t>(en))) missing = true; } if (!k) unknown = true; }
	auto text = jtext(d); mc::context(label); mc::step(); mc::state(mc::hash(text) ^ static_cast<uint64_t>(en)); mc::note("%llx %s", (unsigned long long)en, text.c_str());
	fg::Parser p(en); auto l = load(p, text, fg::Options::None);
	mc::outcome(mc::hash(fg::getErrorName(l.error)) ^ mc::hash(label));
	bool ok = unknown && missing ? l.error == fg::Error::UnknownRequiredExtension || l.error == fg::Error::MissingExtensions : unknown ? l.error == fg::Error::UnknownRequiredExtension : missing ? l.error == fg::Error::MissingExtensions : l.error == fg::Error::None;
	if (!ok) return mc::fail(std::string("required:") + label, std::string(fg::getErrorName(l.error)) + " for " + text + mc::fmt(" with %llx enabled", (unsigned long long)en));
	if (l.asset) { if (l.asset->extensionsRequired.size() != req.size() || l.asset->extensionsUsed.size() != req.size()) return mc::fail("required:list", text); for (size_t i = 0; i < req.size(); ++i) if (std::string_view(l.asset->extensionsRequired[i]) != req[i] || std::string_view(l.asset->extensionsUsed[i]) != req[i]) return mc::fail("required:list", text); mc::nontrivial(); }
}
static void model() {
	static const fg::Options O = fg::Options::None;
	static const DocSpace X = makeSpace(docs::ext(), ALL_EXT, O, mc::thorough() ? 3 : 2, 1, true), C = makeSpace(docs::core(), ALL_EXT, O, 1, 1, false);
	auto& K = spec::knownExtensions(); unsigned n = unsigned(K.size());
	auto one = [&](unsigned i) { return K[i].second; };
	auto but = [&](unsigned i) { return static_cast<fg::Extensions>(static_cast<uint64_t>(ALL_EXT) & ~static_cast<uint64_t>(K[i].second)); };
	switch (mc::choose(9)) {
		case 0: singles(X, ALL_EXT, O, VALID, true); break;
		case 1: singles(X, fg::Extensions::None, O, VALID | MALFORMED, false); break;
		case 2: { unsigned i = mc::choose(n); singles(X, mc::flip() ? one(i) : but(i), O, VALID, false); break; }
		case 3: pairs(X, ALL_EXT, O, VALID); break;
		case 4: singles(C, ALL_EXT, O, VALID, false); break;
		case 5: { // one required extension
			unsigned i = mc::choose(n + 4), e = mc::choose(4); if (!mc::mine()) return;
			static const char* bad[] = { "VENDOR_unknown", "", "KHR_materials_unlit2", "khr_materials_unlit" };
			std::string name = i < n ? K[i].first : bad[i - n];
			required({ name }, e == 0 ? fg::Extensions::None : e == 1 ? ALL_EXT : e == 2 ? one(i % n) : but(i % n), "one"); break; }
		case 6: { // two required extensions, any two enabled
			unsigned i = mc::choose(n + 1), j = mc::choose(n + 1), e = mc::choose(5); if (!mc::mine()) return;
			auto nm = [&](unsigned k) { return k < n ? K[k].first : std::string("EXT_nobody_knows"); };
			required({ nm(i), nm(j) }, e == 0 ? ALL_EXT : e == 1 ? one(i % n) : e == 2 ? one(j % n) : e == 3 ? but(i % n) : but(j % n), "two"); break; }
		case 7: { // names and bits
			unsigned i = mc::choose(n + 1); mc::context("names");
			if (i == n) { if (fg::SUPPORTED_EXTENSION_COUNT < n) mc::fail("names:count", std::to_string(fg::SUPPORTED_EXTENSION_COUNT)); uint64_t all = 0; for (auto& k : K) { if (all & uint64_t(k.second)) mc::fail("names:overlap", k.first); all |= uint64_t(k.second); } auto v = fg::stringifyExtensionBits(ALL_EXT); if (v.size() != n) mc::fail("names:bits", std::to_string(v.size())); return; }
			mc::step(); mc::state(i); if (fg::stringifyExtension(K[i].second) != K[i].first) mc::fail("names:stringify", K[i].first + " -> " + std::string(fg::stringifyExtension(K[i].second)));
			auto v = fg::stringifyExtensionBits(K[i].second); if (v.size() != 1 || std::string_view(v[0]) != K[i].first) mc::fail("names:bits", K[i].first);
			break; }
		case 8: { // array sizes of variants, lights and mappings
			unsigned which = mc::choose(4), len = mc::choose(mc::thorough() ? 100 : 24); if (!mc::mine()) return;
			J d = docs::ext(); auto& ex = *d.get("extensions"); std::vector<J> v;
			if (which == 0) { auto& a = ex.get("KHR_lights_punctual")->get("lights")->a; for (unsigned i = 0; i < len; ++i) { J x = a[i % a.size()]; x.set("intensity", J::lit(std::to_string(i) + ".5")); v.push_back(x); } ex.get("KHR_lights_punctual")->set("lights", J::arr(v)); }
			else if (which == 1 || which == 2) { // variants and a mapping with every other one
				for (unsigned i = 0; i < len; ++i) { J x = J::obj(); x.set("name", J::str("a fairly long variant name " + std::to_string(i))); v.push_back(x); } ex.get("KHR_materials_variants")->set("variants", J::arr(v));
				std::vector<J> maps; J m0 = J::obj(), m1 = J::obj(); std::vector<J> v0, v1; for (unsigned i = 0; i < len; ++i) (which == 1 ? (i % 2 ? v0 : v1) : (i < 3 ? v0 : i + 3 < len ? v : v1)).push_back(J::i(which == 1 ? i : len - 1 - i));
				m0.set("material", J::i(2)); m0.set("variants", J::arr(v0)); m1.set("material", J::i(1)); m1.set("variants", J::arr(v1)); maps = { m0, m1 };
				auto& prims = d.get("meshes")->a[0].get("primitives")->a; for (auto& pr : prims) if (auto e = pr.get("extensions")) if (auto mv = e->get("KHR_materials_variants")) mv->set("mappings", J::arr(maps));
			} else { J at = J::obj(); for (unsigned i = 0; i < len; ++i) at.set("_A" + std::to_string(i), J::i(i)); d.get("nodes")->a[0].get("extensions")->get("EXT_mesh_gpu_instancing")->set("attributes", at); }
			check("size", d, 0, ALL_EXT, O, VALID | MALFORMED); break; }
	}
}
MC_MAIN(model)

// C03: core glTF documents are parsed exactly. All single departures (x 3 serialisations), all pairs within an object
// tree, member orders of the root, array sizes across internal capacities, GLB wrapping, parser options.
#include "parse_model.hpp"
#ifndef REPORT
#define REPORT VALID
#endif
static void model() {
	static const fg::Options O = fg::Options::None;
	static const DocSpace S = makeSpace(docs::core(), fg::Extensions::None, O, mc::thorough() ? 3 : 2, mc::thorough() ? 2 : 1, true);
	switch (mc::choose(6)) {
		case 0: singles(S, fg::Extensions::None, O, REPORT, true); break;
		case 1: pairs(S, fg::Extensions::None, O, REPORT); break;
		case 2: { // options
			static const fg::Options o[] = { fg::Options::DontRequireValidAssetMember, fg::Options::AllowDouble };
			auto opt = mc::pick(o); singles(S, mc::flip() ? ALL_EXT : fg::Extensions::None, opt, REPORT, false); break; }
		case 3: { // order of root members: every rotation, and every pair of adjacent swaps
			size_t n = S.doc.o.size(); unsigned r = mc::choose(unsigned(n)), a = mc::choose(unsigned(n)); if (!mc::mine()) return;
			J d = S.doc; std::rotate(d.o.begin(), d.o.begin() + r, d.o.end()); std::swap(d.o[a], d.o[(a + 1) % n]);
			check("order", d, int(mc::choose(3)), fg::Extensions::None, O, REPORT); break; }
		case 4: { // array sizes: each array of a section repeated n times, everything numbered
			static const char* k[] = { "accessors", "animations", "buffers", "bufferViews", "cameras", "images", "materials", "meshes", "nodes", "samplers", "scenes", "skins", "textures" };
			auto sec = k[mc::choose(13)]; unsigned len = mc::choose(mc::thorough() ? 130 : 40); if (!mc::mine()) return;
			J d = S.doc; auto& src = S.doc.get(sec)->a; std::vector<J> v; for (unsigned i = 0; i < len; ++i) { J e = src[i % src.size()]; e.set("name", J::str("n" + std::to_string(i))); v.push_back(e); }
			d.set(sec, J::arr(v)); check(std::string("size/") + sec, d, 0, fg::Extensions::None, O, REPORT); break; }
		case 5: { // inner array sizes across the small vectors' inline capacities
			unsigned which = mc::choose(8), len = mc::choose(mc::thorough() ? 300 : 40); if (!mc::mine()) return;
			J d = S.doc; std::vector<J> v;
			auto at = [&](const char* sec, size_t i) -> J& { return d.get(sec)->a[i]; };
			for (unsigned i = 0; i < len; ++i) { if (which == 0 || which == 3 || which == 4) v.push_back(J::i((i * 7 + 1) % 50)); else if (which == 1 || which == 2) v.push_back(J::lit(std::to_string(i) + ".5")); }
			J attrs = J::obj(); for (unsigned i = 0; i < len; ++i) attrs.set("_ATTRIBUTE_WITH_A_LONG_NAME_" + std::to_string(i), J::i(i));
			if (which == 0) at("nodes", 0).set("children", J::arr(v)); if (which == 1) at("nodes", 0).set("weights", J::arr(v)); if (which == 2) at("meshes", 0).set("weights", J::arr(v));
			if (which == 3) at("scenes", 0).set("nodes", J::arr(v)); if (which == 4) at("skins", 0).set("joints", J::arr(v));
			if (which == 5) at("meshes", 0).get("primitives")->a[0].set("attributes", attrs);
			if (which == 6) at("meshes", 0).get("primitives")->a[0].get("targets")->a[1] = attrs;
			if (which == 7) { std::vector<J> p; for (unsigned i = 0; i < len; ++i) { J x = at("meshes", 0).get("primitives")->a[i % 2]; x.set("material", J::i(i)); p.push_back(x); } at("meshes", 0).set("primitives", J::arr(p)); }
			check("inner", d, 0, fg::Extensions::None, O, REPORT); break; }
	}
}
MC_MAIN(model)

// C06: KHR_implicit_shapes and KHR_physics_rigid_bodies are parsed exactly; malformed required members are rejected.
#include "parse_model.hpp"
static void model() {
	static const fg::Options O = fg::Options::None;
	static const DocSpace P = makeSpace(docs::phys(), ALL_EXT, O, mc::thorough() ? 6 : 4, mc::thorough() ? 3 : 2, true);
	using E = fg::Extensions;
	switch (mc::choose(4)) {
		case 0: singles(P, ALL_EXT, O, VALID | MALFORMED, true); break;
		case 1: { static const E e[] = { E::None, E::KHR_implicit_shapes, E::KHR_physics_rigid_bodies, E::KHR_implicit_shapes | E::KHR_physics_rigid_bodies }; auto x = mc::pick(e); singles(P, x, O, VALID | MALFORMED, false); break; }
		case 2: pairs(P, ALL_EXT, O, VALID | MALFORMED); break;
		case 3: { // array sizes
			unsigned which = mc::choose(6), len = mc::choose(mc::thorough() ? 100 : 24); if (!mc::mine()) return;
			J d = docs::phys(); auto& ex = *d.get("extensions"); auto& ph = *ex.get("KHR_physics_rigid_bodies"); std::vector<J> v;
			auto rep = [&](J& in, const char* k) { auto& a = in.get(k)->a; for (unsigned i = 0; i < len; ++i) v.push_back(a[i % a.size()]); in.set(k, J::arr(v)); };
			if (which == 0) rep(*ex.get("KHR_implicit_shapes"), "shapes"); if (which == 1) rep(ph, "physicsMaterials"); if (which == 2) rep(ph, "collisionFilters"); if (which == 3) rep(ph, "physicsJoints");
			if (which == 4) { for (unsigned i = 0; i < len; ++i) v.push_back(J::str("system number " + std::to_string(i))); ph.get("collisionFilters")->a[0].set("collisionSystems", J::arr(v)); ph.get("collisionFilters")->a[0].set("collideWithSystems", J::arr(v)); }
			if (which == 5) { for (unsigned i = 0; i < len; ++i) v.push_back(J::i(i % 4)); d.get("nodes")->a[1].get("extensions")->get("KHR_physics_rigid_bodies")->get("trigger")->set("nodes", J::arr(v)); }
			check("size", d, 0, ALL_EXT, O, VALID | MALFORMED); break; }
	}
}
MC_MAIN(model)

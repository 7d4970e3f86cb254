// C07: category masks. Every subset of the categories, on three documents, as JSON and as GLB.
#include "parse_model.hpp"
static void model() {
	size_t n; auto ct = spec::categoryTable(n);
	static const J D[] = { docs::core(), docs::ext(), docs::phys(), [] { J d = docs::core(); d.erase("buffers"); d.erase("nodes"); d.set("skins", J::arr()); return d; }() };
	unsigned doc = mc::choose(4); bool glb = mc::flip(); unsigned lo = mc::choose(128); if (!mc::mine()) return;
	J d = D[doc];
	if (glb && doc != 3) { auto& b = d.get("buffers") ? d.get("buffers")->a : d.set("buffers", J::arr({ J::obj() })).a; J x = J::obj(); x.set("byteLength", J::i(4)); b.insert(b.begin(), x); }
	unsigned hi = mc::choose(1u << (n - 7)); unsigned mask = lo | hi << 7;
	uint64_t m = 0; for (size_t i = 0; i < n; ++i) if (mask >> i & 1) m |= static_cast<uint64_t>(ct[i].second);
	check(std::string("mask") + (glb ? "/glb" : "/json"), d, 0, doc == 0 || doc == 3 ? fg::Extensions::None : ALL_EXT, fg::Options::None, VALID, static_cast<fg::Category>(m), glb);
}
MC_MAIN(model)

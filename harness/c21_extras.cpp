// C21: extras callbacks. Which objects of a document carry extras, which categories are loaded, what the extras hold;
// and when writing, which objects of an asset are given extras.
#include "built.hpp"
#include <optional>
#include <simdjson.h>

using C = fg::Category;
struct Sec { C cat; const char* ext; const char* name; bool filtered; };
static const Sec SEC[] = { { C::Accessors, "", "accessors", true }, { C::Animations, "", "animations", true }, { C::Buffers, "", "buffers", true }, { C::BufferViews, "", "bufferViews", true }, { C::Cameras, "", "cameras", true }, { C::Images, "", "images", true }, { C::Materials, "", "materials", true }, { C::Meshes, "", "meshes", true }, { C::Nodes, "", "nodes", true }, { C::Samplers, "", "samplers", true }, { C::Scenes, "", "scenes", true }, { C::Skins, "", "skins", true }, { C::Textures, "", "textures", true },
	{ C::Shapes, "KHR_implicit_shapes", "shapes", false }, { C::PhysicsMaterials, "KHR_physics_rigid_bodies", "physicsMaterials", false }, { C::CollisionFilters, "KHR_physics_rigid_bodies", "collisionFilters", false }, { C::PhysicsJoints, "KHR_physics_rigid_bodies", "physicsJoints", false } };
static const unsigned NSEC = sizeof SEC / sizeof *SEC;
static J* array(J& d, const Sec& s) { J* o = &d; if (*s.ext) { o = d.get("extensions"); if (o) o = o->get(s.ext); } return o ? o->get(s.name) : nullptr; }
struct Call { uint64_t cat; size_t index; std::string text; const void* user; bool operator<(const Call& o) const { return std::tie(cat, index, text, user) < std::tie(o.cat, o.index, o.text, o.user); } bool operator==(const Call& o) const { return !(*this < o) && !(o < *this); } };
static std::vector<Call> g_calls; static const void* g_user;
static J fromDom(simdjson::dom::element e) {
	using T = simdjson::dom::element_type;
	switch (e.type()) {
		case T::ARRAY: { J j = J::arr(); for (auto x : simdjson::dom::array(e.get_array().value())) j.a.push_back(fromDom(x)); return j; }
		case T::OBJECT: { J j = J::obj(); for (auto x : simdjson::dom::object(e.get_object().value())) j.o.emplace_back(std::string(x.key), fromDom(x.value)); return j; }
		case T::INT64: return J::lit(std::to_string(int64_t(e))); case T::UINT64: return J::lit(std::to_string(uint64_t(e))); case T::DOUBLE: { char b[40]; snprintf(b, 40, "%.17g", double(e)); return J::lit(b); }
		case T::STRING: return J::str(std::string(std::string_view(e))); case T::BOOL: return J::boolean(bool(e)); default: return J::null();
	}
}
static std::string show(const std::vector<Call>& v) { std::string r; for (auto& c : v) r += mc::fmt("(%llx,%zu,%s,%p) ", (unsigned long long)c.cat, c.index, c.text.c_str(), c.user); return r; }
static void onParse(simdjson::dom::object* o, size_t index, C cat, void* user) { J j = J::obj(); for (auto x : *o) j.o.emplace_back(std::string(x.key), fromDom(x.value)); g_calls.push_back({ uint64_t(cat), index, jtext(j), user }); }
static const char* const CONTENT[] = { "{}", "{\"a\":1}", "{\"name\":\"x\",\"extras\":{\"extras\":{}}}", "{\"s\":\"\\\"\\\\{,\",\"n\":null,\"l\":[1,[true,{}],0.5]}", "{\"\":-9223372036854775807}", "{\"a\":{},\"b\":{},\"count\":5,\"nodes\":[0]}" };
static void put(J& o, const J& extras, bool front) { o.erase("extras"); if (front) o.o.insert(o.o.begin(), { "extras", extras }); else o.set("extras", extras); }
static const fg::Options O = fg::Options::AllowDouble;
// Loads with a callback and compares the calls with those which have to come.
static void parse(const std::string& key, const std::string& label, const J& d, fg::Extensions ext, C cat, bool glb, fg::Parser* reuse = nullptr, int user = 1) {
	std::string bin = "\x11\x22\x33\x44"; auto pre = spec::interpret(d, ext, O, cat, glb, bin); if (pre.reject || pre.lax) return;
	std::vector<Call> want; J m = d; const void* up = reinterpret_cast<const void*>(uintptr_t(user) * 16);
	auto closed = spec::closure(cat);
	for (auto& s : SEC) { if (s.filtered ? !(uint64_t(uint32_t(closed)) & uint64_t(uint32_t(s.cat))) : !(uint64_t(ext) & uint64_t(std::string(s.ext) == "KHR_implicit_shapes" ? fg::Extensions::KHR_implicit_shapes : fg::Extensions::KHR_physics_rigid_bodies)) ) continue; auto a = array(m, s); if (!a || a->t != J::Arr) continue; for (size_t i = 0; i < a->a.size(); ++i) if (auto e = a->a[i].get("extras"); e && e->t == J::Obj) want.push_back({ uint64_t(s.cat), i, jtext(*e), up }); }
	auto text = jtext(d); mc::context(key); mc::step(); mc::state(mc::hash(text) ^ uint64_t(cat) * 77 ^ uint64_t(ext) * 1234567 ^ glb); mc::note("%s ext=%llx cat=%x glb=%d: %.1500s", label.c_str(), (unsigned long long)ext, unsigned(cat), glb, text.c_str());
	auto bytes = glb ? glbOf(text, &bin) : text;
	fg::Parser own(ext); auto& p = reuse ? *reuse : own; g_calls.clear(); p.setExtrasParseCallback(&onParse); p.setUserPointer(const_cast<void*>(up)); auto l = load(p, bytes, O, cat);
	std::sort(want.begin(), want.end()); std::sort(g_calls.begin(), g_calls.end()); mc::outcome(mc::hash(show(g_calls)));
	if (!l.asset) return mc::fail(key + ":error", std::string(fg::getErrorName(l.error)) + "\n" + text);
	if (!(want == g_calls)) return mc::fail(key + ":calls", "expected " + show(want) + "but got " + show(g_calls) + "\n" + text);
	if (!want.empty()) mc::nontrivial();
	// without the callback: no calls, and the same asset
	g_calls.clear(); p.setExtrasParseCallback(nullptr); auto k = load(p, bytes, O, cat); if (!g_calls.empty()) return mc::fail(key + ":unset", show(g_calls)); if (!k.asset) return mc::fail(key + ":unset", std::string(fg::getErrorName(k.error)));
	std::string path; auto w = dump::diff(dump::asset(*k.asset, ext), dump::asset(*l.asset, ext), &path); if (!w.empty()) mc::fail(key + ":asset", w + "\n" + text);
}
struct Obj { const Sec* s; size_t i; };
static std::vector<Obj> objects(J& d) { std::vector<Obj> r; for (auto& s : SEC) if (auto a = array(d, s)) for (size_t i = 0; i < a->a.size(); ++i) r.push_back({ &s, i }); return r; }
// every object of a document which is not one of those with a category
static void nested(J& j, std::vector<J*>& out, const std::set<const J*>& top) { if (j.t == J::Obj) { if (!top.count(&j)) out.push_back(&j); for (auto& m : j.o) nested(m.second, out, top); } else for (auto& e : j.a) nested(e, out, top); }
static const std::vector<J>& documents() { static const std::vector<J> D{ docs::core(), docs::ext(), docs::phys() }; return D; }
static fg::Extensions extOf(unsigned k) { using E = fg::Extensions; static const E e[] = { ALL_EXT, E::None, E::KHR_implicit_shapes, E::KHR_physics_rigid_bodies }; return e[k]; }
static const C MASKS[] = { C::All, C::None, C::OnlyRenderable, C::OnlyAnimations, C::Accessors, C::Animations, C::Buffers, C::BufferViews, C::Cameras, C::Images, C::Materials, C::Meshes, C::Nodes, C::Samplers, C::Scenes, C::Skins, C::Textures, C::Asset };

// ---- writing
static std::map<std::pair<uint64_t, size_t>, std::string> g_give; static std::vector<Call> g_asked;
static std::optional<std::string> onWrite(size_t index, C cat, void* user) { g_asked.push_back({ uint64_t(cat), index, "", user }); auto it = g_give.find({ uint64_t(cat), index }); if (it == g_give.end()) return std::nullopt; return it->second; }
static std::vector<std::pair<const Sec*, size_t>> written(const A& a) {
	std::vector<std::pair<const Sec*, size_t>> r; size_t n[] = { a.accessors.size(), a.animations.size(), a.buffers.size(), a.bufferViews.size(), a.cameras.size(), a.images.size(), a.materials.size(), a.meshes.size(), a.nodes.size(), a.samplers.size(), a.scenes.size(), a.skins.size(), a.textures.size(), a.shapes.size(), a.physicsMaterials.size(), a.collisionFilters.size(), a.physicsJoints.size() };
	for (unsigned s = 0; s < NSEC; ++s) for (size_t i = 0; i < n[s]; ++i) r.push_back({ &SEC[s], i }); return r;
}
static const char* const TEXTS[] = { "{}", "{\"a\":\"b,]}\\\"\"}", "{ \"x\" : [ 1 , 2 ] }", "5", "null", "\"s\"", "[{}]" };
static void write(const std::string& key, const std::string& label, const A& a, Form f, const std::vector<std::pair<const Sec*, size_t>>& give, const char* text, fg::Exporter* reuse = nullptr) {
	mc::context(key); mc::step(); fg::Exporter own; auto& e = reuse ? *reuse : own; e.setExtrasWriteCallback(nullptr); auto plain = doExport(e, a, f); if (plain.err != fg::Error::None) return; J base; if (!wellFormed(plain, f, a, &base).empty()) return; // C13
	g_give.clear(); g_asked.clear(); for (auto& g : give) g_give[{ uint64_t(g.first->cat), g.second }] = text; void* up = &g_give; e.setExtrasWriteCallback(&onWrite); e.setUserPointer(up);
	std::string what = label + " extras " + text + " on"; for (auto& g : give) what += mc::fmt(" %s/%zu", g.first->name, g.second); mc::state(mc::hash(what) * 3 + f); mc::note("%s %s", FORMN[f], what.c_str());
	auto x = doExport(e, a, f); mc::outcome(mc::hash(x.json)); if (x.err != fg::Error::None) return mc::fail(key + ":error", what);
	J j; if (auto w = wellFormed(x, f, a, &j); !w.empty()) return mc::fail(key + ":malformed", what + ": " + w);
	std::vector<Call> want; for (auto& o : written(a)) want.push_back({ uint64_t(o.first->cat), o.second, "", up }); std::sort(want.begin(), want.end()); std::sort(g_asked.begin(), g_asked.end());
	if (!(want == g_asked)) return mc::fail(key + ":asked", what + ": expected " + show(want) + "but was asked " + show(g_asked));
	J t; jparse(text, t); for (auto& g : give) { auto arr = array(j, *g.first); auto o = arr && g.second < arr->a.size() ? &arr->a[g.second] : nullptr; auto v = o ? o->get("extras") : nullptr; if (!v || jtext(*v) != jtext(t)) return mc::fail(key + ":missing", what + ": " + x.json.substr(0, 3000)); o->erase("extras"); }
	if (jtext(j) != jtext(base)) return mc::fail(key + ":else", what + ": something else changed: " + x.json.substr(0, 3000) + "\ninstead of " + plain.json.substr(0, 3000));
	if (!give.empty()) mc::nontrivial();
}
static void model() {
	auto& D = documents();
	switch (mc::choose(8)) {
		case 0: { // one object
			unsigned d = mc::choose(3); J j = D[d]; auto o = objects(j); auto& x = mc::pick(o); if (!mc::mine()) return; J e; jparse(mc::pick(CONTENT), e); put(array(j, *x.s)->a[x.i], e, mc::flip()); auto cat = mc::pick(MASKS); unsigned k = mc::choose(mc::thorough() ? 4 : 2); parse(std::string("one/") + x.s->name, x.s->name, j, extOf(k), cat, mc::flip()); break; }
		case 1: { // two objects
			unsigned d = mc::choose(3); J j = D[d]; auto o = objects(j); unsigned p = mc::choose(unsigned(o.size())), q = mc::choose(unsigned(o.size())); if (q < p || !mc::mine()) return; J e, g; jparse(CONTENT[1], e); jparse(CONTENT[3], g); put(array(j, *o[p].s)->a[o[p].i], e, false); put(array(j, *o[q].s)->a[o[q].i], g, true); parse("two", "two", j, ALL_EXT, mc::thorough() ? mc::pick(MASKS) : C::All, false); break; }
		case 2: { // all subsets within a section of up to six (thorough: nine) elements
			unsigned d = mc::choose(3); J j = D[d]; std::vector<const Sec*> s; for (auto& x : SEC) if (auto a = array(j, x); a && !a->a.empty()) s.push_back(&x); auto& x = *mc::pick(s); unsigned n = 1 + mc::choose(mc::thorough() ? 9 : 6), sub = mc::choose(1u << n); if (!mc::mine()) return;
			auto a = array(j, x); auto src = a->a; a->a.clear(); for (unsigned i = 0; i < n; ++i) { J e = src[i % src.size()]; if (sub >> i & 1) { J c; jparse("{\"nr\":" + std::to_string(i) + "}", c); put(e, c, i & 1); } a->a.push_back(e); } static const C m[] = { C::All, C::OnlyRenderable }; parse(std::string("subset/") + x.name, "subset", j, ALL_EXT, mc::pick(m), mc::flip()); break; }
		case 3: { // extras of objects without a category, next to extras of those with one
			unsigned d = mc::choose(3); J j = D[d]; bool all = mc::flip(); auto o = objects(j); std::set<const J*> top; if (all) { J c; jparse(CONTENT[1], c); for (auto& x : o) put(array(j, *x.s)->a[x.i], c, true); } for (auto& x : o) top.insert(&array(j, *x.s)->a[x.i]); for (auto& x : o) if (auto e = array(j, *x.s)->a[x.i].get("extras")) top.insert(e);
			std::vector<J*> in; nested(j, in, top); unsigned k = mc::choose(unsigned(in.size())); if (!mc::mine()) return; J c; jparse(mc::pick(CONTENT), c); put(*in[k], c, mc::flip()); parse("nested", "nested", j, ALL_EXT, C::All, false); break; }
		case 4: { // one parser, several documents
			fg::Parser p(ALL_EXT); unsigned a[3]; for (auto& x : a) x = mc::choose(6); if (!mc::mine()) return; int n = 0; for (auto x : a) { J j = D[x % 3]; if (x < 3) for (auto& o : objects(j)) { J c; jparse("{\"o\":" + std::to_string(n) + "}", c); put(array(j, *o.s)->a[o.i], c, false); } parse("sequence", "sequence", j, ALL_EXT, C::All, x & 1, &p, ++n); } break; }
		case 5: { // writing the assets of the documents
			unsigned d = mc::choose(3); fg::Parser p(ALL_EXT); auto l = load(p, jtext(D[d]), O); if (!l.asset) { mc::fail("load", ""); return; } auto w = written(*l.asset); unsigned n = unsigned(w.size()); unsigned kind = mc::choose(4), x = kind < 2 ? 0 : mc::choose(n), y = kind == 3 ? mc::choose(n) : x; if (!mc::mine() || y < x) return; std::vector<std::pair<const Sec*, size_t>> g; if (kind == 1) g = w; if (kind == 2) g = { w[x] }; if (kind == 3) { g = { w[x] }; if (y != x) g.push_back(w[y]); }
			Form f = Form(mc::choose(3)); const char* t = kind == 3 ? TEXTS[1] : mc::pick(TEXTS); fg::Exporter e; write("write", "document " + std::to_string(d), *l.asset, f, g, t, &e); if (kind == 1) write("write", "again", *l.asset, f, {}, t, &e); break; }
		case 6: { // writing built assets: extras with every optional part present or absent
			static const auto K = kinds(); auto& k = mc::pick(K); unsigned p = mc::choose(unsigned(k.parts.size() + 1)), more = mc::choose(2); if (!mc::mine()) return; Form f = Form(mc::choose(3)); A a = fresh(); k.add(a); if (more) k.add(a); if (p) k.parts[p - 1].f(a); auto w = written(a); std::vector<std::pair<const Sec*, size_t>> g; unsigned sub = mc::choose(1u << std::min<size_t>(w.size(), 3)); for (size_t i = 0; i < w.size() && i < 3; ++i) if (sub >> i & 1) g.push_back(w[i]);
			write("write/" + k.name, k.name + (p ? "/" + k.parts[p - 1].label : "") + "+" + std::to_string(more), a, f, g, TEXTS[1]); break; }
		case 7: { // parse, write, parse: the extras survive
			unsigned d = mc::choose(3); unsigned c = mc::choose(6); Form f = Form(mc::choose(3)); if (!mc::mine()) return; J j = D[d]; J e; jparse(CONTENT[c], e); size_t n = 0; for (auto& o : objects(j)) if (n++ % 3 != 1) put(array(j, *o.s)->a[o.i], e, false);
			fg::Parser p(ALL_EXT); g_calls.clear(); p.setExtrasParseCallback(&onParse); auto l = load(p, jtext(j), O); if (!l.asset) return mc::fail("roundtrip", "load"); auto first = g_calls; g_give.clear(); for (auto& q : first) g_give[{ q.cat, q.index }] = q.text; fg::Exporter ex; ex.setExtrasWriteCallback(&onWrite); auto x = doExport(ex, *l.asset, f); g_calls.clear(); auto l2 = load(p, x.bytes, O); mc::context("roundtrip"); mc::step(); mc::state(mc::hash(x.json)); mc::outcome(mc::hash(show(g_calls))); if (!l2.asset) return mc::fail("roundtrip", "reload");
			std::sort(first.begin(), first.end()); std::sort(g_calls.begin(), g_calls.end()); if (!(first == g_calls)) mc::fail("roundtrip", show(first) + " became " + show(g_calls)); else mc::nontrivial(); break; }
	}
}
MC_MAIN(model)

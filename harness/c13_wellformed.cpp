// C13: whatever is exported is well-formed. Assets built by a program: every optional part of every object alone and
// in every pair (thorough: triple), next to none, one or more other elements; arbitrary text in every string; all
// JSON token sequences through prettyPrintJson and all character sequences through escapeString.
#include "built.hpp"

static const fg::Options O = fg::Options::AllowDouble;
// Only well-formedness, for assets which are not valid.
static void formOnly(const std::string& key, A& a, Form f, fg::Exporter& e) {
	auto before = dump::asset(a, ALL_EXT); auto x = doExport(e, a, f); mc::outcome(mc::hash(std::string(fg::getErrorName(x.err)) + key)); if (dump::asset(a, ALL_EXT) != before) mc::fail(key + ":asset changed", "");
	if (x.err != fg::Error::None) return; if (auto w = wellFormed(x, f, a); !w.empty()) return mc::fail(key + ":malformed", std::string(FORMN[f]) + ": " + w + "\n" + x.json.substr(0, 3000)); mc::nontrivial();
}
static void judgeAsset(const std::string& key, const std::string& label, A& a, Form f, bool valid) {
	mc::context(key); mc::step(); mc::state(mc::hash(label) * 7 + f); mc::note("%s %s%s", label.c_str(), FORMN[f], valid ? "" : " (not valid)"); fg::Exporter e;
	if (!valid) return formOnly(key, a, f, e); roundTrip(key, a, f, e, ALL_EXT, O);
}
static const char* const TOK[] = { "\"", "\\", "\n", "\x01", "\x1f", "{", "}", "[", "]", ",", ":", "a", "u", "/", "\xC3\xA9", "\xF0\x9F\x98\x80", "\x7f", "\b", "\t", " " };
static void strings(const Kind*) {
	// every string of the asset at once, and each alone
	static const char* const pos[] = { "all", "accessor", "animation", "buffer", "bufferView", "camera", "image", "light", "material", "mesh", "node", "sampler", "scene", "skin", "texture", "copyright", "generator", "version", "used", "required", "variant", "attribute", "target", "draco", "instancing", "system", "not", "with" };
	unsigned p = mc::choose(sizeof pos / sizeof *pos); unsigned len = 1 + mc::choose(p == 0 ? (mc::thorough() ? 4 : 3) : (mc::thorough() ? 3 : 2)); std::string t; for (unsigned i = 0; i < len; ++i) { t += mc::pick(TOK); if (i == 0 && !mc::mine()) return; } Form f = Form(p ? mc::choose(2) : mc::choose(3));
	std::string w = pos[p]; auto is = [&](const char* n) { return p == 0 || w == n; }; A a = fresh(); bool valid = true;
	if (is("accessor")) { auto& x = a.accessors.emplace_back(); x.count = 1; x.type = fg::AccessorType::Scalar; x.componentType = fg::ComponentType::Byte; x.name = t; }
	if (is("animation")) { auto& x = a.animations.emplace_back(); x.channels.emplace_back(fg::AnimationChannel{ 0, {}, fg::AnimationPath::Scale }); x.samplers.emplace_back(fg::AnimationSampler{ 0, 0 }); x.name = t; }
	if (is("buffer")) { auto& x = a.buffers.emplace_back(); x.byteLength = 1; x.name = t; fg::sources::Vector v; v.bytes.resize(1); x.data = v; }
	if (is("bufferView")) { auto& x = a.bufferViews.emplace_back(); x.bufferIndex = 0; x.byteLength = 1; x.name = t; }
	if (is("camera")) { auto& x = a.cameras.emplace_back(); fg::Camera::Perspective c{}; c.yfov = 1; c.znear = 1; x.camera = c; x.name = t; }
	if (is("image")) { auto& x = a.images.emplace_back(); x.data = fg::sources::BufferView{ 0, fg::MimeType::PNG }; x.name = t; }
	if (is("light")) { fg::Light l{}; l.type = fg::LightType::Point; l.color = fg::math::nvec3(1); l.intensity = 1; l.name = t; a.lights.push_back(std::move(l)); }
	if (is("material")) a.materials.emplace_back().name = t;
	if (is("mesh") || is("attribute") || is("target") || is("draco")) { auto& m = a.meshes.emplace_back(); if (is("mesh")) m.name = t; auto& q = m.primitives.emplace_back(); if (is("attribute")) q.attributes.emplace_back(fg::Attribute{ std::pmr::string(t), 1 }); if (is("target")) { q.targets.emplace_back(); q.targets[0].emplace_back(fg::Attribute{ std::pmr::string(t), 2 }); } if (is("draco")) { q.dracoCompression = std::make_unique<fg::DracoCompressedPrimitive>(); q.dracoCompression->bufferView = 0; q.dracoCompression->attributes.emplace_back(fg::Attribute{ std::pmr::string(t), 2 }); } }
	if (is("node") || is("instancing")) { auto& n = a.nodes.emplace_back(); if (is("node")) n.name = t; if (is("instancing")) n.instancingAttributes.emplace_back(fg::Attribute{ std::pmr::string(t), 3 }); }
	if (is("sampler")) a.samplers.emplace_back().name = t;
	if (is("scene")) a.scenes.emplace_back().name = t;
	if (is("skin")) { auto& s = a.skins.emplace_back(); s.joints.emplace_back(0); s.name = t; }
	if (is("texture")) a.textures.emplace_back().name = t;
	if (is("copyright")) a.assetInfo->copyright = t;
	if (is("generator")) a.assetInfo->generator = t;
	if (w == "version") { a.assetInfo->gltfVersion = t; valid = false; }
	if (is("used")) a.extensionsUsed.emplace_back(t);
	if (w == "required") { a.extensionsRequired.emplace_back(t); valid = false; }
	if (is("variant")) a.materialVariants.emplace_back(t);
	if (is("system") || is("not") || w == "with") { auto& c = a.collisionFilters.emplace_back(); if (is("system")) c.collisionSystems.emplace_back(t); if (is("not")) c.notCollideWithSystems.emplace_back(t); if (w == "with") c.collideWithSystems.emplace_back(t); }
	judgeAsset("text/" + w, "text in " + w + ": " + dump::D::hexs(reinterpret_cast<const std::byte*>(t.data()), t.size()), a, f, valid);
	if (!valid) { // the text must still be there
		fg::Exporter e; auto x = doExport(e, a, f); J j; if (jparse(x.json, j).empty()) { auto s = w == "version" ? j.get("asset")->get("version") : j.get("extensionsRequired") ? &j.get("extensionsRequired")->a[0] : nullptr; if (!s || s->t != J::Str || s->s != t) mc::fail("text/" + w + ":changed", x.json); }
	}
}
static void escapes() { // escapeString on every string of up to n characters
	unsigned n = mc::choose(mc::thorough() ? 6 : 5); std::string t; for (unsigned i = 0; i < n; ++i) { t += mc::pick(TOK); if (i == 1 && !mc::mine()) return; } if (!mc::mine()) return;
	mc::context("escape"); mc::step(); mc::state(mc::hash("e" + t)); Exact in(t.data(), t.size()); auto r = fg::escapeString(std::string_view(in.data(), in.n)); J j; auto w = jparse("\"" + r + "\"", j); mc::outcome(mc::hash(r)); mc::note("escape of %s is %s", dump::D::hexs(reinterpret_cast<const std::byte*>(t.data()), t.size()).c_str(), r.c_str());
	if (!w.empty() || j.t != J::Str || j.s != t) mc::fail("escape", t + " became " + r + " " + w); else mc::nontrivial();
	bool plain = true; for (unsigned char c : t) if (c < 0x20 || c == '"' || c == '\\') plain = false; if (plain && r != t) mc::fail("escape:plain", t + " became " + r);
}
static void byteEscapes() { // every single byte, and every pair around a special character
	unsigned c = mc::choose(128), q = mc::choose(4), d = q ? mc::choose(128) : 0; if (!mc::mine()) return; std::string t(1, char(c)); if (q) { t += q == 1 ? "" : q == 2 ? "\\" : "\""; t += char(d); }
	mc::context("escape"); mc::step(); mc::state(mc::hash("b" + t)); auto r = fg::escapeString(t); J j; auto w = jparse("\"" + r + "\"", j); mc::outcome(mc::hash(r)); if (!w.empty() || j.t != J::Str || j.s != t) mc::fail("escape", mc::fmt("%u %u", c, d) + " became " + r + " " + w); else mc::nontrivial();
}
// every JSON text of up to n tokens, derived from the grammar
static std::string S(unsigned i) { static const char* const s[] = { "\"\"", "\"a\"", "\"\\\"\"", "\"\\\\\"", "\"\\\\\\\"\"", "\"{\"", "\"]\"", "\",\"", "\":\\\\\\\\\"", "\"[\\\"]\"" }; return s[i]; }
static std::string value(int& budget, int depth) {
	--budget; unsigned k = mc::choose(budget > 0 && depth < 4 ? 8 : 4);
	if (k == 0) return S(mc::choose(10)); if (k == 1) return "1"; if (k == 2) return "true"; if (k == 3) return "-0.5e3";
	std::string r; bool obj = k >= 6; r = obj ? "{" : "["; bool first = true; int n = 0;
	if (k == 5 || k == 7) while (budget > 0 && (first || mc::flip())) { if (!first) r += ","; first = false; if (obj) { r += "\"" + std::string(1, char('p' + n++)) + "\":"; if (n == 1 && mc::flip()) { r.erase(r.size() - 4); r += S(2 + mc::choose(8)) + ":"; } } r += value(budget, depth + 1); }
	return r + (obj ? "}" : "]");
}
static void pretty() {
	unsigned size = 1 + mc::choose(mc::thorough() ? 5 : 4); int budget = int(size); unsigned pre = mc::choose(4); if (!mc::mine()) return; std::string t = pre == 0 ? value(budget, 0) : pre == 1 ? "[" + value(budget, 0) + ",{}]" : pre == 2 ? "{\"k\":" + value(budget, 0) + ",\"l\":[]}" : "[[[" + value(budget, 0) + "]]]";
	mc::context("pretty"); mc::step(); mc::state(mc::hash("p" + t)); J a, b; auto w = jparse(t, a); if (!w.empty()) mc::die(("harness: " + w + " in " + t).c_str()); std::string p = t; fg::prettyPrintJson(p); mc::outcome(mc::hash(p)); mc::note("%s -> %s", t.c_str(), p.c_str());
	w = jparse(p, b); if (!w.empty()) return mc::fail("pretty:malformed", t + " -> " + p + ": " + w); if (jtext(a) != jtext(b)) return mc::fail("pretty:changed", t + " -> " + p);
	mc::nontrivial();
	// only white space between tokens was added
	std::string s; bool q = false; for (size_t i = 0; i < p.size(); ++i) { if (q) { s += p[i]; if (p[i] == '\\') s += p[++i]; else if (p[i] == '"') q = false; } else { if (p[i] == '"') q = true; if (!strchr(" \t\n\r", p[i])) s += p[i]; } } if (s != t) mc::fail("pretty:tokens", t + " -> " + p);
	std::string again = p; fg::prettyPrintJson(again); J c; if (w = jparse(again, c); !w.empty() || jtext(a) != jtext(c)) mc::fail("pretty:again", t + " -> " + again);
}
static void model() {
	static const auto K = kinds();
	switch (mc::choose(8)) {
		case 0: { // one part; number and place of other elements
			auto& k = mc::pick(K); unsigned p = mc::choose(unsigned(k.parts.size() + 1)); if (!mc::mine()) return; unsigned more = mc::choose(3); Form f = Form(mc::choose(3)); A a = fresh(); bool valid = k.validAlone;
			k.add(a); for (unsigned i = 0; i < more; ++i) k.add(a); std::string label = k.name; if (p) { auto& x = k.parts[p - 1]; x.f(a); label += "/" + x.label; valid = x.valid && (k.validAlone || (x.label != "name" && x.label != "emptyname")); } if (more && !k.validAlone) valid = false;
			judgeAsset(k.name, label + "+" + std::to_string(more), a, f, valid); break; }
		case 1: { // two parts
			auto& k = mc::pick(K); unsigned n = unsigned(k.parts.size()); unsigned p = mc::choose(n); if (!mc::mine()) return; unsigned q = mc::choose(n); if (p == q) return; Form f = mc::thorough() ? Form(mc::choose(3)) : Form((p + q) % 3); A a = fresh(); k.add(a); auto &x = k.parts[p], &y = k.parts[q]; x.f(a); y.f(a);
			bool valid = false; // validity of a pair is left to the reference model
			{ fg::Exporter e; auto z = doExport(e, a, COMPACT); J j; if (z.err == fg::Error::None && jparse(z.json, j).empty() && validEnough(a) && (k.validAlone || x.valid || y.valid)) { auto c = spec::interpret(j, ALL_EXT, O); valid = !c.reject && !c.lax && x.valid && y.valid; } }
			judgeAsset(k.name, k.name + "/" + x.label + "+" + y.label, a, f, valid); break; }
		case 2: { // sections after each other: two kinds with one or two elements
			unsigned i = mc::choose(unsigned(K.size())), j = mc::choose(unsigned(K.size())); unsigned ni = mc::choose(3), nj = mc::choose(3); if (!mc::mine()) return; Form f = Form(mc::choose(3)); A a = fresh(); auto valid = [](const Kind& k) -> const Part* { for (auto& p : k.parts) if (p.valid && p.label.find("name") == std::string::npos) return &p; return nullptr; };
			for (unsigned n = 0; n < ni; ++n) K[i].add(a); if (ni) valid(K[i])->f(a); if (i != j) { for (unsigned n = 0; n < nj; ++n) K[j].add(a); if (nj) valid(K[j])->f(a); }
			bool v = (ni < 2 || K[i].validAlone) && (nj < 2 || i == j || K[j].validAlone); judgeAsset("sections", K[i].name + std::to_string(ni) + "," + K[j].name + std::to_string(nj), a, f, v); break; }
		case 3: strings(nullptr); break;
		case 4: escapes(); break;
		case 5: byteEscapes(); break;
		case 6: pretty(); break;
		case 7: { // three parts
			auto& k = mc::pick(K); unsigned n = unsigned(k.parts.size()); unsigned lim = mc::thorough() ? 60 : 16, step = n > lim ? n / lim + 1 : 1, m = (n + step - 1) / step, off = step > 1 ? mc::choose(mc::thorough() ? step : 1) : 0; unsigned p = mc::choose(m), q = mc::choose(m); if (q <= p || !mc::mine()) return; unsigned r = mc::choose(m); if (r <= q) return;
			A a = fresh(); k.add(a); std::string label = k.name; for (unsigned i : { p, q, r }) { i = i * step + off; if (i >= n) return; k.parts[i].f(a); label += "/" + k.parts[i].label; }
			judgeAsset(k.name, label, a, Form((p + q + r) % 3), false); break; }
	}
}
MC_MAIN(model)

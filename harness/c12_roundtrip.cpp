// C12: whatever can be loaded can be exported and loaded again. All documents of the departure spaces of C03, C05 and
// C06, exported in every form; the exported document is interpreted by the reference model and by the real parser.
#include "parse_model.hpp"
#include "exporting.hpp"
static void one(const std::string& label, const J& d, fg::Extensions ext, fg::Options opt, Form f, bool reused = false) {
	auto pre = spec::interpret(d, ext, opt); if (pre.reject || pre.lax) return;
	auto text = jtext(d); mc::context(generic(label)); mc::step(); mc::state(mc::hash(text) * 31 + f); mc::note("%s: %.1500s", label.c_str(), text.c_str());
	fg::Parser p(ext); auto l = load(p, text, opt); if (!l.asset) return; // C03, C05, C06 decide about that
	fg::Exporter e;
	if (reused) { static const J D[] = { docs::core(), docs::ext() }; for (auto& o : D) { fg::Parser q(ALL_EXT); auto k = load(q, jtext(o), fg::Options::AllowDouble); if (k.asset) { doExport(e, *k.asset, PRETTY); k.asset->buffers[0].data = fg::sources::CustomBuffer{}; doExport(e, *k.asset, GLB); } } }
	roundTrip(generic(label), *l.asset, f, e, ext, opt);
}
static void model() {
	static const J D[] = { docs::core(), docs::ext(), docs::phys() }; static const fg::Options O = fg::Options::AllowDouble;
	static const DocSpace S[] = { makeSpace(D[0], ALL_EXT, O, mc::thorough() ? 3 : 2, 0, true), makeSpace(D[1], ALL_EXT, O, mc::thorough() ? 3 : 2, 0, true), makeSpace(D[2], ALL_EXT, O, mc::thorough() ? 6 : 4, 0, true) };
	unsigned doc = mc::choose(3); auto& s = S[doc];
	switch (mc::choose(5)) {
		case 4: { // URIs: every string of up to four of these, as a buffer and as an image
			static const char* const tok[] = { "a", "b.bin", "/", ":", "?", "#", "%2525", "%2520", "%23", "%3F", "%2F", "%3a", "@", "%40", "[::1]", "//", " ", "%%", "%00", "%5c", "\\\\", "é", "http://h:80/", "..", "\\\"" };
			std::string u; bool image = mc::flip(); unsigned n = 1 + mc::choose(mc::thorough() ? 5 : 4); for (unsigned i = 0; i < n; ++i) { u += mc::pick(tok); if (i == 1 && !mc::mine()) return; } if (!mc::mine()) return;

			{ // malformed URIs are not the exporter's business
				auto colon = u.find(':'); if (colon < u.find_first_of("/?#")) { if (!isalpha((unsigned char)u[0])) return; for (size_t i = 0; i < colon; ++i) if (!isalnum((unsigned char)u[i])) return; }
				for (auto b = u.find("[::1]"); b != std::string::npos; b = u.find("[::1]", b + 1)) { auto slashes = u.find("//"); bool ok = slashes != std::string::npos && slashes + 2 <= b && u.find_first_of("/?#[", slashes + 2) == b && (b == slashes + 2 || u[b - 1] == '@') && (b + 5 == u.size() || strchr("/?#:", u[b + 5])); if (!ok) return; }
			}
			one("uri", docs::lit(("{\"asset\":{\"version\":\"2.0\"},\"" + std::string(image ? "images" : "buffers") + "\":[{\"uri\":\"" + u + "\"" + (image ? "" : ",\"byteLength\":5") + "}]}").c_str()), ALL_EXT, O, COMPACT); break; }
		case 0: { auto [t, a] = single(s.targets); if (!mc::mine() || !t) return; J d = s.doc; if (!spec::apply(d, *t, *a)) return; Form f = Form(mc::choose(FORMS)); one(t->label, d, ALL_EXT, O, f, mc::flip()); break; }
		case 1: { auto& x = s.sections[mc::choose(unsigned(s.sections.size()))]; unsigned n = unsigned(x.targets.size()); if (n < 2) return; unsigned i = mc::choose(n), j = mc::choose(n); if (j <= i || !mc::mine()) return;
			auto& ai = x.targets[i].alts[x.few[i][mc::choose(unsigned(x.few[i].size()))]]; auto& aj = x.targets[j].alts[x.few[j][mc::choose(unsigned(x.few[j].size()))]];
			J d = x.doc; if (!spec::apply(d, x.targets[j], aj) || !spec::apply(d, x.targets[i], ai)) return; one(x.targets[i].label + "+" + x.targets[j].label, d, ALL_EXT, O, mc::thorough() ? Form(mc::choose(FORMS)) : COMPACT); break; }
		case 2: { // sections alone, emptied and in subsets: what precedes and follows a section in the output
			std::vector<std::string> k; for (auto& m : s.doc.o) if (m.first != "asset") k.push_back(m.first); unsigned keep = 0; for (size_t i = 0; i < k.size() && i < 8; ++i) keep |= unsigned(mc::flip()) << i; if (!mc::mine()) return; for (size_t i = 8; i < k.size(); ++i) keep |= unsigned(mc::flip()) << i;
			J d = s.doc; for (size_t i = 0; i < k.size(); ++i) if (!(keep >> i & 1)) d.erase(k[i]); one("subset", d, ALL_EXT, O, mc::thorough() ? Form(mc::choose(FORMS)) : Form(keep % 3)); break; }
		case 3: { // repeated elements
			std::vector<std::string> k; for (auto& m : s.doc.o) if (m.second.t == J::Arr && !m.second.a.empty()) k.push_back(m.first); auto& sec = mc::pick(k); unsigned len = mc::choose(mc::thorough() ? 60 : 24); if (!mc::mine()) return; Form f = Form(mc::choose(FORMS));
			J d = s.doc; auto src = s.doc.get(sec)->a; std::vector<J> v; for (unsigned i = 0; i < len; ++i) { J e = src[i % src.size()]; if (e.t == J::Obj) e.set("name", J::str("n" + std::to_string(i))); v.push_back(e); } d.set(sec, J::arr(v)); one("size/" + sec, d, ALL_EXT, O, f); break; }
	}
}
MC_MAIN(model)

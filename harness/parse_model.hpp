// Shared exploration of document departures: which departures, how they are judged.
#pragma once
#include "load.hpp"

struct DocSpace {
	J doc; std::vector<spec::Target> targets; size_t base = 0;
	// pairs: per section, the targets below it in a document reduced to that section
	struct Section { std::string name; J doc; std::vector<spec::Target> targets; std::vector<std::vector<unsigned>> few; };
	std::vector<Section> sections;
};
// The alternatives used in pairs: absent, the first two valid ones and the first malformed one (by the reference model).
inline std::vector<unsigned> reduce(const J& base, const spec::Target& t, fg::Extensions ext, fg::Options opt, unsigned valid, unsigned bad) {
	std::vector<unsigned> r; unsigned v = 0, b = 0;
	auto base_out = spec::interpret(base, ext, opt).out;
	for (unsigned i = 0; i < t.alts.size(); ++i) {
		J d = base; if (!spec::apply(d, t, t.alts[i])) continue;
		auto c = spec::interpret(d, ext, opt);
		if (t.alts[i].absent) r.push_back(i);
		else if (!c.reject && !c.lax) { if (v < valid && c.out != base_out) { ++v; r.push_back(i); } }
		else if (b < bad) { ++b; r.push_back(i); }
	}
	if (r.empty() && !t.alts.empty()) r.push_back(0);
	return r;
}
inline DocSpace makeSpace(const J& doc, fg::Extensions ext, fg::Options opt, unsigned valid, unsigned bad, bool manual) {
	DocSpace s; s.doc = doc; std::vector<std::string> path; spec::collect(spec::root(), doc, path, s.targets);
	if (manual) spec::manual(doc, s.targets);
	s.base = s.targets.size(); std::set<std::string> have; for (auto& t : s.targets) have.insert(t.label);
	J d = doc; d.erase("asset"); spec::sweep(d, path, have, s.targets);
	auto section = [&](const std::string& n, J d) {
		DocSpace::Section x; x.name = n; x.doc = std::move(d); std::vector<spec::Target> all; spec::collect(spec::root(), x.doc, path, all);
		for (auto& t : all) if (!t.parent.empty()) { auto f = reduce(x.doc, t, ext, opt, valid, bad); if (!f.empty()) { x.targets.push_back(t); x.few.push_back(f); } }
		s.sections.push_back(std::move(x));
	};
	for (auto& m : doc.o) {
		if (m.first == "asset" || m.first == "scene" || m.first == "extensionsUsed") continue;
		if (m.second.t == J::Arr && m.second.a.size() > 0) {
			// one section per array element (others dropped): pairs across elements of one array are covered by the two-element sections below
			for (size_t i = 0; i < m.second.a.size(); ++i) { if (m.second.a[i].o.empty()) continue; J d = J::obj(); d.set("asset", *doc.get("asset")); d.set(m.first, J::arr({ m.second.a[i] })); section(m.first + std::to_string(i), d); }
		} else if (m.second.t == J::Obj) for (auto& e : m.second.o) for (auto& arr : e.second.o) if (arr.second.t == J::Arr) for (size_t i = 0; i < arr.second.a.size(); ++i) { if (arr.second.a[i].t != J::Obj || arr.second.a[i].o.empty()) continue; J d = J::obj(); d.set("asset", *doc.get("asset")); J in = J::obj(); in.set(arr.first, J::arr({ arr.second.a[i] })); J ex = J::obj(); ex.set(e.first, in); d.set("extensions", ex); section(e.first + std::to_string(i), d); }
	}
	return s;
}
enum Report { VALID = 1, MALFORMED = 2 };
// Judges one document; reports only what belongs to the running check.
inline void check(const std::string& label, const J& doc, int style, fg::Extensions ext, fg::Options opt, int report, fg::Category cat = fg::Category::All, bool glb = false) {
	auto pre = spec::interpret(doc, ext, opt, cat);
	if (pre.reject ? !(report & MALFORMED) : pre.lax ? false : !(report & VALID)) return;
	std::string text = jtext(doc, style), bin = "\x11\x22\x33\x44";
	mc::context(generic(label)); mc::step(); mc::state(mc::hash(text) ^ (static_cast<uint64_t>(ext) * 0x9E3779B97F4A7C15ull) ^ static_cast<uint64_t>(opt) ^ static_cast<uint64_t>(cat) * 0x51ull ^ (glb ? 77 : 0));
	mc::note("%s ext=%llx opt=%llx: %.1500s", label.c_str(), (unsigned long long)ext, (unsigned long long)opt, text.c_str());
	auto v = judge(doc, glb ? glbOf(text, &bin) : text, ext, opt, cat, glb, bin);
	mc::outcome(mc::hash(std::string(v.gotError ? fg::getErrorName(v.err) : "ok") + label));
	if (!v.gotError || v.wantReject) mc::nontrivial();
	if (!v.diff.empty()) mc::fail(generic(label) + ":" + (v.wantReject ? "accepted" : v.path == "!" ? "rejected" : generic(v.path)), v.diff + "\nextensions=" + mc::fmt("%llx", (unsigned long long)ext) + "\n" + text);
}
inline const std::pair<const spec::Target*, const spec::Alt*> single(const std::vector<spec::Target>& t) {
	auto& x = t[mc::choose(unsigned(t.size()))]; if (x.alts.empty()) return { nullptr, nullptr };
	return { &x, &x.alts[mc::choose(unsigned(x.alts.size()))] };
}
inline void singles(const DocSpace& s, fg::Extensions ext, fg::Options opt, int report, bool styles) {
	auto [t, a] = single(s.targets); if (!mc::mine() || !t) return;
	J d = s.doc; if (!spec::apply(d, *t, *a)) return;
	int st = styles ? int(mc::choose(3)) : 0;
	check(t->label, d, st, ext, opt, report);
}
inline void pairs(const DocSpace& s, fg::Extensions ext, fg::Options opt, int report) {
	auto& x = s.sections[mc::choose(unsigned(s.sections.size()))];
	unsigned n = unsigned(x.targets.size()); if (n < 2) return;
	unsigned i = mc::choose(n), j = mc::choose(n); if (j <= i) return;
	if (!mc::mine()) return;
	auto& ai = x.targets[i].alts[x.few[i][mc::choose(unsigned(x.few[i].size()))]]; auto& aj = x.targets[j].alts[x.few[j][mc::choose(unsigned(x.few[j].size()))]];
	J d = x.doc; if (!spec::apply(d, x.targets[j], aj) || !spec::apply(d, x.targets[i], ai)) return;
	check(x.targets[i].label + "+" + x.targets[j].label, d, 0, ext, opt, report);
}

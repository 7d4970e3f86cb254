// C24: iterateSceneNodes / getTransformMatrix / getLocalTransformMatrix against a reference traversal in doubles, for all
// small node graphs, and local transforms of parsed nodes in all three representations.
#include "load.hpp"
#include <array>
namespace m = fg::math;
using M = std::array<double, 16>; // column major
static const M I = { 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1 };
static M mul(const M& a, const M& b) { M r{}; for (int c = 0; c < 4; ++c) for (int i = 0; i < 4; ++i) for (int k = 0; k < 4; ++k) r[size_t(c * 4 + i)] += a[size_t(k * 4 + i)] * b[size_t(c * 4 + k)]; return r; }
struct Trs { double t[3], r[4], s[3]; };
static M compose(const Trs& x) {
	const double X = x.r[0], Y = x.r[1], Z = x.r[2], W = x.r[3];
	double R[9] = { 1 - 2 * (Y * Y + Z * Z), 2 * (X * Y + W * Z), 2 * (X * Z - W * Y), 2 * (X * Y - W * Z), 1 - 2 * (X * X + Z * Z), 2 * (Y * Z + W * X), 2 * (X * Z + W * Y), 2 * (Y * Z - W * X), 1 - 2 * (X * X + Y * Y) };
	M m{}; for (int c = 0; c < 3; ++c) { for (int i = 0; i < 3; ++i) m[size_t(c * 4 + i)] = R[c * 3 + i] * x.s[c]; m[size_t(12 + c)] = x.t[c]; } m[15] = 1; return m;
}
static const double H = std::sqrt(0.5);
static const std::vector<Trs>& trsSet() {
	static const std::vector<Trs> v = {
		{ { 0, 0, 0 }, { 0, 0, 0, 1 }, { 1, 1, 1 } }, { { 1, 2, 3 }, { 0, 0, 0, 1 }, { 1, 1, 1 } }, { { 0, 0, 0 }, { 0, 0, H, H }, { 1, 1, 1 } }, { { 0, 0, 0 }, { 0, 0, 0, 1 }, { 2, 3, 4 } },
		{ { -1, 0, 5 }, { .5, .5, .5, .5 }, { 1, 2, .5 } }, { { 4, 4, -4 }, { 0, H, 0, -H }, { -1, 2, 1 } }, { { 0, 1, 0 }, { H, H, 0, 0 }, { 1, 1, 3 } }, { { 2, 0, 0 }, { 0, .6, 0, .8 }, { -1, -1, -2 } } };
	return v;
}
static M toM(const m::fmat4x4& x) { M r; for (size_t c = 0; c < 4; ++c) for (size_t i = 0; i < 4; ++i) r[c * 4 + i] = x.col(c)[i]; return r; }
static m::fmat4x4 fromM(const M& x) { m::fmat4x4 r; for (size_t c = 0; c < 4; ++c) for (size_t i = 0; i < 4; ++i) r.col(c)[i] = float(x[c * 4 + i]); return r; }
static bool near(const M& a, const M& b, double tol = 1e-5) { double s = 1; for (double x : b) s = std::max(s, std::abs(x)); for (size_t i = 0; i < 16; ++i) if (!(std::abs(a[i] - b[i]) <= tol * s)) return false; return true; }
static std::string str(const M& a) { std::string r; for (double x : a) r += mc::fmt("%g ", x); return r; }
static fg::TRS toTrs(const Trs& x) { fg::TRS t; for (size_t i = 0; i < 3; ++i) { t.translation[i] = float(x.t[i]); t.scale[i] = float(x.s[i]); } for (size_t i = 0; i < 4; ++i) t.rotation[i] = float(x.r[i]); return t; }
struct Visit { size_t node; M m; };
static void walk(const std::vector<std::vector<size_t>>& ch, const std::vector<M>& local, size_t n, const M& parent, std::vector<Visit>& out) { M w = mul(parent, local[n]); out.push_back({ n, w }); for (size_t c : ch[n]) walk(ch, local, c, w, out); }
static void compare(const char* key, fg::Asset& a, size_t scene, const std::vector<Visit>& want, const M& initial, const std::string& what) {
	mc::context(key);
	for (int form = 0; form < 3; ++form) {
		std::vector<Visit> got; auto cb = [&](const fg::Node& n, const m::fmat4x4& x) { got.push_back({ size_t(&n - a.nodes.data()), toM(x) }); }; mc::step();
		if (form == 0) fg::iterateSceneNodes(a, scene, fromM(initial), cb); else if (form == 1) fg::iterateSceneNodes(static_cast<const fg::Asset&>(a), scene, fromM(initial), cb); else fg::iterateSceneNodes(a, scene, fromM(initial), [&](fg::Node& n, m::fmat4x4 x) { cb(n, x); });
		if (got.size() != want.size()) { mc::fail(std::string(key) + ":visits", mc::fmt("%zu nodes visited, %zu expected: ", got.size(), want.size()) + what); return; }
		for (size_t i = 0; i < got.size(); ++i) {
			if (got[i].node != want[i].node) { mc::fail(std::string(key) + ":order", mc::fmt("visit %zu is node %zu, expected %zu: ", i, got[i].node, want[i].node) + what); return; }
			if (!near(got[i].m, want[i].m, 1e-5 + 2e-7 * double(want.size()))) { mc::fail(std::string(key) + ":transform", mc::fmt("visit %zu: ", i) + str(got[i].m) + " expected " + str(want[i].m) + what); return; }
		}
	}
}
static const M& initialSet(unsigned i) { static const M s[3] = { I, compose({ { 10, 20, 30 }, { 0, 0, 0, 1 }, { 1, 1, 1 } }), compose({ { 1, 0, -1 }, { H, 0, 0, H }, { 2, 2, 1 } }) }; return s[i]; }
static fg::Asset build(const std::vector<std::vector<size_t>>& ch, const std::vector<M>& local, const std::vector<int>& kind) {
	fg::Asset a; for (size_t i = 0; i < ch.size(); ++i) { auto& n = a.nodes.emplace_back(); for (size_t c : ch[i]) n.children.emplace_back(c); if (kind[i] >= 0) n.transform = toTrs(trsSet()[size_t(kind[i])]); else n.transform = fromM(local[i]); } return a;
}
static void graphs() {
	unsigned n = 1 + mc::choose(mc::thorough() ? 5 : 4), edges = n * (n - 1) / 2; std::vector<size_t> perm(n); std::vector<size_t> left; for (size_t i = 0; i < n; ++i) left.push_back(i);
	for (size_t i = 0; i < n; ++i) { unsigned k = n > 4 ? (unsigned(i) * 2 + 1) % unsigned(left.size()) : mc::choose(unsigned(left.size())); perm[i] = left[k]; left.erase(left.begin() + k); }
	if (!mc::mine()) return;
	std::vector<std::vector<size_t>> ch(n); bool rev = n > 2 && mc::flip(); unsigned e = 0;
	for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) { ++e; if (mc::flip()) ch[perm[i]].push_back(perm[j]); } (void)edges;
	if (rev) for (auto& c : ch) std::reverse(c.begin(), c.end());
	std::vector<size_t> roots; unsigned nr = mc::choose(3); for (unsigned i = 0; i < nr; ++i) roots.push_back(mc::choose(n));
	unsigned set = mc::choose(4); std::vector<M> local(n); std::vector<int> kind(n);
	for (size_t i = 0; i < n; ++i) { int k = int((i * (set + 1) + set * 3 + 1) % trsSet().size()); local[i] = compose(trsSet()[size_t(k)]); kind[i] = (i + set) % 3 == 2 ? -1 : k; }
	auto a = build(ch, local, kind); auto& other = a.scenes.emplace_back(); other.nodeIndices.emplace_back(n - 1); auto& s = a.scenes.emplace_back(); for (size_t r : roots) s.nodeIndices.emplace_back(r);
	unsigned in = mc::choose(3); std::vector<Visit> want; for (size_t r : roots) walk(ch, local, r, initialSet(in), want);
	std::string what; for (size_t i = 0; i < n; ++i) { what += mc::fmt(" %zu->", i); for (size_t c : ch[i]) what += std::to_string(c); } what += " roots"; for (size_t r : roots) what += " " + std::to_string(r);
	mc::note("%s", what.c_str()); if (want.size() > 1) mc::nontrivial();
	compare("graph", a, 1, want, initialSet(in), what);
	for (size_t i = 0; i < n; ++i) { if (!near(toM(fg::getLocalTransformMatrix(a.nodes[i])), local[i])) mc::fail("getLocalTransformMatrix", what); if (!near(toM(fg::getTransformMatrix(a.nodes[i], fromM(initialSet(in)))), mul(initialSet(in), local[i])) || !near(toM(fg::getTransformMatrix(a.nodes[i])), local[i])) mc::fail("getTransformMatrix", what); }
}
static void shapes() { // long chains and wide fans
	static const std::vector<unsigned> lens = { 2, 7, 8, 9, 16, 17, 33, 64, 100, 255, 256, 257, 1000 }; unsigned n = mc::pick(lens); bool chain = mc::flip(); unsigned set = mc::choose(3); if (!mc::mine()) return;
	std::vector<std::vector<size_t>> ch(n); for (size_t i = 1; i < n; ++i) ch[chain ? i - 1 : 0].push_back(chain ? i : n - i);
	std::vector<M> local(n, I); std::vector<int> kind(n, 0); for (size_t i = 0; i < n; ++i) { int k = set == 0 ? 1 : set == 1 ? 2 : (i % 2 ? 1 : 2); local[i] = compose(trsSet()[size_t(k)]); kind[i] = i % 5 == 4 ? -1 : k; }
	auto a = build(ch, local, kind); a.scenes.emplace_back().nodeIndices.emplace_back(0u); std::vector<Visit> want; walk(ch, local, 0, I, want); mc::nontrivial(); mc::note("%s of %u", chain ? "chain" : "fan", n); compare(chain ? "chain" : "fan", a, 0, want, I, std::to_string(n));
}
static std::string num(double v) { return mc::fmt("%.9g", v); }
static void parsed() { // a node given as matrix, as TRS with any subset of members, or decomposed while loading
	unsigned k = mc::choose(unsigned(trsSet().size() + 3)), form = mc::choose(3), drop = form == 0 ? mc::choose(8) : 0; Trs x = k < trsSet().size() ? trsSet()[k] : Trs{ { 1, 2, 3 }, { 0, 0, H, H }, { k == trsSet().size() ? 0. : 2., k >= trsSet().size() + 1 ? 0. : 3., k == trsSet().size() + 2 ? 0. : 4. } }; unsigned in = mc::choose(3); if (!mc::mine()) return;
	if (drop & 1) x.t[0] = x.t[1] = x.t[2] = 0;
	if (drop & 2) { x.r[0] = x.r[1] = x.r[2] = 0; x.r[3] = 1; }
	if (drop & 4) x.s[0] = x.s[1] = x.s[2] = 1;
	M local = compose(x); std::string node;
	if (form == 0) { if (!(drop & 1)) node += ",\"translation\":[" + num(x.t[0]) + "," + num(x.t[1]) + "," + num(x.t[2]) + "]"; if (!(drop & 2)) node += ",\"rotation\":[" + num(x.r[0]) + "," + num(x.r[1]) + "," + num(x.r[2]) + "," + num(x.r[3]) + "]"; if (!(drop & 4)) node += ",\"scale\":[" + num(x.s[0]) + "," + num(x.s[1]) + "," + num(x.s[2]) + "]"; }
	else { node = ",\"matrix\":["; for (size_t i = 0; i < 16; ++i) node += (i ? "," : "") + num(local[i]); node += "]"; }
	std::string js = "{\"asset\":{\"version\":\"2.0\"},\"scene\":0,\"scenes\":[{\"nodes\":[1]}],\"nodes\":[{\"name\":\"child\"" + node + "},{\"children\":[0],\"translation\":[1,1,1]}]}"; mc::context("parsed"); mc::note("%s", js.c_str());
	auto opt = form == 2 ? fg::Options::DecomposeNodeMatrices : fg::Options::None; fg::Parser p; auto data = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(js.data()), js.size()); auto a = p.loadGltfJson(data.get(), ".", opt); if (a.error() != fg::Error::None) return mc::fail("parsed:error", js);
	if (form == 1 && !std::holds_alternative<m::fmat4x4>(a->nodes[0].transform)) mc::fail("parsed:representation", js);
	if (form != 1 && !std::holds_alternative<fg::TRS>(a->nodes[0].transform)) mc::fail("parsed:representation", js);
	static const char* f[] = { "TRS", "matrix", "decomposed" }; auto got = toM(fg::getLocalTransformMatrix(a->nodes[0])); if (!near(got, local)) mc::fail(std::string("parsed:local transform:") + f[form], str(got) + " expected " + str(local) + js);
	std::vector<Visit> want; walk({ {}, { 0 } }, { local, compose({ { 1, 1, 1 }, { 0, 0, 0, 1 }, { 1, 1, 1 } }) }, 1, initialSet(in), want); compare("parsed", a.get(), 0, want, initialSet(in), js);
}
static void model() { switch (mc::choose(3)) { case 0: return graphs(); case 1: return shapes(); default: return parsed(); } }
MC_MAIN(model)

// C16: sparse accessors: all index subsets x index types x base/no base x strides x access styles, all iterator operation
// sequences, and counts beyond the range of the index types, against a reference array.
#include "acc.hpp"
static std::vector<double> elem(AT at, CT ct, size_t seed) { auto al = alphabet(ct, CT::Double, false); std::vector<double> v(comps(at)); for (size_t c = 0; c < v.size(); ++c) v[c] = ctFloat(ct) ? double(float(double(seed) * 1.25 + double(c) * .125)) : std::fmod(double(seed * 7 + c), 2 * std::floor(ctMax(ct) / 2)) + (seed % 5 == 4 ? ctMin(ct) : 0); for (auto& x : v) if (!ctFloat(ct)) { if (x > ctMax(ct)) x = ctMax(ct); } return v; }
static const std::vector<CT> ICT = { CT::UnsignedByte, CT::UnsignedShort, CT::UnsignedInt };
struct Kind { CT ct; AT at; bool norm; };
static Layout L; static Sparse S; static bool base;
static std::string describe(unsigned style) { std::string r = mc::fmt("%s %s%s count %zu base %d stride %zu offsets %zu/%zu/%zu/%zu index type %s style %s indices", atName(L.at), ctName(L.ct), L.normalized ? " normalized" : "", L.count, int(base), L.stride, S.iview, S.ioff, S.vview, S.voff, ctName(S.ict), styleName(style)); for (size_t k = 0; k < S.idx.size() && k < 20; ++k) r += " " + std::to_string(S.idx[k]); return r; }
template <class E> void setup(Built& b) { std::vector<std::vector<double>> v; for (size_t i = 0; i < L.count; ++i) v.push_back(elem(L.at, L.ct, i + 1)); S.val.clear(); for (size_t k = 0; k < S.idx.size(); ++k) S.val.push_back(elem(L.at, L.ct, 500 + k * 3)); build(b, L, base ? &v : nullptr, &S); }
static void offsets(bool many) { S.ict = mc::pick(ICT); base = mc::flip(); size_t al = std::max<size_t>(ctSize(L.ct), 4); L.stride = base && mc::flip() ? (elemBytes(L.at, L.ct) + al - 1) / al * al + al : 0; unsigned o = many ? mc::choose(3) : 0; S.iview = o == 1 ? 4 : 0; S.ioff = o == 2 ? ctSize(S.ict) * 2 : 0; S.vview = o == 2 ? 8 : 0; S.voff = o == 1 ? al : 0; L.viewOffset = o == 1 ? 16 : 0; L.accOffset = base && o == 2 ? al : 0; L.source = o; }
template <class E> void subsets(CT ct, bool norm) {
	L = {}; S = {}; L.ct = ct; L.at = fg::ElementTraits<E>::type; L.normalized = norm; L.count = mc::choose((mc::thorough() ? 9 : 6) + 1); if (!mc::mine()) return;
	for (uint32_t i = 0; i < L.count; ++i) if (mc::flip()) S.idx.push_back(i);
	offsets(true); unsigned style = mc::choose(S_COUNT); Built b; setup<E>(b); auto what = describe(style); mc::context(what); mc::note("%s", what.c_str()); if (!S.idx.empty()) mc::nontrivial(); checkAll<E>(b, style, what, S.idx.empty() ? "sparse empty:" : base ? "sparse:" : "sparse no base:");
}
// random access in every order of three elements, interleaved with nothing: must be independent of the order
static void order() {
	L = {}; S = {}; L.ct = CT::Float; L.at = AT::Vec2; L.count = 5; for (uint32_t i = 0; i < 5; ++i) if (mc::flip()) S.idx.push_back(i); if (!mc::mine()) return; offsets(false); std::string seq; Built b; setup<m::fvec2>(b); auto what = describe(S_INDEX); mc::context(what);
	for (int k = 0; k < 3; ++k) { size_t i = mc::choose(5); seq += " " + std::to_string(i); mc::step(); auto e = fg::getAccessorElement<m::fvec2>(b.a, b.a.accessors[0], i); for (size_t c = 0; c < 2; ++c) if (double(e[c]) != b.want[i][c]) return mc::fail("random access", what + " order" + seq); }
	mc::note("%s order%s", what.c_str(), seq.c_str());
}
// all sequences of iterator operations
static void iterator() {
	L = {}; S = {}; L.ct = CT::Float; L.at = AT::Scalar; L.count = mc::thorough() ? 5 : 4; for (uint32_t i = 0; i < L.count; ++i) if (mc::flip()) S.idx.push_back(i); S.ict = CT::UnsignedShort; base = mc::flip(); if (!mc::mine()) return; Built b; setup<float>(b); std::string seq; auto what = describe(S_RANGE); mc::context("iterator " + what);
	auto r = fg::iterateAccessor<float>(b.a, b.a.accessors[0]); auto it = r.begin(), saved = it; size_t pos = 0, spos = 0; unsigned depth = mc::thorough() ? 7 : 6;
	auto bad = [&](const char* w) { mc::fail(std::string("iterator:") + w, what + " ops " + seq); };
	for (unsigned d = 0; d < depth; ++d) {
		mc::step(); unsigned op = mc::choose(6);
		switch (op) {
		case 0: seq += "* "; if (pos >= L.count) break; if (double(*it) != b.want[pos][0]) return bad("dereference"); break;
		case 1: seq += "++ "; if (pos < L.count) { ++it; ++pos; } break;
		case 2: seq += "*it++ "; if (pos < L.count) { if (double(*it++) != b.want[pos][0]) return bad("dereference postfix"); ++pos; } break;
		case 3: seq += "save "; saved = it; spos = pos; break;
		case 4: seq += "restore "; it = saved; pos = spos; break;
		default: seq += "rewind "; it = r.begin(); pos = 0; break;
		}
		if ((it == r.end()) != (pos == L.count)) return bad("end comparison"); if (size_t(it - r.begin()) != pos) return bad("difference");
		mc::outcome(mc::hash(&pos, sizeof pos, mc::hash(seq)));
	}
	mc::nontrivial(); mc::note("%s ops %s", what.c_str(), seq.c_str());
}
// an iterator constructed in the middle of the accessor
static void middle() {
	L = {}; S = {}; L.ct = CT::Float; L.at = AT::Scalar; L.count = 6; for (uint32_t i = 0; i < L.count; ++i) if (mc::flip()) S.idx.push_back(i); if (!mc::mine()) return; offsets(false); size_t at = mc::choose(7); Built b; setup<float>(b); auto what = describe(S_RANGE) + mc::fmt(" starting at %zu", at); mc::context("middle"); auto r = fg::iterateAccessor<float>(b.a, b.a.accessors[0]); decltype(r.begin()) it(&r, at); for (size_t i = at; i < L.count; ++i, ++it) { mc::step(); if (double(*it) != b.want[i][0]) return mc::fail("iterator from the middle", what); } if (it != r.end()) mc::fail("iterator from the middle: end", what);
}
// counts beyond what the index type can express; index sets around the boundaries
template <class E> void large() {
	L = {}; S = {}; L.ct = fg::ElementTraits<E>::enum_component_type; L.at = fg::ElementTraits<E>::type; static const std::vector<size_t> counts = { 255, 256, 257, 300, 65537, 65535, 65536, 70000 }; L.count = counts[mc::choose(mc::thorough() ? 8 : std::is_same_v<E, float> ? 5 : 4)]; S.ict = mc::pick(ICT); base = mc::flip(); if (!mc::mine()) return; uint32_t lim = uint32_t(std::min<double>(ctMax(S.ict), double(L.count - 1)));
	switch (mc::choose(6)) { case 0: S.idx = { 0 }; break; case 1: S.idx = { lim }; break; case 2: S.idx = { 0, 1, lim - 1, lim }; break; case 3: for (uint32_t i = 0; i <= lim; i += 3) S.idx.push_back(i); break; case 4: for (uint32_t i = 0; i <= lim; ++i) S.idx.push_back(i); break; default: for (uint32_t i : { 2u, 44u, 45u, 127u, 128u, 129u, 200u, 255u, 256u, 32767u, 32768u, 65279u, 65535u, 65536u, 65538u }) if (i <= lim) S.idx.push_back(i); }
	static const std::vector<unsigned> st = { S_INDEX, S_RANGE, S_CALLBACK, S_COPY }; unsigned style = mc::pick(st); Built b; setup<E>(b); auto what = describe(style); mc::context(what); mc::nontrivial(); checkAll<E>(b, style, what, "sparse large:");
}
static void model() {
	switch (mc::choose(15)) {
	case 0: return subsets<float>(CT::Float, false); case 1: return subsets<m::fvec3>(CT::Float, false); case 2: return subsets<float>(CT::UnsignedByte, true); case 3: return subsets<m::fmat2x2>(CT::Byte, false); case 4: return subsets<m::fmat3x3>(CT::UnsignedShort, false);
	case 5: return subsets<uint16_t>(CT::UnsignedShort, false); case 6: return subsets<m::u8vec3>(CT::UnsignedByte, false); case 7: return subsets<m::fvec4>(CT::Short, true); case 8: return subsets<Ctor3>(CT::Float, false); case 9: return subsets<Transposed3>(CT::Float, false);
	case 10: return order(); case 11: return iterator(); case 12: return middle(); case 13: return large<float>(); default: return large<m::u8vec3>();
	}
}
MC_MAIN(model)

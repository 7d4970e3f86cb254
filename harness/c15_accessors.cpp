// C15: accessor tools against a reference reader: all component types, accessor types, layouts, destination types and
// access styles; all 8/16-bit component values; destination guards.
#include "acc.hpp"
template <class... E> struct List {};
using Small = List<int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, float, double, m::s8vec2, m::u8vec3, m::s16vec4, m::u16vec2, m::s32vec2, m::s32vec3, m::s32vec4, m::u32vec3, m::fvec2, m::fvec3, m::fvec4, m::dvec3, m::fquat, m::fmat2x2, m::fmat3x3, m::fmat4x4, Transposed3, Agg2, Ctor3, m::dmat3x3, m::mat<uint8_t, 2, 2>, m::mat<int16_t, 3, 3>>;
using Rest = List<m::s8vec3, m::s8vec4, m::u8vec2, m::u8vec4, m::s16vec2, m::s16vec3, m::u16vec3, m::u16vec4, m::u32vec2, m::u32vec4, m::dvec2, m::dvec4, m::dquat>;
static Layout L; static unsigned style; static bool base;
static std::vector<std::vector<double>> values(CT dst, size_t n, size_t count, size_t phase) { auto al = alphabet(L.ct, dst, L.normalized); std::vector<std::vector<double>> v(count, std::vector<double>(n)); size_t k = phase; for (auto& e : v) for (auto& c : e) c = al[(k++) % al.size()]; return v; }
static std::string describe() { return mc::fmt("%s %s%s count %zu view offset %zu accessor offset %zu stride %zu source %u base %d style %s", atName(L.at), ctName(L.ct), L.normalized ? " normalized" : "", L.count, L.viewOffset, L.accOffset, L.stride, L.source, int(base), styleName(style)); }
template <class E, bool Full> void one() {
	using T = fg::ElementTraits<E>; L.at = T::type; L.ct = mc::pick(CTS); L.normalized = mc::flip(); if (!determined(L.ct, T::enum_component_type, L.normalized)) return;
	if (!mc::mine()) return;
	size_t eb = elemBytes(L.at, L.ct), cs = ctSize(L.ct), al = std::max<size_t>(cs, 4);
	static const std::vector<size_t> counts = { 0, 1, 2, 5 }; base = mc::choose(6) != 0; L.count = mc::pick(counts); L.viewOffset = 0; L.accOffset = 0; L.stride = 0;
	if (base) { unsigned o = mc::choose(3); L.viewOffset = o == 1 ? 8 : o == 2 ? 4 * al : 0; L.accOffset = mc::choose(3) * cs; unsigned s = mc::choose(mc::thorough() ? 5 : 4); size_t pad = (eb + al - 1) / al * al; L.stride = s == 0 ? 0 : s == 1 ? eb : s == 2 ? pad + al : s == 3 ? pad + 5 * al : 252; if (s == 1 && eb % cs) return; if (s == 4 && eb > 252) return; }
	L.source = base ? mc::choose(3) : 0; style = mc::choose(Full ? S_COUNT : 3u);
	Built b; auto v = values(T::enum_component_type, comps(L.at), L.count, L.count * 3 + L.accOffset); build(b, L, base ? &v : nullptr); auto what = describe(); mc::context(what); mc::note("%s", what.c_str());
	if (L.count > 1) mc::nontrivial();
	checkAll<E, Full>(b, style, what, base ? "" : "no buffer view:");
}
template <bool Full, class... E> void dispatch(List<E...>) { using F = void (*)(); static const F f[] = { &one<E, Full>... }; f[mc::choose(sizeof...(E))](); }
// every value of the 8 and 16 bit component types, and all pairs (value, position) through vectors
template <class D> void allValues() {
	CT dst = fg::ElementTraits<D>::enum_component_type; static const std::vector<CT> small = { CT::Byte, CT::UnsignedByte, CT::Short, CT::UnsignedShort }; L = {}; L.ct = mc::pick(small); L.normalized = mc::flip(); L.at = AT::Scalar; if (!determined(L.ct, dst, L.normalized)) return; if (!mc::mine()) return;
	std::vector<std::vector<double>> v; for (double x = ctMin(L.ct); x <= ctMax(L.ct); ++x) { double w = refConvert(x, L.ct, dst, L.normalized); if (w >= ctMin(dst) && w <= ctMax(dst)) v.push_back({ x }); }
	L.count = v.size(); base = true; static const std::vector<unsigned> st = { S_INDEX, S_RANGE, S_CALLBACK, S_COPY, S_COPY_STRIDE }; style = mc::pick(st); L.stride = mc::flip() ? 4 : 0; Built b; build(b, L, &v); auto what = "all values: " + describe(); mc::context(what); mc::nontrivial(); checkAll<D>(b, style, what, "");
}
// float accessors: every value of a dense list
template <class D> void floatValues() {
	CT dst = fg::ElementTraits<D>::enum_component_type; L = {}; L.ct = mc::flip() ? CT::Double : CT::Float; L.normalized = mc::flip(); L.at = AT::Scalar; if (!determined(L.ct, dst, L.normalized)) return; if (!mc::mine()) return; std::vector<std::vector<double>> v;
	auto add = [&](double x) { if (L.ct == CT::Float) x = double(float(x)); double w = refConvert(x, L.ct, dst, L.normalized); if (!ctFloat(dst)) { if (!(w >= ctMin(dst) && w <= ctMax(dst))) return; if (L.normalized && std::abs(std::abs(x * ctMax(dst) - std::floor(x * ctMax(dst))) - .5) < 1e-2) return; } v.push_back({ x }); };
	if (L.normalized && !ctFloat(dst)) for (int i = -4096; i <= 4096; ++i) add(i / 4096.); else { for (int i = -600; i <= 600; ++i) { add(i / 2.); add(i * 1000.25); } for (double x : { 1e-45, 1e-38, 3.4e38, 1e30, 16777217., 4294967040., -2147483648. }) add(x); if (ctFloat(dst) && L.ct == CT::Double && dst == CT::Double) for (double x : { 1e300, 5e-324, -1.7e308 }) add(x); }
	L.count = v.size(); base = true; static const std::vector<unsigned> st = { S_INDEX, S_RANGE, S_CALLBACK, S_COPY }; style = mc::pick(st); Built b; build(b, L, &v); auto what = "float values: " + describe(); mc::context(what); checkAll<D>(b, style, what, "");
}
template <class... E> void dispatchV(List<E...>) { using F = void (*)(); static const F f[] = { &allValues<E>..., &floatValues<E>... }; f[mc::choose(2 * sizeof...(E))](); }
// copyComponentsFromAccessor: contiguous components
template <class D> void components() {
	CT dst = fg::ElementTraits<D>::enum_component_type; static const std::vector<AT> ats = { AT::Scalar, AT::Vec2, AT::Vec3, AT::Vec4, AT::Mat2, AT::Mat3, AT::Mat4 }; L = {}; L.at = mc::pick(ats); L.ct = mc::pick(CTS); L.normalized = mc::flip(); if (!determined(L.ct, dst, L.normalized)) return; if (!mc::mine()) return;
	size_t eb = elemBytes(L.at, L.ct), cs = ctSize(L.ct), al = std::max<size_t>(cs, 4); base = mc::choose(4) != 0; L.count = mc::choose(4); if (base) { L.accOffset = mc::choose(2) * cs; L.viewOffset = mc::choose(2) * 8; unsigned s = mc::choose(3); L.stride = s == 0 ? 0 : s == 1 ? eb : (eb + al - 1) / al * al + al; L.source = mc::choose(3); } bool adapter = mc::flip();
	Built b; auto v = values(dst, comps(L.at), L.count, L.count); build(b, L, base ? &v : nullptr); style = S_COPY; std::string what = "components: " + describe(); mc::context(what); mc::note("%s -> %s", what.c_str(), ctName(dst)); mc::step();
	size_t n = L.count * comps(L.at); Exact raw(64 + n * sizeof(D)); memset(raw.data(), 0x5A, raw.n); D* d = reinterpret_cast<D*>(raw.data() + 64); CountingAdapter ad;
	if (adapter) { fg::copyComponentsFromAccessor<D>(b.a, b.a.accessors[0], d, ad); if (n && base && !ad.calls) mc::fail("components:user adapter not used", what); } else fg::copyComponentsFromAccessor<D>(b.a, b.a.accessors[0], d);
	if (n > 1) mc::nontrivial();
	std::string key = std::string("copyComponentsFromAccessor:") + ctName(L.ct) + (L.normalized ? "n" : "") + "->" + ctName(dst) + ":" + atName(L.at) + (base ? "" : ":no buffer view");
	for (size_t k = 0; k < 64; ++k) if (raw.data()[k] != 0x5A) { mc::fail(key + ":write before destination", what); break; }
	for (size_t i = 0; i < L.count; ++i) for (size_t c = 0; c < comps(L.at); ++c) { double want = refConvert(b.want[i][c], L.ct, dst, L.normalized), g = double(d[i * comps(L.at) + c]); if (!same(g, want, dst, !L.normalized || want == 0 || want == 1 || want == -1)) { mc::fail(key, mc::fmt("element %zu component %zu is %.9g, expected %.9g: ", i, c, g, want) + what); return; } }
}
using Scalars = List<int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, float, double>;
template <class... E> void dispatchC(List<E...>) { using F = void (*)(); static const F f[] = { &components<E>... }; f[mc::choose(sizeof...(E))](); }
// size tables used everywhere
static void sizes() {
	static const std::vector<AT> ats = { AT::Scalar, AT::Vec2, AT::Vec3, AT::Vec4, AT::Mat2, AT::Mat3, AT::Mat4 }; AT at = mc::pick(ats); CT ct = mc::pick(CTS); if (!mc::mine()) return; std::string what = std::string(atName(at)) + " " + ctName(ct); mc::step();
	if (fg::getNumComponents(at) != comps(at)) mc::fail("getNumComponents", what); if (fg::getComponentByteSize(ct) != ctSize(ct)) mc::fail("getComponentByteSize", what); if (fg::getComponentBitSize(ct) != 8 * ctSize(ct)) mc::fail("getComponentBitSize", what); if (fg::getElementByteSize(at, ct) != elemBytes(at, ct)) mc::fail("getElementByteSize", what);
	if (fg::isMatrix(at) != (cols(at) > 1)) mc::fail("isMatrix", what); if (fg::getElementRowCount(at) != rows(at)) mc::fail("getElementRowCount", what);
	static const uint32_t gl[] = { 5120, 5121, 5122, 5123, 5124, 5125, 5126, 5130 }; for (size_t i = 0; i < CTS.size(); ++i) if (CTS[i] == ct && fg::getGLComponentType(ct) != gl[i]) mc::fail("getGLComponentType", what);
}
// the traits of every element type the header declares
template <class E> void trait(AT at, CT ct) { using T = fg::ElementTraits<E>; mc::step(); if (T::type != at || T::enum_component_type != ct || T::needs_transpose || !std::is_same_v<typename T::element_type, E>) mc::fail(std::string("ElementTraits:") + atName(at) + ":" + ctName(ct), "wrong trait"); if (T::enum_component_type != fg::ComponentTypeConverter<typename T::component_type>::type) mc::fail("ComponentTypeConverter", ctName(ct)); }
template <class C> void traitsOf(CT ct) { trait<C>(AT::Scalar, ct); trait<m::vec<C, 2>>(AT::Vec2, ct); trait<m::vec<C, 3>>(AT::Vec3, ct); trait<m::vec<C, 4>>(AT::Vec4, ct); }
static void traits() {
	if (!mc::mine()) return; traitsOf<int8_t>(CT::Byte); traitsOf<uint8_t>(CT::UnsignedByte); traitsOf<int16_t>(CT::Short); traitsOf<uint16_t>(CT::UnsignedShort); traitsOf<int32_t>(CT::Int); traitsOf<uint32_t>(CT::UnsignedInt); traitsOf<float>(CT::Float); traitsOf<double>(CT::Double);
	trait<m::fquat>(AT::Vec4, CT::Float); trait<m::dquat>(AT::Vec4, CT::Double); trait<m::fmat2x2>(AT::Mat2, CT::Float); trait<m::fmat3x3>(AT::Mat3, CT::Float); trait<m::fmat4x4>(AT::Mat4, CT::Float);
}
static void model() { L = {}; switch (mc::choose(6)) { case 0: return dispatch<true>(Small{}); case 1: return dispatchV(Scalars{}); case 2: return dispatchC(Scalars{}); case 3: return sizes(); case 4: return traits(); default: return dispatch<false>(Rest{}); } }
MC_MAIN(model)

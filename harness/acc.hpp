#pragma once
// Shared by C15/C16: raw accessor data, a reference reader, and all access styles of the library.
#include "util.hpp"
#include <array>
#include <limits>
namespace m = fg::math;
using CT = fg::ComponentType; using AT = fg::AccessorType;
static const std::vector<CT> CTS = { CT::Byte, CT::UnsignedByte, CT::Short, CT::UnsignedShort, CT::Int, CT::UnsignedInt, CT::Float, CT::Double };
inline const char* ctName(CT c) { switch (c) { case CT::Byte: return "s8"; case CT::UnsignedByte: return "u8"; case CT::Short: return "s16"; case CT::UnsignedShort: return "u16"; case CT::Int: return "s32"; case CT::UnsignedInt: return "u32"; case CT::Float: return "f32"; case CT::Double: return "f64"; default: return "?"; } }
inline const char* atName(AT t) { switch (t) { case AT::Scalar: return "SCALAR"; case AT::Vec2: return "VEC2"; case AT::Vec3: return "VEC3"; case AT::Vec4: return "VEC4"; case AT::Mat2: return "MAT2"; case AT::Mat3: return "MAT3"; case AT::Mat4: return "MAT4"; default: return "?"; } }
inline size_t ctSize(CT c) { switch (c) { case CT::Byte: case CT::UnsignedByte: return 1; case CT::Short: case CT::UnsignedShort: return 2; case CT::Double: return 8; default: return 4; } }
inline bool ctFloat(CT c) { return c == CT::Float || c == CT::Double; }
inline size_t rows(AT t) { switch (t) { case AT::Mat2: return 2; case AT::Mat3: return 3; case AT::Mat4: return 4; case AT::Vec2: return 2; case AT::Vec3: return 3; case AT::Vec4: return 4; default: return 1; } }
inline size_t cols(AT t) { switch (t) { case AT::Mat2: return 2; case AT::Mat3: return 3; case AT::Mat4: return 4; default: return 1; } }
inline size_t comps(AT t) { return rows(t) * cols(t); }
inline size_t colBytes(AT t, CT c) { size_t b = rows(t) * ctSize(c); return cols(t) > 1 ? (b + 3) / 4 * 4 : b; } // columns start on 4 byte boundaries
inline size_t elemBytes(AT t, CT c) { return colBytes(t, c) * cols(t); }
inline size_t compOffset(AT t, CT c, size_t i) { return (i / rows(t)) * colBytes(t, c) + (i % rows(t)) * ctSize(c); }
inline size_t usedBytes(AT t, CT c) { return compOffset(t, c, comps(t) - 1) + ctSize(c); } // without the padding behind the last column
inline double ctMax(CT c) { switch (c) { case CT::Byte: return 127; case CT::UnsignedByte: return 255; case CT::Short: return 32767; case CT::UnsignedShort: return 65535; case CT::Int: return 2147483647.; case CT::UnsignedInt: return 4294967295.; case CT::Float: return std::numeric_limits<float>::max(); default: return std::numeric_limits<double>::max(); } }
inline double ctMin(CT c) { switch (c) { case CT::Byte: return -128; case CT::Short: return -32768; case CT::Int: return -2147483648.; case CT::Float: return -std::numeric_limits<float>::max(); case CT::Double: return -std::numeric_limits<double>::max(); default: return 0; } }
inline void put(uint8_t* p, CT c, double v) {
	auto w = [&](auto x) { memcpy(p, &x, sizeof x); };
	switch (c) { case CT::Byte: return w(int8_t(v)); case CT::UnsignedByte: return w(uint8_t(v)); case CT::Short: return w(int16_t(v)); case CT::UnsignedShort: return w(uint16_t(v)); case CT::Int: return w(int32_t(v)); case CT::UnsignedInt: return w(uint32_t(v)); case CT::Float: return w(float(v)); default: return w(v); }
}
// What a component with source value v must become in the destination component type, per the specification.
inline double refConvert(double v, CT src, CT dst, bool normalized) {
	if (normalized && ctFloat(dst) && !ctFloat(src)) return std::max(v / ctMax(src), -1.);
	if (normalized && !ctFloat(dst) && ctFloat(src)) return std::round(v * ctMax(dst));
	if (dst == CT::Float) return double(float(v));
	if (!ctFloat(dst)) return std::trunc(v);
	return v;
}
// Values whose conversion src -> dst the specification determines.
inline bool determined(CT src, CT dst, bool normalized) {
	if (normalized && (src == CT::Int || src == CT::UnsignedInt)) return false;
	if (normalized && !ctFloat(src) && !ctFloat(dst) && src != dst) return false;
	if (normalized && ctFloat(src) && !ctFloat(dst) && ctSize(dst) > 2) return false;
	return true;
}
inline std::vector<double> alphabet(CT src, CT dst, bool normalized) {
	std::vector<double> all, r;
	if (ctFloat(src)) { if (normalized && !ctFloat(dst)) all = { 0, 1, .5, -1, .25, -.5, 1. / 3, .001953125 }; else { all = { 0, 1, -1, .5, 100.25, 3.75, -7.125, 1e-3, 65536, 1.5e9 }; if (ctFloat(dst)) { all.push_back(3e38); all.push_back(-1.25e-37); all.push_back(std::numeric_limits<double>::infinity()); } } }
	else all = { 0, 1, 2, ctMax(src), ctMin(src), ctMax(src) - 1, ctMin(src) + 1, std::floor(ctMax(src) / 2), 17, 100, 127, 128, 200, 255, 1000 };
	for (double v : all) { if (!ctFloat(src) && (v < ctMin(src) || v > ctMax(src))) continue; if (!ctFloat(dst)) { double w = refConvert(v, src, dst, normalized); if (w < ctMin(dst) || w > ctMax(dst) || (ctFloat(src) && v < 0 && ctMin(dst) == 0)) continue; } if (src == CT::Float) v = double(float(v)); r.push_back(v); }
	return r;
}
inline bool same(double got, double want, CT dst, bool exact) { if (got == want) return true; if (exact || !ctFloat(dst)) return false; return std::abs(got - want) <= (dst == CT::Float ? 1.2e-7 : 3e-16) * std::max(std::abs(want), 1e-3); }

struct Transposed3 { float v[9]; };           // row-major destination, filled through needs_transpose
struct Agg2 { uint16_t x, y; };               // aggregate
struct Ctor3 { double a = -1, b = -1, c = -1; std::string tag = "default"; Ctor3() : a(0), b(0), c(0) {} Ctor3(double x, double y, double z) : a(x), b(y), c(z), tag("made") {} }; // not trivially copyable
namespace fastgltf {
template <> struct ElementTraits<Transposed3> : ElementTraitsBase<Transposed3, AccessorType::Mat3, float, true> {};
template <> struct ElementTraits<Agg2> : ElementTraitsBase<Agg2, AccessorType::Vec2, std::uint16_t> {};
template <> struct ElementTraits<Ctor3> : ElementTraitsBase<Ctor3, AccessorType::Vec3, double> {};
template <> struct ElementTraits<math::dmat3x3> : ElementTraitsBase<math::dmat3x3, AccessorType::Mat3, double> {};
template <> struct ElementTraits<math::mat<std::uint8_t, 2, 2>> : ElementTraitsBase<math::mat<std::uint8_t, 2, 2>, AccessorType::Mat2, std::uint8_t> {};
template <> struct ElementTraits<math::mat<std::int16_t, 3, 3>> : ElementTraitsBase<math::mat<std::int16_t, 3, 3>, AccessorType::Mat3, std::int16_t> {};
}
template <class T> struct IsMat : std::false_type {};
template <class T, size_t N, size_t M> struct IsMat<m::mat<T, N, M>> : std::true_type {};
// component i (column-major as in the file) of a destination element
template <class E> double comp(const E& e, size_t i) {
	if constexpr (std::is_arithmetic_v<E>) return double(e);
	else if constexpr (std::is_same_v<E, Transposed3>) return double(e.v[(i % 3) * 3 + i / 3]);
	else if constexpr (std::is_same_v<E, Agg2>) return double(i ? e.y : e.x);
	else if constexpr (std::is_same_v<E, Ctor3>) return i == 0 ? e.a : i == 1 ? e.b : e.c;
	else if constexpr (IsMat<E>::value) return double(e.col(i / e.columns())[i % e.columns()]);
	else return double(e[i]);
}
struct Layout { CT ct; AT at; bool normalized; size_t count, viewOffset, accOffset, stride; unsigned source; };
struct Sparse { std::vector<uint32_t> idx; std::vector<std::vector<double>> val; CT ict; size_t iview, ioff, vview, voff; };
struct Built { fg::Asset a; std::vector<std::unique_ptr<Exact>> hold; std::vector<std::vector<double>> want; };
inline void addBuffer(Built& b, const std::vector<uint8_t>& bytes, unsigned source) {
	auto& buf = b.a.buffers.emplace_back(); buf.byteLength = bytes.size(); auto p = reinterpret_cast<const std::byte*>(bytes.data());
	if (source == 0) { fg::sources::Array x{ fg::StaticVector<std::byte>(bytes.size()), fg::MimeType::None }; if (!bytes.empty()) memcpy(x.bytes.data(), p, bytes.size()); buf.data = std::move(x); }
	else if (source == 1) { fg::sources::Vector x; x.bytes.assign(p, p + bytes.size()); x.bytes.shrink_to_fit(); buf.data = std::move(x); }
	else { b.hold.push_back(std::make_unique<Exact>(bytes.data(), bytes.size())); fg::sources::ByteView x; x.bytes = fg::span<const std::byte>(reinterpret_cast<const std::byte*>(b.hold.back()->data()), bytes.size()); buf.data = std::move(x); }
}
inline size_t addView(Built& b, size_t off, size_t len, size_t stride) { auto& v = b.a.bufferViews.emplace_back(); v.bufferIndex = b.a.buffers.size() - 1; v.byteOffset = off; v.byteLength = len; if (stride) v.byteStride = stride; return b.a.bufferViews.size() - 1; }
// Fills b with one accessor; base[i][c] are the component values. Buffers end right behind the last component.
inline void build(Built& b, const Layout& l, const std::vector<std::vector<double>>* base, const Sparse* sp = nullptr) {
	size_t n = comps(l.at), eb = elemBytes(l.at, l.ct), step = l.stride ? l.stride : eb;
	b.a.accessors.reserve(1); auto& acc = b.a.accessors.emplace_back(); acc.byteOffset = 0; acc.count = l.count; acc.type = l.at; acc.componentType = l.ct; acc.normalized = l.normalized;
	{ std::vector<uint8_t> decoy(7, 0xEE); addBuffer(b, decoy, 0); addView(b, 0, 7, 0); } // so that no used index is 0
	b.want.assign(l.count, std::vector<double>(n, 0.));
	if (base) {
		acc.byteOffset = l.accOffset;
		size_t len = l.accOffset + (l.count ? (l.count - 1) * step + usedBytes(l.at, l.ct) : 0); std::vector<uint8_t> bytes(l.viewOffset + len, 0xA5);
		for (size_t i = 0; i < l.count; ++i) { for (size_t c = 0; c < n; ++c) put(bytes.data() + l.viewOffset + l.accOffset + i * step + compOffset(l.at, l.ct, c), l.ct, (*base)[i][c]); b.want[i] = (*base)[i]; }
		addBuffer(b, bytes, l.source); acc.bufferViewIndex = addView(b, l.viewOffset, len, l.stride);
	}
	if (sp) {
		size_t is = ctSize(sp->ict), ilen = sp->ioff + sp->idx.size() * is; std::vector<uint8_t> ib(sp->iview + ilen, 0xA5); for (size_t k = 0; k < sp->idx.size(); ++k) put(ib.data() + sp->iview + sp->ioff + k * is, sp->ict, sp->idx[k]);
		addBuffer(b, ib, (l.source + 1) % 3); auto& s = acc.sparse.emplace(); s.count = sp->idx.size(); s.indicesBufferView = addView(b, sp->iview, ilen, 0); s.indicesByteOffset = sp->ioff; s.indexComponentType = sp->ict;
		size_t vlen = sp->voff + (sp->idx.empty() ? 0 : (sp->idx.size() - 1) * eb + usedBytes(l.at, l.ct)); std::vector<uint8_t> vb(sp->vview + vlen, 0xA5);
		for (size_t k = 0; k < sp->idx.size(); ++k) { for (size_t c = 0; c < n; ++c) put(vb.data() + sp->vview + sp->voff + k * eb + compOffset(l.at, l.ct, c), l.ct, sp->val[k][c]); b.want[sp->idx[k]] = sp->val[k]; }
		addBuffer(b, vb, (l.source + 2) % 3); s.valuesBufferView = addView(b, sp->vview, vlen, 0); s.valuesByteOffset = sp->voff;
	}
}
struct CountingAdapter { // a user supplied adapter: must be used for every access
	mutable size_t calls = 0;
	auto operator()(const fg::Asset& a, std::size_t v) const { ++calls; return fg::DefaultBufferDataAdapter{}(a, v); }
};
// Reads all elements in one of the access styles. copy styles check that only the requested bytes are written.
enum { S_INDEX, S_INDEX_REV, S_RANGE, S_POSTFIX, S_DEREF_TWICE, S_CALLBACK, S_CALLBACK_INDEX, S_COPY, S_COPY_STRIDE, S_ADAPTER_RANGE, S_ADAPTER_CB, S_ADAPTER_COPY, S_COUNT };
inline const char* styleName(unsigned s) { static const char* n[] = { "getAccessorElement", "getAccessorElement backwards", "range-for", "postfix iteration", "double dereference", "iterateAccessor callback", "iterateAccessorWithIndex", "copyFromAccessor", "copyFromAccessor with stride", "adapter range-for", "adapter callback", "adapter copy" }; return n[s]; }
template <class E, bool Full = true> void readAll(Built& b, unsigned style, std::vector<E>& out, const std::string& what) {
	auto& a = b.a; auto& acc = a.accessors[0]; size_t n = acc.count; mc::step(n + 1); CountingAdapter ad;
	auto copied = [&](size_t stride, auto&& fn) {
		// the guard in front is a multiple of the alignment; the buffer ends exactly behind the last element
		size_t sz = n ? (n - 1) * stride + sizeof(E) : 0; std::unique_ptr<uint8_t[]> raw(new uint8_t[64 + sz]); memset(raw.get(), 0x5A, 64 + sz); uint8_t* d = raw.get() + 64;
		if constexpr (!std::is_trivially_copyable_v<E>) for (size_t i = 0; i < n; ++i) new (d + i * stride) E();
		fn(d);
		for (size_t i = 0; i < n; ++i) { E* e = reinterpret_cast<E*>(d + i * stride); if constexpr (!std::is_trivially_copyable_v<E>) { out.push_back(*e); e->~E(); } else { E x; memcpy(&x, e, sizeof x); out.push_back(x); } }
		for (size_t k = 0; k < 64; ++k) if (raw[k] != 0x5A) { mc::fail("write before destination:" + std::string(styleName(style)), what); break; }
		for (size_t k = 0; k < sz; ++k) if (k % stride >= sizeof(E) && d[k] != 0x5A) { mc::fail("write between elements:" + std::string(styleName(style)), what); break; }
	};
	if constexpr (!Full) { if (style % 3 == 0) for (size_t i = 0; i < n; ++i) out.push_back(fg::getAccessorElement<E>(a, acc, i)); else if (style % 3 == 1) for (auto e : fg::iterateAccessor<E>(a, acc)) { if (out.size() >= n) break; out.push_back(e); } else copied(sizeof(E), [&](void* d) { fg::copyFromAccessor<E>(a, acc, d); }); return; } else
	switch (style) {
	case S_INDEX: for (size_t i = 0; i < n; ++i) out.push_back(fg::getAccessorElement<E>(a, acc, i)); return;
	case S_INDEX_REV: out.resize(n); for (size_t i = n; i-- > 0;) out[i] = fg::getAccessorElement<E>(a, acc, i); return;
	case S_RANGE: for (auto e : fg::iterateAccessor<E>(a, acc)) { if (out.size() >= n) { mc::fail("range-for too long", what); break; } out.push_back(e); } return;
	case S_POSTFIX: { auto r = fg::iterateAccessor<E>(a, acc); auto it = r.begin(); if (size_t(r.end() - r.begin()) != n) mc::fail("iterator distance", what); while (it != r.end()) { if (out.size() >= n) { mc::fail("postfix too long", what); break; } if (size_t(it - r.begin()) != out.size()) mc::fail("iterator difference", what); out.push_back(*it++); } return; }
	case S_DEREF_TWICE: { auto r = fg::iterateAccessor<E>(a, acc); for (auto it = r.begin(); it != r.end(); ++it) { if (out.size() >= n) break; (void)*it; auto c = it; (void)*c; out.push_back(*it); } return; }
	case S_CALLBACK: fg::iterateAccessor<E>(a, acc, [&](E e) { out.push_back(e); }); return;
	case S_CALLBACK_INDEX: fg::iterateAccessorWithIndex<E>(a, acc, [&](E e, size_t i) { if (i != out.size()) mc::fail("iterateAccessorWithIndex index", what); out.push_back(e); }); return;
	case S_COPY: copied(sizeof(E), [&](void* d) { fg::copyFromAccessor<E>(a, acc, d); }); return;
	case S_COPY_STRIDE: copied(sizeof(E) + 8, [&](void* d) { fg::copyFromAccessor<E, sizeof(E) + 8>(a, acc, d); }); return;
	case S_ADAPTER_RANGE: for (auto e : fg::iterateAccessor<E>(a, acc, std::as_const(ad))) { if (out.size() >= n) break; out.push_back(e); } break;
	case S_ADAPTER_CB: fg::iterateAccessor<E>(a, acc, [&](E e) { out.push_back(e); }, ad); break;
	default: copied(sizeof(E), [&](void* d) { fg::copyFromAccessor<E, sizeof(E)>(a, acc, d, ad); }); break;
	}
	if (Full && n && ad.calls == 0 && (acc.bufferViewIndex || (acc.sparse && acc.sparse->count))) mc::fail("user adapter not used:" + std::string(styleName(style)), what);
}
template <class E, bool Full = true> void checkAll(Built& b, unsigned style, const std::string& what, const std::string& kind) {
	auto& acc = b.a.accessors[0]; CT dst = fg::ElementTraits<E>::enum_component_type; std::vector<E> got; got.reserve(acc.count); readAll<E, Full>(b, style, got, what);
	std::string key = kind + std::string(styleName(style)) + ":" + ctName(acc.componentType) + (acc.normalized ? "n" : "") + "->" + ctName(dst) + ":" + atName(acc.type);
	if (got.size() != acc.count) { mc::fail(key + ":count", mc::fmt("%zu elements, %zu expected: ", got.size(), acc.count) + what); return; }
	for (size_t i = 0; i < got.size(); ++i) for (size_t c = 0; c < comps(acc.type); ++c) {
		double want = refConvert(b.want[i][c], acc.componentType, dst, acc.normalized); double g = comp(got[i], c); bool exact = !acc.normalized || want == 0 || want == 1 || want == -1;
		if (!same(g, want, dst, exact)) { mc::fail(key, mc::fmt("element %zu component %zu is %.9g, expected %.9g: ", i, c, g, want) + what); return; }
	}
}

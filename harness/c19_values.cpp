// C19: OptionalWithFlagValue, StaticVector, AccessorBoundsArray, Expected, span and updateBoundsToInclude against their
// standard counterparts. All operation sequences up to a depth.
#include "util.hpp"
#include "tracked.hpp"
#include <optional>
static std::string g_hist; static const char* g_t;
static void log(const char* op, const std::string& a = "") { g_hist += std::string(" ") + op + (a.empty() ? "" : "(" + a + ")"); mc::context(std::string(g_t) + ":" + op); mc::note("%s:%s", g_t, g_hist.c_str()); mc::step(); }
static void bad(const char* op, const std::string& why) { mc::fail(std::string(g_t) + ":" + op, why + " after" + g_hist); }
template <typename T> static bool same(const T& a, const T& b) { if constexpr (std::is_floating_point_v<T>) return memcmp(&a, &b, sizeof a) == 0; else return a == b; }
template <typename T> static std::string str(const T& v) { return hex(&v, sizeof v); }
template <typename T> static fg::Optional<T> makeValue(const T& v) { return fg::Optional<T>(v); }
template <typename O, typename T> static std::string diff(O& o, const std::optional<T>& r) {
	const O& c = o;
	if (o.has_value() != r.has_value() || static_cast<bool>(c) != r.has_value()) return mc::fmt("has_value() is %d", o.has_value());
	const T other = T(77);
	if (!same<T>(c.value_or(other), r.value_or(other))) return "value_or()";
	if (!same<T>(O(c).value_or(other), r.value_or(other))) return "value_or() &&";
	std::optional<T> conv = c;
	if (conv.has_value() != r.has_value() || (r && !same(*conv, *r))) return "conversion to std::optional";
	bool th = false; try { auto& v = o.value(); if (!r || !same(v, *r)) return "value()"; } catch (const std::bad_optional_access&) { th = true; } if (th == r.has_value()) return "value() throwing";
	th = false; try { auto& v = c.value(); if (!r || !same(v, *r)) return "value() const"; } catch (const std::bad_optional_access&) { th = true; } if (th == r.has_value()) return "value() const throwing";
	th = false; try { T v = O(c).value(); if (!r || !same(v, *r)) return "value() &&"; } catch (const std::bad_optional_access&) { th = true; } if (th == r.has_value()) return "value() && throwing";
	if (r) { if (!same(*o, *r) || !same(*c, *r) || !same(*o.operator->(), *r) || !same(*c.operator->(), *r) || !same(T(*O(c)), *r)) return "operator*"; }
	unsigned calls = 0;
	auto f = [&](const T& v) { ++calls; return r && same(v, *r) ? fg::Optional<T>(v) : fg::Optional<T>(); };
	{ auto x = c.and_then(f); if (calls != unsigned(r.has_value()) || x.has_value() != r.has_value() || (r && !same(*x, *r))) return "and_then()"; }
	{ auto x = o.and_then(f); if (x.has_value() != r.has_value()) return "and_then() &"; }
	{ auto x = O(c).and_then(f); if (x.has_value() != r.has_value()) return "and_then() &&"; }
	auto g = [&](const T& v) { return int(same(v, *r)); };
	{ auto x = c.transform(g); if (x.has_value() != r.has_value() || (x && *x != 1)) return "transform()"; }
	{ auto x = o.transform(g); if (x.has_value() != r.has_value() || (x && *x != 1)) return "transform() &"; }
	{ auto x = O(c).transform(g); if (x.has_value() != r.has_value() || (x && *x != 1)) return "transform() &&"; }
	{ auto x = c.transform([](const T& v) { return v; }); if (x.has_value() != r.has_value() || (x && !same<T>(*x, *r))) return "transform() to T"; }
	calls = 0; auto e = [&]() { ++calls; return O(other); };
	{ auto x = c.or_else(e); if (!x.has_value() || calls == unsigned(r.has_value()) || !same<T>(*x, r ? *r : other)) return "or_else()"; }
	{ auto x = O(c).or_else(e); if (!x.has_value() || !same<T>(*x, r ? *r : other)) return "or_else() &&"; }
	return "";
}
template <typename T, typename U> static void optionals(const char* name, const std::vector<T>& values, const std::vector<U>& others) {
	using O = fg::Optional<T>; using P = fg::Optional<U>; g_t = name; static_assert(sizeof(O) == sizeof(T));
	const unsigned depth = mc::thorough() ? 7 : 5;
	auto a = std::make_unique<O>(), b = std::make_unique<O>(); std::optional<T> ra, rb;
	for (unsigned d = 0; d < depth; ++d) {
		if (d) {
			uint64_t k[4] = { mc::hash(name), 0, 0, uint64_t(ra.has_value()) * 2 + rb.has_value() }; if (ra) memcpy(&k[1], &*ra, sizeof(T)); if (rb) memcpy(&k[2], &*rb, sizeof(T));
			if (d == 1 && !mc::mine()) return;
			if (mc::prune(mc::hash(k, sizeof k), depth - d)) return;
		}
		const char* op = "?"; unsigned o = mc::choose(22);
		T v{}; auto val = [&](const char* n) { unsigned i = mc::choose(unsigned(values.size())); v = values[i]; log(op = n, mc::fmt("%u", i)); };
		U w{}; auto oval = [&](const char* n) { unsigned i = mc::choose(unsigned(others.size())); w = others[i]; log(op = n, mc::fmt("%u", i)); };
		switch (o) {
			case 0: log(op = "reset"); a->reset(); ra.reset(); break;
			case 1: log(op = "assign nullopt"); *a = std::nullopt; ra = std::nullopt; break;
			case 2: val("assign value"); *a = v; ra = v; break;
			case 3: val("assign moved value"); *a = std::move(v); ra = v; break;
			case 4: val("emplace"); { T& x = a->emplace(v); if (!same(x, v) || &x != &**a) bad(op, "result"); } ra = v; break;
			case 5: log(op = "copy assign"); *a = *b; ra = rb; break;
			case 6: log(op = "copy assign const"); *a = static_cast<const O&>(*b); ra = rb; break;
			case 7: log(op = "move assign"); *a = O(*b); ra = rb; break;
			case 8: log(op = "self assign"); { O& x = *a; *a = x; } break;
			case 9: log(op = "self move assign"); { O& x = *a; *a = std::move(x); } break;
			case 10: log(op = "swap"); a->swap(*b); std::swap(ra, rb); break;
			case 11: log(op = "self swap"); a->swap(*a); break;
			case 12: log(op = "std::swap"); std::swap(*a, *b); std::swap(ra, rb); break;
			case 13: log(op = "copy construct"); a = std::make_unique<O>(*b); ra = rb; break;
			case 14: log(op = "move construct"); a = std::make_unique<O>(O(*b)); ra = rb; break;
			case 15: val("construct value"); a = std::make_unique<O>(v); ra = v; break;
			case 16: val("construct in place"); a = std::make_unique<O>(std::in_place, v); ra = v; break;
			case 17: log(op = "construct nullopt"); a = std::make_unique<O>(std::nullopt); ra.reset(); break;
			case 18: log(op = "default construct"); a = std::make_unique<O>(); ra.reset(); break;
			case 19: oval("assign other type"); { P p(w); *a = p; ra = T(w); const P q; O e = q; if (e.has_value()) bad(op, "conversion of an empty optional has a value"); } break;
			case 20: oval("construct other type"); { const P p(w); a = std::make_unique<O>(p); ra = T(w); } break;
			case 21: log(op = "assign empty other type"); { P p; *a = P(); *a = p; ra.reset(); } break;
		}
		for (auto [x, r] : { std::make_pair(a.get(), &ra), std::make_pair(b.get(), &rb) }) { auto s = diff<O, T>(*x, *r); if (!s.empty()) return bad(op, s + (r->has_value() ? " expected " + str(**r) + " got " + str(**x) : " expected nothing")); }
		const O &ca = *a, &cb = *b;
		if ((ca == cb) != (ra == rb) || (ca != cb) != (ra != rb)) return bad(op, "comparison of optionals");
		for (auto& x : values) {
			if ((ca == x) != (ra == x) || (ca != x) != (ra != x)) return bad(op, "equality with a value");
			if (ra) if ((ca < x) != (*ra < x) || (ca <= x) != (*ra <= x) || (ca > x) != (*ra > x) || (ca >= x) != (*ra >= x)) return bad(op, "ordering with a value");
		}
	}
}
template <typename T> static T mk(int v) { if constexpr (std::is_same_v<T, std::string>) return v ? std::string(25, char('a' + v)) : ""; else return T(v); }
template <typename T> static int vl(const T& v) { if constexpr (std::is_same_v<T, std::string>) return v.empty() ? 0 : v[0] - 'a'; else if constexpr (std::is_same_v<T, Tracked>) return v.get(); else return int(v); }
template <typename T> static void staticVector(const char* name) {
	g_t = name; using V = fg::StaticVector<T>; const unsigned depth = mc::thorough() ? 7 : 5; g_alive.clear(); g_broken.clear();
	size_t before = mc::liveBytes();
	{
		auto a = std::make_unique<V>(size_t(0)), b = std::make_unique<V>(size_t(0)); std::vector<int> ra, rb; bool known[2] = { true, true };
		auto vec = [&](int n, int k) { std::vector<T> r; for (int i = 0; i < n; ++i) r.push_back(mk<T>(1 + (i + k) % 3)); return r; };
		for (unsigned d = 0; d < depth; ++d) {
			if (d) { std::string k = name; for (int x : ra) k += char('0' + x); k += known[0] ? '|' : '?'; for (int x : rb) k += char('0' + x); k += known[1] ? '|' : '?'; if (d == 1 && !mc::mine()) return; if (mc::prune(mc::hash(k), depth - d)) break; }
			const char* op = "?"; int n = 0; auto arg = [&](const char* s, unsigned lim) { n = int(mc::choose(lim)); log(op = s, std::to_string(n)); };
			switch (mc::choose(9)) {
				case 0: arg("construct(n)", 5); a = std::make_unique<V>(size_t(n)); if constexpr (std::is_same_v<T, int> || std::is_same_v<T, double> || std::is_same_v<T, uint8_t>) for (auto& x : *a) x = T(0); ra.assign(size_t(n), 0); break;
				case 1: arg("construct(n,v)", 5); a = std::make_unique<V>(size_t(n), mk<T>(2)); ra.assign(size_t(n), 2); break;
				case 2: arg("fromVector", 5); a = std::make_unique<V>(V::fromVector(vec(n, int(d)))); ra.clear(); for (auto& x : vec(n, int(d))) ra.push_back(vl(x)); break;
				case 3: log(op = "copy construct"); a = std::make_unique<V>(*b); ra = rb; break;
				case 4: log(op = "move construct"); a = std::make_unique<V>(std::move(*b)); ra = rb; rb.clear(); break;
				case 5: log(op = "move assign"); *a = std::move(*b); ra = rb; rb.clear(); break;
				case 6: log(op = "self move assign"); { V& x = *a; *a = std::move(x); } if (a->empty()) ra.clear(); break;
				case 7: if (ra.empty()) return; arg("set", 3); (*a)[ra.size() - 1] = mk<T>(n + 1); ra.back() = n + 1; break;
				case 8: log(op = "exchange"); std::swap(a, b); std::swap(ra, rb); break;
			}
			for (int i = 0; i < 2; ++i) {
				V& x = i ? *b : *a; const V& c = x; auto& r = i ? rb : ra; std::string why;
				if (x.size() != r.size() || x.empty() != r.empty() || x.size_bytes() != r.size() * sizeof(T)) why = mc::fmt("size %zu expected %zu", x.size(), r.size());
				else { size_t k = 0; for (auto& e : x) { if (vl(e) != r[k]) why = mc::fmt("element %zu is %d expected %d", k, vl(e), r[k]); ++k; } if (k != r.size()) why = "iteration"; k = 0; for (auto& e : c) { if (vl(e) != r[k] || vl(c[k]) != r[k] || vl(x[k]) != r[k]) why = "const iteration"; ++k; } if (c.cend() - c.cbegin() != ptrdiff_t(r.size())) why = "cend"; }
				if constexpr (!std::is_same_v<T, Tracked>) if (why.empty()) {
					std::vector<T> e; for (int v : r) e.push_back(mk<T>(v));
					if (!(c == e)) why = "not equal to a vector of its elements";
					if (!(c == V::fromVector(e))) why = "not equal to a copy of its elements";
					if (!e.empty()) { e.back() = mk<T>(9); if (c == e || c == V::fromVector(e)) why = "equal to a vector whose last element differs"; e.pop_back(); if (c == e) why = "equal to a shorter vector"; }
				}
				if (!g_broken.empty()) why = g_broken;
				if (!why.empty()) { bad(op, why); a.release(); b.release(); return; }
			}
		}
		g_hist.clear(); g_hist.shrink_to_fit();
	}
	if (!g_broken.empty() || !g_alive.empty()) bad("destructor", g_broken + " leaked elements");
	(void)before;
}
static void boundsArray() {
	g_t = "bounds"; using B = fg::AccessorBoundsArray; const unsigned depth = mc::thorough() ? 8 : 6;
	struct R { bool dbl; std::vector<int> v; }; R ra{ false, {} }, rb{ true, { 0, 0 } };
	auto a = std::make_unique<B>(size_t(0), B::BoundsType::int64), b = std::make_unique<B>(size_t(2), B::BoundsType::float64);
	for (unsigned d = 0; d < depth; ++d) {
		if (d) { std::string k = "bounds"; for (R* r : { &ra, &rb }) { k += r->dbl ? 'd' : 'i'; for (int x : r->v) k += char('0' + x); } if (d == 1 && !mc::mine()) return; if (mc::prune(mc::hash(k), depth - d)) return; }
		const char* op = "?"; unsigned n = 0;
		switch (mc::choose(9)) {
			case 0: n = mc::choose(4); log(op = "int64", std::to_string(n)); a = std::make_unique<B>(size_t(n), B::BoundsType::int64); ra = { false, std::vector<int>(n, 0) }; break;
			case 1: n = mc::choose(4); log(op = "float64", std::to_string(n)); a = std::make_unique<B>(size_t(n), B::BoundsType::float64); ra = { true, std::vector<int>(n, 0) }; break;
			case 2: n = mc::choose(3); log(op = "ForType<int64>", std::to_string(n)); a = std::make_unique<B>(B::ForType<std::int64_t>(n)); ra = { false, std::vector<int>(n, 0) }; break;
			case 3: n = mc::choose(3); log(op = "ForType<double>", std::to_string(n)); a = std::make_unique<B>(B::ForType<double>(n)); ra = { true, std::vector<int>(n, 0) }; break;
			case 4: if (ra.v.empty()) return; n = mc::choose(unsigned(ra.v.size())); { int v = 1 + int(d); log(op = "set", std::to_string(n)); if (ra.dbl) a->set<double>(n, v + 0.5); else a->set<std::int64_t>(n, v); ra.v[n] = v; } break;
			case 5: log(op = "move construct"); a = std::make_unique<B>(std::move(*b)); ra = rb; rb.v.clear(); break;
			case 6: log(op = "move assign"); *a = std::move(*b); ra = rb; rb.v.clear(); break;
			case 7: log(op = "self move assign"); { B& x = *a; *a = std::move(x); } if (a->size() == 0) ra.v.clear(); break;
			case 8: log(op = "exchange"); std::swap(a, b); std::swap(ra, rb); break;
		}
		for (int i = 0; i < 2; ++i) {
			const B& x = i ? *b : *a; R& r = i ? rb : ra; std::string why;
			if (x.size() != r.v.size()) why = mc::fmt("size %zu expected %zu", x.size(), r.v.size());
			else if (x.isType<double>() != r.dbl || x.isType<std::int64_t>() == r.dbl || (x.type() == B::BoundsType::float64) != r.dbl) why = "type";
			else for (size_t k = 0; k < r.v.size(); ++k) { double e = r.v[k] ? r.v[k] + (r.dbl ? 0.5 : 0) : 0; if ((r.dbl ? x.get<double>(k) : double(x.get<std::int64_t>(k))) != e || (r.dbl ? x.data<double>()[k] : double(x.data<std::int64_t>()[k])) != e) why = mc::fmt("element %zu", k); }
			if (!why.empty()) { bad(op, why); return; }
		}
	}
}
template <typename T> static void expected(const char* name) {
	g_t = name; using E = fg::Expected<T>; const unsigned depth = mc::thorough() ? 8 : 6; g_alive.clear(); g_broken.clear();
	struct R { fg::Error e; int v; }; // v: -1 = moved from
	{
		R ra{ fg::Error::InvalidPath, 0 }, rb{ fg::Error::InvalidPath, 0 };
		auto a = std::make_unique<E>(fg::Error::InvalidPath), b = std::make_unique<E>(fg::Error::InvalidPath);
		for (unsigned d = 0; d < depth; ++d) {
			if (d) { int k[5] = { name[9], int(ra.e), ra.v, int(rb.e), rb.v }; if (d == 1 && !mc::mine()) return; if (mc::prune(mc::hash(k, sizeof k), depth - d)) break; }
			const char* op = "?";
			switch (mc::choose(7)) {
				case 0: log(op = "error"); a = std::make_unique<E>(fg::Error::InvalidGltf); ra = { fg::Error::InvalidGltf, 0 }; break;
				case 1: { int v = int(1 + mc::choose(3)); log(op = "value", std::to_string(v)); a = std::make_unique<E>(mk<T>(v)); ra = { fg::Error::None, v }; break; }
				case 2: log(op = "move construct"); a = std::make_unique<E>(std::move(*b)); ra = rb; rb.v = -1; break;
				case 3: log(op = "move assign"); *a = std::move(*b); ra = rb; rb.v = -1; break;
				case 4: log(op = "exchange"); std::swap(a, b); std::swap(ra, rb); break;
				case 5: if (ra.e != fg::Error::None || ra.v < 0) return; { log(op = "take"); T t = *std::move(*a); if (vl(t) != ra.v) bad(op, "value"); ra.v = -1; } break;
				case 6: if (ra.e != fg::Error::None) return; log(op = "store"); a->get() = mk<T>(5); ra.v = 5; break;
			}
			for (int i = 0; i < 2; ++i) {
				E& x = i ? *b : *a; const E& c = x; R& r = i ? rb : ra; std::string why; bool ok = r.e == fg::Error::None;
				if (x.error() != r.e || static_cast<bool>(c) != ok || x.template get<0>() != r.e || c.template get<0>() != r.e) why = "error()";
				else if ((x.get_if() != nullptr) != ok) why = "get_if()";
				else if (ok && r.v >= 0) { if (vl(x.get()) != r.v || vl(*x.get_if()) != r.v || vl(*x.operator->()) != r.v || vl(*c.operator->()) != r.v || vl(x.template get<1>()) != r.v || vl(c.template get<1>()) != r.v) why = "value"; auto& [e, v] = x; if (e != r.e || vl(v) != r.v) why = "structured binding"; }
				if (!g_broken.empty()) why = g_broken;
				if (!why.empty()) { bad(op, why); a.release(); b.release(); return; }
			}
		}
	}
	if (!g_broken.empty() || !g_alive.empty()) bad("destructor", g_broken + " leaked elements");
}
template <typename T> static void bounds(const char* name, const std::vector<T>& vals) {
	g_t = name; fg::Accessor acc; bool vec = mc::flip(); unsigned n = 1 + mc::choose(mc::thorough() ? 4 : 3); if (!mc::mine()) return;
	T lo[3], hi[3];
	for (unsigned i = 0; i < n; ++i) {
		T v[3]; std::string s; for (unsigned k = 0; k < (vec ? 2u : 1u); ++k) { v[k] = mc::pick(vals); s += std::to_string(v[k]) + ","; } v[2] = T(v[0] - 1);
		log(vec ? "update(vec3)" : "update", s);
		for (int k = 0; k < 3; ++k) { lo[k] = i ? std::min(lo[k], v[k]) : v[k]; hi[k] = i ? std::max(hi[k], v[k]) : v[k]; }
		if (vec) acc.updateBoundsToInclude(fg::math::vec<T, 3>(v[0], v[1], v[2])); else acc.updateBoundsToInclude(v[0]);
		size_t sz = vec ? 3 : 1;
		if (!acc.min || !acc.max || acc.min->size() != sz || acc.max->size() != sz || !acc.min->isType<T>() || !acc.max->isType<T>()) return bad("update", "shape");
		for (size_t k = 0; k < sz; ++k) if (acc.min->get<T>(k) != lo[k] || acc.max->get<T>(k) != hi[k]) return bad(vec ? "update(vec3)" : "update", "bounds are not the minimum and maximum");
	}
	mc::nontrivial();
}
static void spans() {
	g_t = "span"; unsigned n = mc::choose(7); Exact e(n * sizeof(int)); int* p = reinterpret_cast<int*>(e.data()); for (unsigned i = 0; i < n; ++i) p[i] = int(i); if (!mc::mine()) return;
	unsigned kind = mc::choose(4), off = mc::choose(n + 1), cnt = mc::choose(n + 1); fg::span<int> s(p, n); size_t o = 0, c = n; log("span", mc::fmt("%u,%u,%u,%u", n, kind, off, cnt));
	if (kind == 1) { if (off) return; s = s.first(cnt); c = cnt; } else if (kind == 2) { if (off || !n) return; if (cnt == 0) return; s = s.last(cnt); o = n - cnt; c = cnt; } else if (kind == 3) { if (off == n) return; bool dyn = cnt == 0; if (off + cnt > n) return; s = dyn ? s.subspan(off) : s.subspan(off, cnt); o = off; c = dyn ? n - off : cnt; } else if (off || cnt) return;
	if (s.size() != c || s.size_bytes() != c * sizeof(int) || s.empty() != (c == 0)) return bad("span", "size");
	size_t k = 0; for (int x : s) { if (x != int(o + k) || s[k] != x || s.at(k) != x) return bad("span", "elements"); ++k; } if (k != c) return bad("span", "iteration");
	for (auto it = s.rbegin(); it != s.rend(); ++it) if (*it != int(o + --k)) return bad("span", "reverse iteration");
	if (c && (s.front() != int(o) || s.back() != int(o + c - 1) || s.data() != p + o)) return bad("span", "front/back");
}
static void model() {
	g_hist.clear();
	const float nanF = std::numeric_limits<float>::quiet_NaN(), inf = std::numeric_limits<float>::infinity(); const double nanD = std::numeric_limits<double>::quiet_NaN();
	switch (mc::choose(16)) {
		case 0: optionals<size_t, size_t>("optional<size_t>", { 0, 1, 0x7fffffffu, SIZE_MAX - 1, 65535 }, { 0, 0xffffffffu }); break;
		case 1: optionals<float, double>("optional<float>", { 0.f, -0.f, 1.5f, inf, nanF, static_cast<float>(0x7fedb6db), std::numeric_limits<float>::max(), 1e-45f, -inf }, { 0.0, 1e30 }); break;
		case 2: optionals<double, float>("optional<double>", { 0., -0., 1.5, double(inf), nanD, static_cast<double>(0x7ffdb6db6db6db6d), std::numeric_limits<double>::max(), 5e-324 }, { 0.f, 1e30f }); break;
		case 3: optionals<fg::Filter, fg::Filter>("optional<Filter>", { fg::Filter::Nearest, fg::Filter::LinearMipMapLinear, fg::Filter(0) }, { fg::Filter::Linear }); break;
		case 4: optionals<fg::BufferTarget, fg::BufferTarget>("optional<BufferTarget>", { fg::BufferTarget::ArrayBuffer, fg::BufferTarget::ElementArrayBuffer, fg::BufferTarget(0) }, { fg::BufferTarget::ArrayBuffer }); break;
		case 5: staticVector<int>("staticvector<int>"); break;
		case 6: staticVector<Tracked>("staticvector<tracked>"); break;
		case 7: staticVector<std::string>("staticvector<string>"); break;
		case 8: staticVector<double>("staticvector<double>"); break;
		case 9: staticVector<uint8_t>("staticvector<uint8>"); break;
		case 10: boundsArray(); break;
		case 11: expected<Tracked>("expected<tracked>"); break;
		case 12: expected<std::string>("expected<string>"); break;
		case 13: bounds<std::int64_t>("updateBounds<int64>", { 0, 5, -3, INT64_MAX, INT64_MIN + 1 }); break;
		case 14: bounds<double>("updateBounds<double>", { 0.0, 5.5, -3.25, 1e300, -1e300 }); break;
		case 15: spans(); break;
	}
}
MC_MAIN(model)

// C23: vectors, matrices and quaternions against plain-loop definitions, exhaustively over small grids on which the
// arithmetic is exact (bilinear / multilinear formulas are determined by such grids), and over finite sets of rotations.
#include "util.hpp"
#include <fastgltf/math.hpp>
#include <array>
namespace m = fg::math;
static std::string g_case;
static void bad(const char* what, const std::string& d = "") { mc::fail(g_case + ":" + what, d); }
#define CHECK(cond, what, ...) do { mc::step(); if (!(cond)) bad(what, mc::fmt(__VA_ARGS__)); } while (0)
template <typename T, size_t N> static std::string str(const std::array<T, N>& a) { std::string r; for (auto v : a) r += mc::fmt("%g ", double(v)); return r; }
template <typename T, size_t N> static m::vec<T, N> mkv(const std::array<T, N>& a) { m::vec<T, N> v; for (size_t i = 0; i < N; ++i) v[i] = a[i]; return v; }
template <typename T, size_t N> static bool eq(const m::vec<T, N>& v, const std::array<T, N>& a) { for (size_t i = 0; i < N; ++i) if (v[i] != a[i] || v.data()[i] != a[i]) return false; return true; }
// ---- vectors ------------------------------------------------------------------------------------------------------
template <typename T, size_t N> static void vectors(const char* name, const std::vector<T>& vals) {
	g_case = name + std::to_string(N); std::array<T, N> a, b, e; for (auto& x : a) x = mc::pick(vals); if (!mc::mine()) return;
	mc::context(g_case);
	const auto va = mkv(a); using V = m::vec<T, N>; const char* A = nullptr; std::string as = str(a); A = as.c_str();
	auto each = [&](auto f) { for (size_t i = 0; i < N; ++i) e[i] = T(f(a[i], b[i])); return e; };
	if (mc::flip()) { // unary
		CHECK(va.size() == N && va.size_bytes() == N * sizeof(T), "size", "%s", A);
		CHECK(va.x() == a[0] && va.y() == a[1], "xy", "%s", A); V w = va; w.x() = T(9); CHECK(w[0] == T(9) && w[1] == a[1], "x()=", "%s", A);
		if constexpr (N >= 3) { CHECK(va.z() == a[2] && w.z() == a[2], "z", "%s", A); }
		if constexpr (N >= 4) { CHECK(va.w() == a[3] && w.w() == a[3], "w", "%s", A); }
		if constexpr (N == 2) { CHECK(eq(V(a[0], a[1]), a), "constructor", "%s", A); V l{ a[0], a[1] }; CHECK(eq(l, a), "list", "%s", A); }
		if constexpr (N == 3) { CHECK(eq(V(a[0], a[1], a[2]), a), "constructor", "%s", A); V l{ a[0], a[1], a[2] }; CHECK(eq(l, a), "list", "%s", A); l = { a[2], a[1], a[0] }; CHECK(l[0] == a[2] && l[2] == a[0], "list assignment", "%s", A); }
		if constexpr (N == 4) { CHECK(eq(V(a[0], a[1], a[2], a[3]), a), "constructor", "%s", A); V l{ a[0], a[1], a[2], a[3] }; CHECK(eq(l, a), "list", "%s", A); }
		{ T p[N]; for (size_t i = 0; i < N; ++i) p[i] = a[i]; CHECK(eq(V::fromPointer(p), a), "fromPointer", "%s", A); }
		{ std::array<T, N> f; f.fill(a[0]); CHECK(eq(V(a[0]), f), "fill", "%s", A); f.fill(T(0)); CHECK(eq(V(), f), "default", "%s", A); }
		b = a; CHECK(eq(+va, a), "unary +", "%s", A); CHECK(eq(-va, each([](T x, T) { return T(-x); })), "unary -", "%s", A);
		{ V i = va; auto r = ++i; CHECK(eq(i, each([](T x, T) { return T(x + 1); })) && r == i, "++v", "%s", A); i = va; r = i++; CHECK(eq(i, e) && eq(r, a), "v++", "%s", A); }
		{ V i = va; auto r = --i; CHECK(eq(i, each([](T x, T) { return T(x - 1); })) && r == i, "--v", "%s", A); i = va; r = i--; CHECK(eq(i, e) && eq(r, a), "v--", "%s", A); }
		T s = T(0); for (T x : a) s = T(s + x); CHECK(m::sum(va) == s, "sum", "%s", A);
		for (T k : { T(2), T(1), T(3) }) {
			CHECK(eq(va * k, each([&](T x, T) { return T(x * k); })), "v*s", "%s", A); CHECK(eq(va + k, each([&](T x, T) { return T(x + k); })), "v+s", "%s", A);
			CHECK(eq(va - k, each([&](T x, T) { return T(x - k); })), "v-s", "%s", A); CHECK(eq(va / k, each([&](T x, T) { return T(x / k); })), "v/s", "%s", A);
			V c = va; c *= k; CHECK(eq(c, each([&](T x, T) { return T(x * k); })), "v*=s", "%s", A); c = va; c += k; CHECK(eq(c, each([&](T x, T) { return T(x + k); })), "v+=s", "%s", A);
			c = va; c -= k; CHECK(eq(c, each([&](T x, T) { return T(x - k); })), "v-=s", "%s", A); c = va; c /= k; CHECK(eq(c, each([&](T x, T) { return T(x / k); })), "v/=s", "%s", A);
			CHECK(eq(m::clamp(va, T(1), k), each([&](T x, T) { return x < T(1) ? T(1) : k < x ? k : x; })), "clamp", "%s", A);
		}
		{ m::vec<T, 2> t(va); CHECK(t[0] == a[0] && t[1] == a[1], "truncate", "%s", A); m::vec<T, 4> x(va); bool ok = true; for (size_t i = 0; i < 4; ++i) ok &= x[i] == (i < N ? a[i] : T(0)); CHECK(ok, "extend", "%s", A);
		  m::vec<T, 4> y(T(7)); y = va; CHECK(y == x, "extending assignment", "%s", A); m::vec<T, 2> z(T(7)); z = va; CHECK(z == t, "truncating assignment", "%s", A); m::vec<T, 2> cv = static_cast<m::vec<T, 2>>(va); CHECK(cv == t, "conversion", "%s", A); }
		{ m::vec<double, N> d(va); bool ok = true; for (size_t i = 0; i < N; ++i) ok &= d[i] == double(a[i]); CHECK(ok, "convert", "%s", A); m::vec<double, N> f(3.0); f = va; CHECK(f == d, "converting assignment", "%s", A); }
		if constexpr (std::is_floating_point_v<T>) {
			double q = 0; for (T x : a) q += double(x) * x; CHECK(std::abs(double(m::length(va)) - std::sqrt(q)) <= 1e-6 * (1 + std::sqrt(q)), "length", "%s", A);
			if (q > 0) { auto n = m::normalize(va); bool ok = true; for (size_t i = 0; i < N; ++i) ok &= std::abs(double(n[i]) - a[i] / std::sqrt(q)) < 1e-6; CHECK(ok, "normalize", "%s", A); }
		}
		return;
	}
	for (auto& x : b) x = mc::pick(vals); const auto vb = mkv(b); std::string bs = str(a) + "| " + str(b); const char* B = bs.c_str();
	CHECK(eq(va + vb, each([](T x, T y) { return T(x + y); })), "v+v", "%s", B); CHECK(eq(va - vb, each([](T x, T y) { return T(x - y); })), "v-v", "%s", B); CHECK(eq(va * vb, each([](T x, T y) { return T(x * y); })), "v*v", "%s", B);
	{ V c = va; c += vb; CHECK(eq(c, each([](T x, T y) { return T(x + y); })), "v+=v", "%s", B); c = va; c -= vb; CHECK(eq(c, each([](T x, T y) { return T(x - y); })), "v-=v", "%s", B); c = va; c *= vb; CHECK(eq(c, each([](T x, T y) { return T(x * y); })), "v*=v", "%s", B); }
	bool nz = true; for (T y : b) nz &= y != T(0);
	if (nz) { CHECK(eq(va / vb, each([](T x, T y) { return T(x / y); })), "v/v", "%s", B); V c = va; c /= vb; CHECK(eq(c, e), "v/=v", "%s", B); }
	CHECK((va == vb) == (a == b) && (va != vb) == (a != b), "==", "%s", B);
	T d = T(0); for (size_t i = 0; i < N; ++i) d = T(d + T(a[i] * b[i])); CHECK(m::dot(va, vb) == d, "dot", "%s", B);
	if constexpr (std::is_floating_point_v<T>) for (T t : { T(0), T(0.5), T(1) }) CHECK(eq(m::lerp(va, vb, t), each([&](T x, T y) { return T(x + t * (y - x)); })), "lerp", "%s", B);
	if constexpr (N == 3) { std::array<T, 3> c{ T(a[1] * b[2] - a[2] * b[1]), T(a[2] * b[0] - a[0] * b[2]), T(a[0] * b[1] - a[1] * b[0]) }; CHECK(eq(m::cross(va, vb), c), "cross", "%s", B); }
}
// ---- matrices: entries addressed [row][column] ----------------------------------------------------------------------
template <typename T, size_t R, size_t C> using A2 = std::array<std::array<T, C>, R>;
template <typename T, size_t R, size_t C> static m::mat<T, R, C> mkm(const A2<T, R, C>& a) { m::mat<T, R, C> r(T(0)); for (size_t c = 0; c < C; ++c) for (size_t i = 0; i < R; ++i) r.col(c)[i] = a[i][c]; return r; }
template <typename T, size_t R, size_t C> static bool eqm(const m::mat<T, R, C>& x, const A2<T, R, C>& a) {
	const T* d = x.data(); for (size_t c = 0; c < C; ++c) for (size_t i = 0; i < R; ++i) if (x.col(c)[i] != a[i][c] || x[c][i] != a[i][c] || d[c * R + i] != a[i][c]) return false;
	for (size_t i = 0; i < R; ++i) { auto r = x.row(i); for (size_t c = 0; c < C; ++c) if (r[c] != a[i][c]) return false; } return true; }
template <typename T, size_t R, size_t C> static std::string str(const A2<T, R, C>& a) { std::string r; for (auto& row : a) r += str(row) + "/ "; return r; }
template <typename M, typename T, size_t... I> static M fromScalars(const std::array<T, sizeof...(I)>& v, std::index_sequence<I...>) { return M(v[I]...); }
template <typename M, typename V, size_t... I> static M fromColumns(const std::array<V, sizeof...(I)>& v, std::index_sequence<I...>) { return M(v[I]...); }
template <typename T, size_t R, size_t C, size_t Q> static void shape() {
	g_case = mc::fmt("mat%zux%zu*%zux%zu", R, C, C, Q); mc::context(g_case);
	// basis x basis, dense x basis, basis x dense, dense x dense: with bilinearity this determines the product
	unsigned pa = mc::choose(unsigned(R * C + 2)), pb = mc::choose(unsigned(C * Q + 2)); if (!mc::mine()) return;
	A2<T, R, C> a{}; A2<T, C, Q> b{}; T n = T(1);
	for (size_t i = 0; i < R; ++i) for (size_t c = 0; c < C; ++c) { a[i][c] = pa == R * C ? n : pa == R * C + 1 ? T(n * n - 20) : T(pa == i * C + c); n = T(n + 1); }
	for (size_t i = 0; i < C; ++i) for (size_t c = 0; c < Q; ++c) { b[i][c] = pb == C * Q ? n : pb == C * Q + 1 ? T(31 - n) : T(pb == i * Q + c); n = T(n + 1); }
	using MA = m::mat<T, R, C>; using MB = m::mat<T, C, Q>; const MA ma = mkm<T, R, C>(a); const MB mb = mkm<T, C, Q>(b); std::string s = str<T, R, C>(a) + "* " + str<T, C, Q>(b); const char* S = s.c_str();
	CHECK((eqm<T, R, C>(ma, a)), "elements", "%s", S); CHECK(ma.rows() == R && ma.columns() == C && ma.size() == R * C && ma.size_bytes() == R * C * sizeof(T), "size", "%s", S);
	A2<T, R, Q> p{}; for (size_t i = 0; i < R; ++i) for (size_t c = 0; c < Q; ++c) for (size_t k = 0; k < C; ++k) p[i][c] = T(p[i][c] + a[i][k] * b[k][c]);
	CHECK((eqm<T, R, Q>(ma * mb, p)), "product", "%s", S);
	{ std::array<T, R * C> v; for (size_t c = 0; c < C; ++c) for (size_t i = 0; i < R; ++i) v[c * R + i] = a[i][c]; CHECK((eqm<T, R, C>(fromScalars<MA>(v, std::make_index_sequence<R * C>()), a)), "construct from scalars", "%s", S); }
	{ std::array<m::vec<T, R>, C> v; for (size_t c = 0; c < C; ++c) for (size_t i = 0; i < R; ++i) v[c][i] = a[i][c]; CHECK((eqm<T, R, C>(fromColumns<MA>(v, std::make_index_sequence<C>()), a)), "construct from columns", "%s", S); }
	{ A2<T, C, R> t{}; for (size_t i = 0; i < R; ++i) for (size_t c = 0; c < C; ++c) t[c][i] = a[i][c]; CHECK((eqm<T, C, R>(m::transpose(ma), t)), "transpose", "%s", S); }
	{ A2<T, R, C> t = a; for (auto& r : t) for (auto& x : r) x = T(-x); CHECK((eqm<T, R, C>(-ma, t)), "unary -", "%s", S); t = a; for (auto& r : t) for (auto& x : r) x = T(x * 3); CHECK((eqm<T, R, C>(ma * T(3), t)), "m*s", "%s", S); t = a; for (auto& r : t) for (auto& x : r) x = T(x / T(2)); CHECK((eqm<T, R, C>(ma / T(2), t)), "m/s", "%s", S); }
	for (size_t q = 0; q < Q; ++q) { m::vec<T, C> v; for (size_t k = 0; k < C; ++k) v[k] = b[k][q]; m::vec<T, R> r = ma * v; bool ok = true; for (size_t i = 0; i < R; ++i) ok &= r[i] == p[i][q]; CHECK(ok, "m*v", "%s", S); }
	{ MA c = ma; CHECK(c == ma && !(c != ma), "==", "%s", S); for (size_t i = 0; i < R; ++i) for (size_t k = 0; k < C; ++k) { c = ma; c.col(k)[i] = T(c.col(k)[i] + 1); CHECK(!(c == ma) && c != ma, "==", "%s differs at %zu,%zu", S, i, k); } }
	{ A2<T, R, C> id{}; for (size_t i = 0; i < std::min(R, C); ++i) id[i][i] = T(1); CHECK((eqm<T, R, C>(MA(), id)), "identity", "%s", S); for (size_t i = 0; i < std::min(R, C); ++i) id[i][i] = T(5); CHECK((eqm<T, R, C>(MA(T(5)), id)), "scaled identity", "%s", S); }
	if constexpr (R > 2 && C > 2) { m::mat<T, 2, 2> t(ma); A2<T, 2, 2> e{ { { a[0][0], a[0][1] }, { a[1][0], a[1][1] } } }; CHECK((eqm<T, 2, 2>(t, e)), "truncate", "%s", S); }
	if constexpr (R < 4 && C < 4) { m::mat<T, 4, 4> t(ma); A2<T, 4, 4> e{}; for (size_t i = 0; i < 4; ++i) for (size_t c = 0; c < 4; ++c) e[i][c] = i < R && c < C ? a[i][c] : T(i == c && c >= C); CHECK(R != C || (eqm<T, 4, 4>(t, e)), "extend", "%s", S); }
}
template <typename T, size_t R, size_t C> static void shapes2(unsigned q) { if (q == 0) shape<T, R, C, 2>(); else if (q == 1) shape<T, R, C, 3>(); else shape<T, R, C, 4>(); }
template <typename T> static void shapes() {
	unsigned k = mc::choose(9), q = mc::choose(3);
	switch (k) { case 0: return shapes2<T, 2, 2>(q); case 1: return shapes2<T, 2, 3>(q); case 2: return shapes2<T, 2, 4>(q); case 3: return shapes2<T, 3, 2>(q); case 4: return shapes2<T, 3, 3>(q); case 5: return shapes2<T, 3, 4>(q); case 6: return shapes2<T, 4, 2>(q); case 7: return shapes2<T, 4, 3>(q); default: return shapes2<T, 4, 4>(q); }
}
// determinant by permutation expansion; inverse through cofactors: all in exact integers
template <size_t N> static long det(const A2<long, N, N>& a, unsigned usedCols = 0, size_t row = 0) {
	if (row == N) return 1; long r = 0; int sgn = 1;
	for (size_t c = 0; c < N; ++c) { if (usedCols >> c & 1) continue; if (a[row][c]) r += sgn * a[row][c] * det<N>(a, usedCols | 1u << c, row + 1); sgn = -sgn; } return r;
}
template <size_t N> static long cofactor(const A2<long, N, N>& a, size_t ri, size_t ci) { // determinant of a with row ri replaced by the unit row ci
	A2<long, N, N> b = a; b[ri] = {}; b[ri][ci] = 1; return det<N>(b); }
template <typename T, size_t N> static void inverses(const A2<long, N, N>& a) {
	A2<T, N, N> f; for (size_t i = 0; i < N; ++i) for (size_t c = 0; c < N; ++c) f[i][c] = T(a[i][c]); const auto x = mkm<T, N, N>(f); std::string s = str<long, N, N>(a); const char* S = s.c_str();
	long d = det<N>(a); CHECK(m::determinant(x) == T(d), "determinant", "%s is %ld got %g", S, d, double(m::determinant(x)));
	if (d != 0) { mc::nontrivial(); auto inv = m::inverse(x); bool ok = true; for (size_t i = 0; i < N; ++i) for (size_t c = 0; c < N; ++c) ok &= std::abs(double(inv.col(c)[i]) - double(cofactor<N>(a, c, i)) / double(d)) < 1e-5; CHECK(ok, "inverse", "%s", S); }
	// a power of two times the matrix: the inverse is the inverse divided by it, exactly, however small or large the determinant gets
	if (d != 0) for (int k : { -24, -9, -3, 7, 20 }) {
		A2<T, N, N> g = f; for (auto& r : g) for (auto& v : r) v = std::ldexp(v, k); const auto y = mkm<T, N, N>(g); bool ok = true; auto inv = m::inverse(y);
		for (size_t i = 0; i < N; ++i) for (size_t c = 0; c < N; ++c) { double want = std::ldexp(double(cofactor<N>(a, c, i)) / double(d), -k); ok &= std::abs(double(inv.col(c)[i]) - want) <= std::ldexp(1e-5, -k); } CHECK(ok, "inverse of a scaled matrix", "2^%d times %s", k, S);
		CHECK(double(m::determinant(y)) == std::ldexp(double(d), k * int(N)), "determinant of a scaled matrix", "2^%d times %s", k, S);
	}
	if constexpr (N == 4) if (d != 0 && a[3][0] == 0 && a[3][1] == 0 && a[3][2] == 0 && a[3][3] == 1) { auto inv = m::affineInverse(x); bool ok = true; for (size_t i = 0; i < N; ++i) for (size_t c = 0; c < N; ++c) ok &= std::abs(double(inv.col(c)[i]) - double(cofactor<N>(a, c, i)) / double(d)) < 1e-5; CHECK(ok, "affineInverse", "%s", S); }
}
template <size_t N> static void dets(const char* name, const std::vector<long>& first, const std::vector<long>& rest, bool affine) {
	g_case = name; mc::context(name); A2<long, N, N> a{}; for (size_t c = 0; c < N; ++c) a[0][c] = mc::pick(first); if (!mc::mine()) return;
	for (size_t i = 1; i < N; ++i) for (size_t c = 0; c < N; ++c) a[i][c] = affine && i == 3 ? long(c == 3) : mc::pick(rest);
	inverses<float, N>(a); inverses<double, N>(a);
}
// ---- rotations: quaternions as x,y,z,w ------------------------------------------------------------------------------
using Q4 = std::array<double, 4>;
static Q4 qmul(const Q4& a, const Q4& b) { return { a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1], a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0], a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3], a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2] }; }
static std::array<double, 3> rotate(const Q4& q, std::array<double, 3> v) { Q4 r = qmul(qmul(q, { v[0], v[1], v[2], 0 }), { -q[0], -q[1], -q[2], q[3] }); return { r[0], r[1], r[2] }; }
static Q4 normal(Q4 q) { double n = 0; for (double x : q) n += x * x; for (double& x : q) x /= std::sqrt(n); return q; }
static const std::vector<Q4>& rotations() { // the 48 elements of the binary octahedral group, and axis/angle grids including angles near 0 and 180 degrees
	static std::vector<Q4> r = [] {
		std::vector<Q4> v; const double h = std::sqrt(0.5);
		for (int i = 0; i < 4; ++i) for (int s : { 1, -1 }) { Q4 q{}; q[size_t(i)] = s; v.push_back(q); }
		for (int s = 0; s < 16; ++s) v.push_back({ s & 1 ? .5 : -.5, s & 2 ? .5 : -.5, s & 4 ? .5 : -.5, s & 8 ? .5 : -.5 });
		for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) for (int s = 0; s < 4; ++s) { Q4 q{}; q[size_t(i)] = s & 1 ? h : -h; q[size_t(j)] = s & 2 ? h : -h; v.push_back(q); }
		std::vector<double> degs = { 0.5, 30, 89.5, 120, 179.5, 180 }; if (mc::thorough()) for (double d = 10; d < 180; d += 10) degs.push_back(d);
		for (int x = -2; x <= 2; ++x) for (int y = -2; y <= 2; ++y) for (int z = -1; z <= 2; ++z) { if (!x && !y && !z) continue; double n = std::sqrt(double(x * x + y * y + z * z)); for (double d : degs) { double a = d * M_PI / 360; v.push_back({ x / n * std::sin(a), y / n * std::sin(a), z / n * std::sin(a), std::cos(a) }); } }
		return v; }();
	return r;
}
template <typename T> static m::quat<T> mkq(const Q4& q) { return m::quat<T>(T(q[0]), T(q[1]), T(q[2]), T(q[3])); }
template <typename M> static bool nearRot(const M& x, const Q4& q, double eps) { // columns are the images of the unit vectors
	for (size_t c = 0; c < 3; ++c) { std::array<double, 3> u{}; u[c] = 1; auto w = rotate(q, u); for (size_t i = 0; i < 3; ++i) if (!(std::abs(double(x.col(c)[i]) - w[i]) < eps)) return false; } return true; }
template <typename T> static void quats() {
	g_case = sizeof(T) == 4 ? "quat<float>" : "quat<double>"; mc::context(g_case); const Q4& q = mc::pick(rotations()); if (!mc::mine()) return; const auto f = mkq<T>(q); std::string s = str(q); const char* S = s.c_str(); const double eps = 1e-5;
	unsigned k = mc::choose(2);
	if (k == 0) {
		CHECK(f.x() == T(q[0]) && f.y() == T(q[1]) && f.z() == T(q[2]) && f.w() == T(q[3]) && f.size() == 4 && f.size_bytes() == 4 * sizeof(T) && f.data()[3] == f.w(), "elements", "%s", S);
		{ T p[4] = { T(q[0]), T(q[1]), T(q[2]), T(q[3]) }; CHECK(m::quat<T>::fromPointer(p) == f, "fromPointer", "%s", S); m::quat<T> id; CHECK(id.x() == 0 && id.y() == 0 && id.z() == 0 && id.w() == 1, "identity", "%s", S); }
		CHECK(nearRot(m::asMatrix(f), q, eps), "asMatrix", "%s", S);
		for (T n : { T(2), T(0.5), T(-4) }) {
			auto a = f * n, b = f / n; auto c = f, d = f; c *= n; d /= n; bool ok = true; for (size_t i = 0; i < 4; ++i) ok &= a[i] == f[i] * n && b[i] == f[i] / n && c[i] == a[i] && d[i] == b[i]; CHECK(ok, "scalar operators", "%s", S);
			auto e = m::normalize(f * n); ok = true; for (size_t i = 0; i < 4; ++i) ok &= std::abs(double(e[i]) - (n < 0 ? -q[i] : q[i])) < eps; CHECK(ok, "normalize", "%s", S);
		}
		{ auto n = -f, p = +f; bool ok = true; for (size_t i = 0; i < 4; ++i) ok &= n[i] == -f[i] && p[i] == f[i]; CHECK(ok, "unary operators", "%s", S); }
		{ m::mat<T, 4, 4> base(T(1), T(2), T(3), T(0), T(0), T(1), T(4), T(0), T(5), T(6), T(0), T(0), T(7), T(8), T(9), T(1)); auto r = m::rotate(base, f); bool ok = true;
		  for (size_t c = 0; c < 4; ++c) { std::array<double, 3> u{}; if (c < 3) { u[c] = 1; u = rotate(q, u); } for (size_t i = 0; i < 4; ++i) { double e = c < 3 ? double(base.col(0)[i]) * u[0] + double(base.col(1)[i]) * u[1] + double(base.col(2)[i]) * u[2] : double(base.col(3)[i]); ok &= std::abs(double(r.col(c)[i]) - e) < 1e-4; } } CHECK(ok, "rotate", "%s", S);
		  auto t = m::translate(base, m::vec<T, 3>(T(2), T(-1), T(3))); ok = true; for (size_t i = 0; i < 4; ++i) { for (size_t c = 0; c < 3; ++c) ok &= t.col(c)[i] == base.col(c)[i]; ok &= t.col(3)[i] == base.col(0)[i] * 2 - base.col(1)[i] + base.col(2)[i] * 3 + base.col(3)[i]; } CHECK(ok, "translate", "%s", S);
		  auto c = m::scale(base, m::vec<T, 3>(T(2), T(-1), T(3))); ok = true; for (size_t i = 0; i < 4; ++i) ok &= c.col(0)[i] == base.col(0)[i] * 2 && c.col(1)[i] == -base.col(1)[i] && c.col(2)[i] == base.col(2)[i] * 3 && c.col(3)[i] == base.col(3)[i]; CHECK(ok, "scale", "%s", S); }
	} else {
		const Q4& p = mc::pick(rotations()); const auto g = mkq<T>(p); s += "| " + str(p); S = s.c_str();
		double d = 0; for (size_t i = 0; i < 4; ++i) d += q[i] * p[i];
		CHECK(std::abs(double(m::dot(f, g)) - d) < eps, "dot", "%s", S); CHECK((f == g) == (f.x() == g.x() && f.y() == g.y() && f.z() == g.z() && f.w() == g.w()) && (f != g) == !(f == g), "==", "%s", S);
		{ auto a = f + g, b = f - g; auto c = f, e = f; c += g; e -= g; bool ok = true; for (size_t i = 0; i < 4; ++i) ok &= a[i] == f[i] + g[i] && b[i] == f[i] - g[i] && c[i] == a[i] && e[i] == b[i]; CHECK(ok, "+ -", "%s", S); }
		if (std::abs(d) > 1e-6) for (double t : { 0., .25, .5, 1. }) { // spherical interpolation along the shorter arc, as a rotation
			auto r = m::slerp(f, g, T(t)); double n = 0; for (size_t i = 0; i < 4; ++i) n += double(r[i]) * r[i];
			CHECK(std::abs(n - 1) < 1e-4, "slerp:unit", "%s t=%g length %g", S, t, std::sqrt(n));
			Q4 a = q; double c = d; if (c < 0) { for (double& x : a) x = -x; c = -c; } double th = std::acos(std::min(1., c)), wa = th < 1e-4 ? 1 - t : std::sin((1 - t) * th) / std::sin(th), wb = th < 1e-4 ? t : std::sin(t * th) / std::sin(th);
			double dd = 0; for (size_t i = 0; i < 4; ++i) dd += double(r[i]) * (wa * a[i] + wb * p[i]); CHECK(1 - std::abs(dd) < 1e-5, "slerp", "%s t=%g", S, t);
		}
	}
}
static void decompose() {
	g_case = "decompose"; mc::context(g_case); const Q4& q = mc::pick(rotations()); static const std::vector<float> sc = { 1, 2, 0.25f, -1, -3, 1000, 0 }; std::array<float, 3> s{ mc::pick(sc), mc::pick(sc), mc::pick(sc) }; if (!mc::mine()) return;
	m::fvec3 t = mc::flip() ? m::fvec3(1.5f, -20.f, 3000.f) : m::fvec3(0.f, 0.f, 0.f);
	auto comp = [&](const Q4& r, const std::array<double, 3>& k, double out[16]) { for (size_t c = 0; c < 3; ++c) { std::array<double, 3> u{}; u[c] = 1; u = rotate(r, u); for (size_t i = 0; i < 3; ++i) out[c * 4 + i] = u[i] * k[c]; out[c * 4 + 3] = 0; } for (size_t i = 0; i < 3; ++i) out[12 + i] = t[i]; out[15] = 1; };
	double e[16]; comp(q, { s[0], s[1], s[2] }, e); m::fmat4x4 x(0.f); for (size_t c = 0; c < 4; ++c) for (size_t i = 0; i < 4; ++i) x.col(c)[i] = float(e[c * 4 + i]);
	m::fvec3 os, ot; m::fquat orr; m::decomposeTransformMatrix(x, os, orr, ot); std::string d = str(q) + "| " + str(s); const char* S = d.c_str();
	CHECK(ot == t, "translation", "%s", S); double n = 0; for (size_t i = 0; i < 4; ++i) n += double(orr[i]) * orr[i]; CHECK(std::abs(n - 1) < 1e-4, "unit rotation", "%s length %g", S, std::sqrt(n));
	for (size_t i = 0; i < 3; ++i) CHECK(std::abs(std::abs(double(os[i])) - std::abs(s[i])) <= 1e-4 * std::abs(s[i]), "scale", "%s got %g %g %g", S, double(os.x()), double(os.y()), double(os.z()));
	double o[16]; comp({ orr[0], orr[1], orr[2], orr[3] }, { os[0], os[1], os[2] }, o); bool ok = true; for (size_t c = 0; c < 3; ++c) for (size_t i = 0; i < 3; ++i) ok &= std::abs(o[c * 4 + i] - e[c * 4 + i]) <= 2e-4 * std::abs(s[c]); CHECK(ok, "recomposition", "%s", S);
	if (s[0] > 0 && s[1] > 0 && s[2] > 0) { mc::nontrivial(); double dd = 0; for (size_t i = 0; i < 4; ++i) dd += q[i] * double(orr[i]); CHECK(1 - std::abs(dd) < 1e-5, "rotation", "%s", S); }
	auto y = m::scale(m::rotate(m::translate(m::fmat4x4(), ot), orr), os); ok = true; for (size_t c = 0; c < 4; ++c) for (size_t i = 0; i < 4; ++i) ok &= std::abs(double(y.col(c)[i]) - e[c * 4 + i]) <= 2e-4 * (c < 3 ? std::abs(s[c]) : 1); CHECK(ok, "recomposition with the library", "%s", S);
}
static void model() {
	const bool th = mc::thorough(); const std::vector<float> f = th ? std::vector<float>{ -2, -1, 0, 1, 3 } : std::vector<float>{ -2, 0, 1, 3 }; const std::vector<double> d = { -1.5, 0, 2 }; const std::vector<long> s01 = { 0, 1 };
	switch (mc::choose(20)) {
		case 0: vectors<float, 2>("vec<float>", f); break; case 1: vectors<float, 3>("vec<float>", f); break; case 2: vectors<float, 4>("vec<float>", f); break;
		case 3: vectors<double, 2>("vec<double>", d); break; case 4: vectors<double, 3>("vec<double>", d); break; case 5: vectors<double, 4>("vec<double>", d); break;
		case 6: vectors<int32_t, 3>("vec<int32>", { -3, 0, 5 }); break; case 7: vectors<uint8_t, 4>("vec<uint8>", { 1, 7, 250 }); break; case 8: vectors<int16_t, 2>("vec<int16>", { -300, 0, 1, 32000 }); break; case 9: vectors<int8_t, 3>("vec<int8>", { -100, 0, 100 }); break;
		case 10: shapes<float>(); break; case 11: shapes<double>(); break; case 12: shapes<int32_t>(); break;
		case 13: dets<2>("mat2", { -2, -1, 0, 1, 3 }, { -2, -1, 0, 1, 3 }, false); break;
		case 14: dets<3>("mat3", { -1, 0, 1, 2 }, { -1, 0, 1 }, false); break;
		case 15: dets<4>("mat4", { -1, 0, 2 }, th ? std::vector<long>{ -1, 0, 1 } : s01, false); break;
		case 16: dets<4>("mat4affine", { -1, 0, 2 }, { -1, 0, 1 }, true); break;
		case 17: quats<float>(); break; case 18: quats<double>(); break; case 19: decompose(); break;
	}
	if (mc::g_isMine) mc::note("%s", g_case.c_str());
}
MC_MAIN(model)

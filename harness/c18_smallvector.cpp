// C18: SmallVector against std::vector. Explicit-state exploration of all operation sequences over two vectors, with
// elements and allocators which track their own life times.
#include "util.hpp"
#include "tracked.hpp"
#include <memory_resource>
// ---- element types ------------------------------------------------------------------------------------------------
struct CopyOnly { // no move operations at all
	Tracked t;
	explicit CopyOnly(int v) : t(v) {} CopyOnly() = default; CopyOnly(const CopyOnly&) = default; CopyOnly& operator=(const CopyOnly&) = default; CopyOnly(CopyOnly&&) = delete;
	int get() const { return t.get(); }
};
struct MoveThrows { // movable, but not noexcept: copied on reallocation
	Tracked t;
	explicit MoveThrows(int v) : t(v) {} MoveThrows() = default; MoveThrows(const MoveThrows&) = default; MoveThrows(MoveThrows&& o) noexcept(false) : t(std::move(o.t)) {} MoveThrows& operator=(const MoveThrows&) = default; MoveThrows& operator=(MoveThrows&& o) noexcept(false) { t = std::move(o.t); return *this; }
	int get() const { return t.get(); }
};
struct alignas(32) Wide { int v; int pad[7]; explicit Wide(int v) : v(v), pad{} {} Wide() : Wide(0) {} int get() const { if (reinterpret_cast<uintptr_t>(this) % 32) broken("misaligned element"); return v; } };
static int val(int v) { return v; }
[[maybe_unused]] static int val(const std::string& s) { return s.empty() ? 0 : s[20] - 'a'; }
template <typename T> static int val(const T& v) { return v.get(); }
template <typename T> static T make(int v) { if constexpr (std::is_same_v<T, std::string>) return v ? "twenty characters ab" + std::string(1, char('a' + v)) : std::string(); else return T(v); }
// ---- allocators ---------------------------------------------------------------------------------------------------
struct Pool { std::map<void*, size_t> blocks; ~Pool() {} };
static Pool g_pool[4];
template <typename T> struct PoolAlloc { // stateful: memory must go back to where it came from
	using value_type = T; Pool* pool;
	PoolAlloc() : pool(&g_pool[0]) {}
	explicit PoolAlloc(Pool* p) : pool(p) {}
	template <typename U> PoolAlloc(const PoolAlloc<U>& o) : pool(o.pool) {}
	T* allocate(size_t n) { auto p = static_cast<T*>(std::allocator<T>().allocate(n + 1)); memset(static_cast<void*>(p + n), 0x5A, sizeof(T)); pool->blocks[p] = n; return p; }
	void deallocate(T* p, size_t n) { auto it = pool->blocks.find(p); if (it == pool->blocks.end()) return broken("deallocation through an allocator which does not own the block"); if (it->second != n) broken("deallocation with a wrong size"); for (size_t i = 0; i < sizeof(T); ++i) if (reinterpret_cast<unsigned char*>(p + it->second)[i] != 0x5A) { broken("write beyond the allocation"); break; } pool->blocks.erase(it); std::allocator<T>().deallocate(p, n + 1); }
	friend bool operator==(const PoolAlloc& a, const PoolAlloc& b) { return a.pool == b.pool; }
	friend bool operator!=(const PoolAlloc& a, const PoolAlloc& b) { return a.pool != b.pool; }
};
static const char* g_type;
template <typename T, size_t N, typename A, bool Self> static void run() {
	using V = fg::SmallVector<T, N, A>;
	g_alive.clear(); g_broken.clear(); for (auto& p : g_pool) p.blocks.clear();
	auto alloc = [](int i) { if constexpr (std::is_constructible_v<A, Pool*>) return A(&g_pool[1 + i]); else { (void)i; return A(); } };
	#if defined(__SANITIZE_ADDRESS__)
	const unsigned depth = mc::thorough() ? 4 : 3,
#else
	const unsigned depth = mc::thorough() ? 6 : 4,
#endif
	 MAXN = mc::thorough() ? 7 : 6;
	struct { unsigned who, n; const char* s; } ops[16]; unsigned nops = 0;
	auto history = [&]() { std::string h; for (unsigned i = 0; i < nops; ++i) h += mc::fmt(" %c.%s(%u)", 'a' + ops[i].who, ops[i].s, ops[i].n); return h; };
	bool skip = false;
	{
		std::unique_ptr<V> v[2] = { std::make_unique<V>(alloc(0)), std::make_unique<V>(alloc(1)) };
		std::vector<int> r[2]; int al[2] = { 1, 2 }; // reference contents; which pool each vector allocates from
		auto compare = [&](const char* op) {
			if (!g_broken.empty()) { mc::fail(std::string(g_type) + ":" + op + ":lifetime", g_broken + " in " + history()); return false; }
			size_t total = 0;
			for (int i = 0; i < 2; ++i) {
				auto& x = *v[i]; const V& c = x; total += x.size(); std::string why;
				if (x.size() != r[i].size() || x.empty() != r[i].empty()) why = mc::fmt("size %zu expected %zu", x.size(), r[i].size());
				else if (x.capacity() < x.size()) why = "capacity smaller than size";
				else if (size_t(x.end() - x.begin()) != x.size() || x.data() != x.begin() || c.cbegin() != c.begin() || c.cend() != c.end()) why = "iterators";
				else if (x.isUsingStack() && x.capacity() > N) why = mc::fmt("inline with capacity %zu", x.capacity());
				else if (x.data() == nullptr) why = "no storage";
				else { for (size_t k = 0; k < x.size() && why.empty(); ++k) if (val(x[k]) != r[i][k] || val(c[k]) != r[i][k] || val(x.at(k)) != r[i][k]) why = mc::fmt("element %zu is %d expected %d", k, val(x[k]), r[i][k]);
					if (why.empty() && !x.empty() && (val(x.front()) != r[i].front() || val(c.back()) != r[i].back())) why = "front/back";
					if (why.empty()) { size_t k = 0; for (auto& e : x) { if (val(e) != r[i][k]) why = "iteration"; ++k; } }
					if (why.empty()) { size_t k = x.size(); for (auto it = x.rbegin(); it != x.rend(); ++it) if (val(*it) != r[i][--k]) why = "reverse iteration"; if (k) why = "reverse iteration"; }
					bool th = false; try { (void)c.at(x.size()); } catch (const std::out_of_range&) { th = true; } if (!th) why = "at() beyond the end did not throw"; }
				if (!g_broken.empty()) why = g_broken;
				if (!why.empty()) { mc::fail(std::string(g_type) + ":" + op, mc::fmt("vector %d: ", i) + why + " in " + history()); return false; }
			}
			if constexpr (std::is_same_v<T, Tracked> || std::is_same_v<T, CopyOnly> || std::is_same_v<T, MoveThrows>) if (g_alive.size() != total) { mc::fail(std::string(g_type) + ":" + op + ":leaked-elements", mc::fmt("%zu elements alive, %zu expected in ", g_alive.size(), total) + history()); return false; }
			return true;
		};
		for (unsigned d = 0; d < depth; ++d) {
			if (d >= 1) {
				// Everything the future depends on; the two vectors (and their pools) are interchangeable.
				char key[2][96]; for (unsigned i = 0; i < 2; ++i) { char* k = key[i]; *k++ = char(v[i]->size()); *k++ = char(v[i]->capacity()); *k++ = v[i]->isUsingStack(); *k++ = char(al[i] == 0 ? 0 : al[i] == int(i + 1) ? 1 : 2); for (int e : r[i]) { if (k == key[i] + 96) mc::die("vector too long"); *k++ = char(e); } std::fill(k, key[i] + 96, char(9)); }
				uint64_t h0 = mc::hash(key[0], 96), h1 = mc::hash(key[1], 96); uint64_t h[3] = { std::min(h0, h1), std::max(h0, h1), mc::hash(g_type) };
				uint64_t hs = mc::hash(h, sizeof h);
				if (d >= 2 && !mc::mineState(hs)) { skip = true; break; }
				if (mc::prune(hs, depth - d)) break;
			}
			unsigned who = mc::choose(2), op = mc::choose(22); auto& x = v[who]; auto& y = v[1 - who]; auto& rx = r[who]; auto& ry = r[1 - who];
			int nv = int(1 + rx.size() % 4); const char* name = "?"; unsigned n = 0;
			auto arg = [&](unsigned lim) { n = mc::choose(lim); };
			auto log = [&](const char* s) { name = s; ops[nops++] = { who, n, s }; mc::context(s); if (mc::g_replay || mc::g_wantSample) mc::note("%s:%s", g_type, history().c_str()); mc::step(); };
			switch (op) {
				case 0: { log("emplace_back"); T& e = [&]() -> T& { T t = make<T>(nv); if (nv & 1) return x->emplace_back(static_cast<const T&>(t)); if constexpr (std::is_move_constructible_v<T>) return x->emplace_back(std::move(t)); else return x->emplace_back(static_cast<const T&>(t)); }(); rx.push_back(nv); if (&e != &x->back()) mc::fail(std::string(g_type) + ":emplace_back:result"); break; }
				case 1: if (rx.empty()) return; log("emplace_back(front)"); x->emplace_back(static_cast<const T&>(x->front())); rx.push_back(int(rx.front())); break;
				case 2: if (rx.empty()) return; log("emplace_back(back)"); x->emplace_back(static_cast<const T&>(x->back())); rx.push_back(int(rx.back())); break;
				case 3: log("emplace_back()"); x->emplace_back(); rx.push_back(0); break;
				case 4: arg(MAXN); log("resize"); x->resize(n); rx.resize(n); break;
				case 5: { arg(MAXN); log("resize(value)"); T t = make<T>(nv); x->resize(n, t); rx.resize(n, nv); if (val(t) != nv) mc::fail(std::string(g_type) + ":resize(value):argument changed"); break; }
				case 6: if (rx.empty()) return; arg(MAXN); log("resize(front)"); { int f = rx.front(); x->resize(n, x->front()); rx.resize(n, f); } break;
				case 7: arg(MAXN + 1); log("reserve"); x->reserve(n); if (x->capacity() < n) mc::fail(std::string(g_type) + ":reserve:capacity"); break;
				case 8: log("shrink_to_fit"); x->shrink_to_fit(); break;
				case 9: { arg(MAXN); log("assign(n)"); T t = make<T>(nv); x->assign(n, t); rx.assign(n, nv); break; }
				case 10: if (rx.empty()) return; arg(MAXN); log("assign(n,back)"); { int f = rx.back(); x->assign(n, x->back()); rx.assign(n, f); } break;
				case 11: { arg(5); log("assign(list)"); using L = std::initializer_list<T>; T e[4] = { make<T>(1), make<T>(2), make<T>(3), make<T>(4) };
					if (n == 0) x->assign(L{}); else if (n == 1) x->assign(L{ e[0] }); else if (n == 2) x->assign(L{ e[0], e[1] }); else if (n == 3) x->assign(L{ e[0], e[1], e[2] }); else x->assign(L{ e[0], e[1], e[2], e[3] });
					rx.clear(); for (unsigned i = 0; i < n; ++i) rx.push_back(int(i + 1)); break; }
				case 12: log("clear"); x->clear(); rx.clear(); break;
				case 13: log("copy-assign"); *x = *y; rx = ry; break;
				case 14: log("self-copy-assign"); { auto& z = *x; *x = z; } break;
				case 15: log("move-assign"); *x = std::move(*y); rx = ry; ry.assign(y->size(), 0); if (y->size()) mc::fail(std::string(g_type) + ":move-assign:source not empty", history()); break;
				case 16: log("self-move-assign"); { auto& z = *x; *x = std::move(z); } if (x->size() != rx.size()) { if (x->size()) mc::fail(std::string(g_type) + ":self-move-assign", history()); rx.clear(); } break;
				case 17: log("copy-construct"); x = std::make_unique<V>(*y); rx = ry; al[who] = 0; break;
				case 18: { log("move-construct"); x = std::make_unique<V>(std::move(*y)); rx = ry; ry.clear(); al[who] = al[1 - who]; break; }
				case 19: arg(MAXN); log("construct(n)"); x = std::make_unique<V>(size_t(n), alloc(int(who))); rx.assign(n, 0); al[who] = int(who) + 1; break;
				case 20: { arg(MAXN); log("construct(n,value)"); T t = make<T>(nv); x = std::make_unique<V>(size_t(n), t, alloc(int(who))); rx.assign(n, nv); al[who] = int(who) + 1; break; }
				case 21: if (rx.empty()) return; log("element-assign"); (*x)[rx.size() - 1] = make<T>(nv == 4 ? 1 : nv + 1); rx.back() = nv == 4 ? 1 : nv + 1; break;
			}
			if (!compare(name)) { for (auto& p : v) p.release(); return; } // do not destroy a broken vector
		}
	}
	(void)skip;
	if (!g_broken.empty()) mc::fail(std::string(g_type) + ":destructor:lifetime", g_broken + " after " + history());
	else if (!g_alive.empty()) mc::fail(std::string(g_type) + ":destructor:leaked-elements", history());
	for (auto& p : g_pool) if (!p.blocks.empty()) mc::fail(std::string(g_type) + ":destructor:leaked-memory", history());
}
template <typename T, size_t N, typename A> static void go(const char* n) {
	g_type = n; size_t before = mc::liveBytes(); (void)before; run<T, N, A, true>();
}
static void model() {
	switch (mc::choose(10)) {
		case 0: go<Tracked, 1, PoolAlloc<Tracked>>("tracked1"); break;
		case 1: go<Tracked, 2, PoolAlloc<Tracked>>("tracked2"); break;
		case 2: go<Tracked, 3, PoolAlloc<Tracked>>("tracked3"); break;
		case 3: go<CopyOnly, 2, PoolAlloc<CopyOnly>>("copyonly2"); break;
		case 4: go<MoveThrows, 2, PoolAlloc<MoveThrows>>("movethrows2"); break;
		case 5: go<int, 2, PoolAlloc<int>>("int2"); break;
		case 6: go<int, 3, std::pmr::polymorphic_allocator<int>>("pmr-int3"); break;
		case 7: go<std::string, 2, PoolAlloc<std::string>>("string2"); break;
		case 8: go<Wide, 1, PoolAlloc<Wide>>("wide1"); break;
		case 9: go<int, 8, std::allocator<int>>("int8"); break;
	}
}
MC_MAIN(model)

// An element type which tracks its own life time.
#pragma once
#include "mc.hpp"
struct Alive { // a small set of addresses
	const void* a[256]; unsigned n = 0;
	bool count(const void* p) const { for (unsigned i = 0; i < n; ++i) if (a[i] == p) return true; return false; }
	bool insert(const void* p) { if (count(p)) return false; if (n == 256) mc::die("too many elements"); a[n++] = p; return true; }
	bool erase(const void* p) { for (unsigned i = n; i-- > 0;) if (a[i] == p) { a[i] = a[--n]; return true; } return false; }
	void clear() { n = 0; } unsigned size() const { return n; } bool empty() const { return n == 0; }
};
static Alive g_alive; static std::string g_broken;
static void broken(const char* w) { if (g_broken.empty()) g_broken = w; }
struct Tracked { // owns heap memory, knows whether it exists
	int* p;
	explicit Tracked(int v) : p(new int(v)) { born(); }
	Tracked() : Tracked(0) {}
	Tracked(const Tracked& o) : p(new int(o.get())) { born(); }
	Tracked(Tracked&& o) noexcept : p(new int(o.get())) { *o.p = -1; born(); }
	Tracked& operator=(const Tracked& o) { chk("assignment to an element which does not exist"); int v = o.get(); if (g_alive.count(this)) *p = v; return *this; }
	Tracked& operator=(Tracked&& o) noexcept { chk("assignment to an element which does not exist"); int v = o.get(); if (g_alive.count(this)) *p = v; if (&o != this && g_alive.count(&o)) *o.p = -1; return *this; }
	~Tracked() { if (!g_alive.erase(this)) broken("destruction of an element which does not exist"); else delete p; }
	void born() { if (!g_alive.insert(this)) broken("construction over an existing element"); }
	void chk(const char* w) const { if (!g_alive.count(this)) broken(w); }
	int get() const { if (!g_alive.count(this)) { broken("read of an element which does not exist"); return -2; } return *p; }
};

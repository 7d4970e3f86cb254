#include "sched.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <sys/mman.h>
#include <execinfo.h>
extern "C" char __data_start, _end;
namespace {
using namespace sched;
struct Clock { uint32_t c[MAXT] = {}; void join(const Clock& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Thread { sem_t sem; pthread_t id; bool done = false, blocked = false; const void* waits = nullptr; Clock clock; uintptr_t lo = 0, hi = 0; };
Thread* T; Plan plan; Report* rep; int cur = -1; bool running = false; uint32_t point = 0; int nextPre = 0; void (*bodyFn)(int);
__thread int tid = -1; __thread int inside = 0;
struct Guard { Guard() { ++inside; } ~Guard() { --inside; } };
inline bool active() { return running && tid >= 0 && inside == 0; }

// --- shadow memory: open addressing, key = 8 byte granule (heap) or byte (static data) ---------------------------
struct Cell { uintptr_t key; uint32_t gen; int8_t writer; uint32_t wclk; uint32_t rclk[MAXT]; void* wpc; void* rpc[MAXT]; };
const size_t CELLS = 1u << 18; Cell* cells;
Cell* cell(uintptr_t key, bool make) { size_t h = (((key >> 6) * 0x9E3779B97F4A7C15ull) >> 52 << 6) + (key & 63); for (size_t i = 0; i < CELLS; ++i) { Cell& c = cells[(h + i) & (CELLS - 1)]; if (c.key == key) return &c; if (!c.key) { if (!make) return nullptr; c.key = key; c.writer = -1; return &c; } } return nullptr; }
void reset(Cell& c) { c.writer = -1; c.wclk = 0; for (int i = 0; i < MAXT; ++i) c.rclk[i] = 0; }
void fatal(const char* w) { if (rep && !rep->error[0]) { strncpy(rep->error, w, sizeof rep->error - 1); } _exit(70); }
inline bool isStatic(uintptr_t a) { return a >= uintptr_t(&__data_start) && a < uintptr_t(&_end); }

// --- scheduling --------------------------------------------------------------------------------------------------
void transfer(int to) { int me = tid; ++rep->switches; cur = to; sem_post(&T[to].sem); if (me >= 0 && !T[me].done) { while (sem_wait(&T[me].sem) != 0) {} } }
int runnable(int k) { // the k-th runnable thread other than the current one, in the order of the plan
	for (int i = 1; i <= plan.threads; ++i) { int t = plan.descending ? (tid - i + 2 * plan.threads) % plan.threads : (tid + i) % plan.threads; if (t != tid && !T[t].done && !T[t].blocked && k-- == 0) return t; } return -1; }
void schedulePoint() { uint32_t p = point++; rep->points = point; if (point > 2000000) fatal("no end"); if (nextPre < plan.n && plan.at[nextPre] == p) { int t = runnable(plan.to[nextPre]); ++nextPre; if (t >= 0) transfer(t); } }
void blockOn(const void* w) { T[tid].blocked = true; T[tid].waits = w; int t = runnable(0); if (t < 0) fatal("deadlock"); transfer(t); }
void wake(const void* w) { for (int i = 0; i < plan.threads; ++i) if (T[i].blocked && T[i].waits == w) T[i].blocked = false; }

void where(char* out, size_t n, void* pc) { Dl_info i; if (dladdr(pc, &i) && i.dli_sname) snprintf(out, n, "%s+%#zx", i.dli_sname, size_t(static_cast<char*>(pc) - static_cast<char*>(i.dli_saddr))); else snprintf(out, n, "%#zx", size_t(static_cast<char*>(pc) - static_cast<char*>(i.dli_fbase))); }
void race(uintptr_t a, const char* x, void* p, int t, const char* y, void* q) { if (rep->race[0]) return; char f[200], g[200]; where(f, sizeof f, p); where(g, sizeof g, q); snprintf(rep->race, sizeof rep->race, "%s memory: %s by thread %d in %s and %s by thread %d in %s", isStatic(a) ? "static" : "dynamic", x, t, f, y, tid, g); }
void touch(uintptr_t key, uintptr_t a, bool write, void* pc) {
	Cell* c = cell(key, true); if (!c) fatal("shadow memory full"); auto& me = T[tid].clock;
	if (c->writer >= 0 && c->writer != tid && c->wclk > me.c[c->writer]) race(a, "write", c->wpc, c->writer, write ? "write" : "read", pc);
	if (write) { for (int i = 0; i < plan.threads; ++i) if (i != tid && c->rclk[i] > me.c[i]) race(a, "read", c->rpc[i], i, "write", pc); c->writer = int8_t(tid); c->wclk = me.c[tid]; c->wpc = pc; }
	else { c->rclk[tid] = me.c[tid]; c->rpc[tid] = pc; }
}
void memset_(uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) { p[i] = 1; asm volatile("" : : : "memory"); } }
bool anySet(const uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) if (p[i]) return true; return false; }
void access(const volatile void* p, size_t n, bool write, void* pc) {
	if (!active() || !n) return; Guard g; auto a = reinterpret_cast<uintptr_t>(p); if (a >= T[tid].lo && a < T[tid].hi) return; ++rep->accesses;
	if (isStatic(a)) { size_t o = a - uintptr_t(&__data_start); if (write && plan.written) memset_(plan.written + o, n); if (!plan.points || anySet(plan.points + o, n)) schedulePoint(); for (size_t i = 0; i < n; ++i) touch((a + i) * 2 + 1, a, write, pc); }
	else for (uintptr_t k = a >> 3; k <= (a + n - 1) >> 3; ++k) touch(k * 2, a, write, pc);
}
void forget(void* p) { if (!running || tid < 0) return; Guard g; auto a = reinterpret_cast<uintptr_t>(p); size_t n = malloc_usable_size(p); if (n > (1u << 22)) return; for (uintptr_t k = a >> 3; k <= (a + n) >> 3; ++k) if (Cell* c = cell(k * 2, false)) reset(*c); }
// synchronisation objects: the clock released last
struct Sync { const void* key; Clock clock; int state; int owner; }; Sync syncs[4096];
Sync& sync(const void* k) { size_t h = (reinterpret_cast<uintptr_t>(k) * 0x9E3779B97F4A7C15ull) >> 52; for (size_t i = 0; i < 4096; ++i) { Sync& s = syncs[(h + i) & 4095]; if (s.key == k) return s; if (!s.key) { s.key = k; s.owner = -1; return s; } } fatal("too many synchronisation objects"); return syncs[0]; }
void acquire(Sync& s) { T[tid].clock.join(s.clock); }
void release(Sync& s) { s.clock.join(T[tid].clock); ++T[tid].clock.c[tid]; }
void* main_(void* arg) {
	int i = int(reinterpret_cast<intptr_t>(arg)); { Guard g; tid = i; pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void* lo; size_t n; pthread_attr_getstack(&at, &lo, &n); pthread_attr_destroy(&at); T[i].lo = reinterpret_cast<uintptr_t>(lo); T[i].hi = T[i].lo + n; while (sem_wait(&T[i].sem) != 0) {} }
	bodyFn(i);
	++inside; T[i].done = true; ++rep->finished; int t = runnable(0); if (t >= 0) transfer(t); else { for (int k = 0; k < plan.threads; ++k) if (!T[k].done) fatal("deadlock at the end"); } tid = -1; --inside; return nullptr;
}
}
namespace sched {
size_t staticSize() { return size_t(&_end - &__data_start); }
void execute(const Plan& p, void (*body)(int), Report* r) {
	plan = p; rep = r; bodyFn = body; cells = static_cast<Cell*>(mmap(nullptr, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); T = new Thread[MAXT];
	for (int i = 0; i < plan.threads; ++i) { sem_init(&T[i].sem, 0, 0); T[i].clock.c[i] = 1; }
	for (int i = 0; i < plan.threads; ++i) { pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20); if (pthread_create(&T[i].id, &at, main_, reinterpret_cast<void*>(intptr_t(i))) != 0) fatal("pthread_create"); pthread_attr_destroy(&at); }
	running = true; cur = plan.start; sem_post(&T[plan.start].sem); for (int i = 0; i < plan.threads; ++i) pthread_join(T[i].id, nullptr); running = false;
}
}
// --- the callbacks of the instrumentation --------------------------------------------------------------------------
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false, PC); } void __tsan_write##n(void* p) { access(p, n, true, PC); } void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); } void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); } void __tsan_read_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); else access(p, 8, false, PC); } void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); } void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
// atomics: a scheduling point, acquire and release as the order says
#define ATOMIC_BEGIN bool on = active(); Sync* s = nullptr; if (on) { ++inside; schedulePoint(); s = &sync((const void*)p); ++rep->accesses; }
#define ATOMIC_ACQ(mo) if (on && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) acquire(*s);
#define ATOMIC_REL(mo) if (on && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) release(*s);
#define ATOMIC_END if (on) --inside;
#define AT(bits, type) \
	type __tsan_atomic##bits##_load(const volatile type* p, int mo) { ATOMIC_BEGIN type v = __atomic_load_n(p, __ATOMIC_SEQ_CST); ATOMIC_ACQ(mo) ATOMIC_END return v; } \
	void __tsan_atomic##bits##_store(volatile type* p, type v, int mo) { ATOMIC_BEGIN ATOMIC_REL(mo) __atomic_store_n(p, v, __ATOMIC_SEQ_CST); ATOMIC_END } \
	type __tsan_atomic##bits##_exchange(volatile type* p, type v, int mo) { ATOMIC_BEGIN ATOMIC_ACQ(mo) ATOMIC_REL(mo) v = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); ATOMIC_END return v; } \
	type __tsan_atomic##bits##_fetch_add(volatile type* p, type v, int mo) { ATOMIC_BEGIN ATOMIC_ACQ(mo) ATOMIC_REL(mo) v = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); ATOMIC_END return v; } \
	type __tsan_atomic##bits##_fetch_sub(volatile type* p, type v, int mo) { ATOMIC_BEGIN ATOMIC_ACQ(mo) ATOMIC_REL(mo) v = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); ATOMIC_END return v; } \
	type __tsan_atomic##bits##_fetch_and(volatile type* p, type v, int mo) { ATOMIC_BEGIN ATOMIC_ACQ(mo) ATOMIC_REL(mo) v = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); ATOMIC_END return v; } \
	type __tsan_atomic##bits##_fetch_or(volatile type* p, type v, int mo) { ATOMIC_BEGIN ATOMIC_ACQ(mo) ATOMIC_REL(mo) v = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); ATOMIC_END return v; } \
	type __tsan_atomic##bits##_fetch_xor(volatile type* p, type v, int mo) { ATOMIC_BEGIN ATOMIC_ACQ(mo) ATOMIC_REL(mo) v = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); ATOMIC_END return v; } \
	bool __tsan_atomic##bits##_compare_exchange_strong(volatile type* p, type* e, type v, int mo, int) { ATOMIC_BEGIN ATOMIC_ACQ(mo) ATOMIC_REL(mo) bool r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); ATOMIC_END return r; } \
	bool __tsan_atomic##bits##_compare_exchange_weak(volatile type* p, type* e, type v, int mo, int) { ATOMIC_BEGIN ATOMIC_ACQ(mo) ATOMIC_REL(mo) bool r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); ATOMIC_END return r; } \
	type __tsan_atomic##bits##_compare_exchange_val(volatile type* p, type e, type v, int mo, int) { ATOMIC_BEGIN ATOMIC_ACQ(mo) ATOMIC_REL(mo) __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); ATOMIC_END return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (active()) { Guard g; Sync& s = sync(&__data_start); acquire(s); release(s); } } void __tsan_atomic_signal_fence(int) {}
// memory functions called by the instrumented code and by the standard library
static void copy(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
void* memcpy(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); copy(d, s, n); return d; }
void* memmove(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); auto a = static_cast<char*>(d); auto b = static_cast<const char*>(s); if (a <= b || a >= b + n) copy(d, s, n); else while (n--) { a[n] = b[n]; asm volatile("" : : : "memory"); } return d; }
void* memset(void* d, int c, size_t n) { access(d, n, true, PC); void* p = d; asm volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(c) : "memory"); return d; }
int memcmp(const void* x, const void* y, size_t n) { access(x, n, false, PC); access(y, n, false, PC); auto a = static_cast<const unsigned char*>(x), b = static_cast<const unsigned char*>(y); for (size_t i = 0; i < n; ++i) { asm volatile("" : : : "memory"); if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; } return 0; }
// locks and one-time initialisation
int pthread_mutex_lock(pthread_mutex_t* m) {
	if (!active()) { static auto real = reinterpret_cast<int (*)(pthread_mutex_t*)>(dlsym(RTLD_NEXT, "pthread_mutex_lock")); return inside || tid < 0 || !running ? real(m) : 0; }
	Guard g; schedulePoint(); Sync& s = sync(m); bool recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; while (s.owner >= 0 && !(recursive && s.owner == tid)) blockOn(m); s.owner = tid; ++s.state; acquire(s); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!active()) { static auto real = reinterpret_cast<int (*)(pthread_mutex_t*)>(dlsym(RTLD_NEXT, "pthread_mutex_trylock")); return real(m); } Guard g; schedulePoint(); Sync& s = sync(m); if (s.owner >= 0) return EBUSY; s.owner = tid; ++s.state; acquire(s); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) {
	if (!active()) { static auto real = reinterpret_cast<int (*)(pthread_mutex_t*)>(dlsym(RTLD_NEXT, "pthread_mutex_unlock")); return real(m); }
	Guard g; Sync& s = sync(m); release(s); if (--s.state == 0) { s.owner = -1; wake(m); } schedulePoint(); return 0;
}
int pthread_once(pthread_once_t* c, void (*f)()) {
	if (!active()) { if (*reinterpret_cast<volatile int*>(c) == 0) { *c = 2; f(); } return 0; }
	Sync* s; { Guard g; schedulePoint(); s = &sync(c); while (s->state == 1) blockOn(c); if (s->state == 2 || *c == 2) { acquire(*s); return 0; } s->state = 1; }
	try { f(); } catch (...) { Guard g; s->state = 0; wake(c); throw; }
	Guard g; *c = 2; s->state = 2; release(*s); wake(c); schedulePoint(); return 0;
}
int __cxa_guard_acquire(long long* p) {
	auto done = reinterpret_cast<volatile uint8_t*>(p); if (!active()) { return *done ? 0 : 1; }
	Guard g; schedulePoint(); Sync& s = sync(p); while (s.state == 1) blockOn(p); if (*done) { acquire(s); return 0; } s.state = 1; return 1;
}
void __cxa_guard_release(long long* p) { *reinterpret_cast<volatile uint8_t*>(p) = 1; if (!active()) return; Guard g; Sync& s = sync(p); s.state = 0; release(s); wake(p); schedulePoint(); }
void __cxa_guard_abort(long long* p) { if (!active()) return; Guard g; Sync& s = sync(p); s.state = 0; wake(p); schedulePoint(); }
}
extern "C" {
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t);
void* malloc(size_t n) noexcept { void* p = __libc_malloc(n); if (p) forget(p); return p; }
void* calloc(size_t k, size_t n) noexcept { void* p = __libc_calloc(k, n); if (p) forget(p); return p; }
void* realloc(void* o, size_t n) noexcept { void* p = __libc_realloc(o, n); if (p) forget(p); return p; }
}
static void* allocate(size_t n, size_t al) { void* p = al <= 16 ? malloc(n ? n : 1) : aligned_alloc(al, (n + al - 1) / al * al); if (p && al > 16) forget(p); return p; }
void* operator new(size_t n) { void* p = allocate(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return allocate(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return allocate(n, 0); }
void* operator new(size_t n, std::align_val_t a) { void* p = allocate(n, size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return allocate(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return allocate(n, size_t(a)); }
void operator delete(void* p) noexcept { free(p); } void operator delete[](void* p) noexcept { free(p); } void operator delete(void* p, size_t) noexcept { free(p); } void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); } void operator delete[](void* p, std::align_val_t) noexcept { free(p); } void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); } void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); } void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); } void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); } void operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept { free(p); } void operator delete[](void* p, std::align_val_t, const std::nothrow_t&) noexcept { free(p); }

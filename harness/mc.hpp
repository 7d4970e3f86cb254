// Stateless explicit-state model checker for the real implementation.
//
// A harness is a function `void model()` that performs ONE execution of the code under test in lockstep with a
// reference model. Every source of nondeterminism (operation, argument, environment answer, fault, schedule) is
// drawn from mc::choose(n). The explorer enumerates *every* choice sequence depth first by re-execution; there is
// no sampling. Executions are partitioned over worker processes, so that a crash, a sanitizer report or a hang is
// attributed to the exact choice sequence which was being executed (kept in shared memory), reported as a violation
// and the exploration continues behind it.
#pragma once
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace mc {

constexpr unsigned MAXDEPTH = 512;

struct Shared {
	volatile uint64_t heartbeat, execs, transitions, skipped, nontrivial;
	volatile uint32_t depth;          // choices made so far by the running execution
	volatile uint32_t inExec;
	volatile uint32_t done, capped;
	uint16_t ch[MAXDEPTH], n[MAXDEPTH];
	char ctx[512];                    // call site / input name, set by the harness; prefixes a crash key
	volatile uint64_t states, outcomes;
};

struct Violation { std::string key, detail, trace; };

inline Shared* g_sh = nullptr;
inline std::vector<std::pair<uint16_t, uint16_t>> g_path;   // (chosen, n)
inline size_t g_pos = 0;
inline unsigned g_shard = 0, g_shards = 1;
inline bool g_replay = false, g_thorough = false;
inline std::string g_notes;
inline std::unordered_set<uint64_t> g_states, g_outcomes;
inline std::set<std::string> g_keys;
inline std::vector<std::string> g_samples;
inline bool g_wantSample = false, g_mineCalled = false, g_isMine = true, g_failed = false;
inline FILE* g_vio = nullptr;

inline bool thorough() { return g_thorough; }

[[noreturn]] inline void die(const char* msg) { fprintf(stderr, "MC-ERROR: %s\n", msg); fflush(stderr); _exit(77); }

inline uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
	auto b = static_cast<const unsigned char*>(p);
	for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
	h ^= h >> 29; return h;
}
inline uint64_t hash(std::string_view s) { return hash(s.data(), s.size()); }

inline unsigned choose(unsigned n, const char* = "") {
	if (n == 0) die("choose(0)");
	if (g_pos >= MAXDEPTH) die("choice depth exceeded");
	unsigned v;
	if (g_pos < g_path.size()) {
		if (g_path[g_pos].second != n) die("nondeterminism: a replayed prefix offers a different number of choices");
		v = g_path[g_pos].first;
	} else {
		if (g_replay) { /* beyond the recorded trace: default */ }
		g_path.emplace_back(0, static_cast<uint16_t>(n));
		v = 0;
	}
	if (n > 65535) die("choose(n) too wide");
	g_sh->ch[g_pos] = static_cast<uint16_t>(v); g_sh->n[g_pos] = static_cast<uint16_t>(n);
	++g_pos;
	g_sh->depth = static_cast<uint32_t>(g_pos);
	return v;
}
inline bool flip(const char* l = "") { return choose(2, l) != 0; }
template <typename T, size_t N> const T& pick(const T (&a)[N]) { return a[choose(N)]; }
template <typename T> const T& pick(const std::vector<T>& a) { return a[choose(static_cast<unsigned>(a.size()))]; }

// Partition: called once per execution, after the choices which identify the case. False = another worker's case.
inline bool mine() {
	if (g_replay || g_mineCalled) return g_isMine;
	g_mineCalled = true;
	uint64_t h = 88172645463325252ull;
	for (size_t i = 0; i < g_pos; ++i) { h = h * 6364136223846793005ull + g_path[i].first + 1442695040888963407ull; h ^= h >> 31; }
	g_isMine = (h >> 17) % g_shards == g_shard;
	return g_isMine;
}
// Partition by state instead of by path: equal states go to the same worker.
inline bool mineState(uint64_t h) {
	if (g_replay || g_mineCalled) return g_isMine;
	g_mineCalled = true;
	g_isMine = (h * 0x9E3779B97F4A7C15ull >> 40) % g_shards == g_shard;
	return g_isMine;
}
inline void step(uint64_t n = 1) { g_sh->transitions = g_sh->transitions + n; g_sh->heartbeat = g_sh->heartbeat + 1; }
inline bool state(uint64_t h) { return g_states.insert(h).second; }
// Explicit-state pruning. True if this state was already expanded (by this worker) with at least as many steps left, so
// everything reachable below it has been or is being explored. `h` must determine all future behaviour. Call after mine().
inline bool prune(uint64_t h, unsigned left) {
	static std::unordered_map<uint64_t, unsigned> seen;
	g_states.insert(h);
	if (g_replay || g_pos < g_path.size()) return false; // on the way to the frontier
	auto [it, fresh] = seen.try_emplace(h, left);
	if (fresh) return false;
	if (it->second >= left) return true;
	it->second = left; return false;
}
inline void outcome(uint64_t h) { g_outcomes.insert(h); }
inline void nontrivial() { g_sh->nontrivial = g_sh->nontrivial + 1; }

inline void context(std::string_view s) {
	size_t n = std::min(s.size(), sizeof(g_sh->ctx) - 1);
	memcpy(g_sh->ctx, s.data(), n); g_sh->ctx[n] = 0;
}
inline void note(const char* fmt, ...) {
	if (!g_replay && !g_wantSample) return;
	char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (g_replay) { fprintf(stderr, "NOTE %s\n", b); fflush(stderr); }
	g_notes += b; g_notes += '\n';
}

inline std::string esc(std::string_view s) {
	std::string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
		else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += char(c);
	}
	return r;
}
inline std::string traceString(const uint16_t* ch, const uint16_t* n, size_t d) {
	std::string r;
	for (size_t i = 0; i < d; ++i) { if (i) r += ','; r += std::to_string(ch[i]) + "/" + std::to_string(n[i]); }
	return r;
}
inline void emit(const std::string& key, const std::string& detail, const std::string& trace) {
	fprintf(g_vio, "{\"key\":\"%s\",\"detail\":\"%s\",\"trace\":\"%s\"}\n", esc(key).c_str(), esc(detail).c_str(), trace.c_str());
	fflush(g_vio);
}
// Records a violation of the property. `key` identifies what fails (stable across runs).
inline void fail(const std::string& key, const std::string& detail = "") {
	g_failed = true;
	if (g_replay) { fprintf(stderr, "FAIL %s\nDETAIL %s\n", key.c_str(), detail.c_str()); fflush(stderr); }
	if (g_keys.size() < 400 && g_keys.insert(key).second)
		emit(key, detail.substr(0, 3000), traceString(g_sh->ch, g_sh->n, g_pos));
}
inline std::string fmt(const char* f, ...) {
	char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

inline size_t liveBytes() {
#if defined(__SANITIZE_ADDRESS__)
	return __sanitizer_get_current_allocated_bytes();
#else
	return 0;
#endif
}

struct Options { std::string out, work = "."; unsigned shards = 8; double deadline = 600; unsigned hang = 60; };

inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

inline void runOne(void (*model)()) {
	g_pos = 0; g_sh->depth = 0; g_sh->ctx[0] = 0; g_mineCalled = false; g_isMine = true; g_failed = false; g_notes.clear();
	g_sh->inExec = 1;
	try { model(); }
	catch (const std::exception& e) { fail(std::string(g_sh->ctx) + ":escaped-exception", e.what()); }
	catch (...) { fail(std::string(g_sh->ctx) + ":escaped-exception", "?"); }
	g_sh->inExec = 0;
	g_sh->heartbeat = g_sh->heartbeat + 1;
	if (g_isMine) g_sh->execs = g_sh->execs + 1; else g_sh->skipped = g_sh->skipped + 1;
}
inline bool advance() {
	while (!g_path.empty() && g_path.back().first + 1u >= g_path.back().second) g_path.pop_back();
	if (g_path.empty()) return false;
	++g_path.back().first;
	return true;
}

inline void worker(void (*model)(), const Options& o, unsigned shard, std::vector<std::pair<uint16_t, uint16_t>> start, double t0) {
	g_shard = shard; g_path = std::move(start);
	std::string base = o.work + "/shard" + std::to_string(shard);
	g_vio = fopen((base + ".vio").c_str(), "a");
	int fd = open((base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
	uint64_t k = 0;
	for (;;) {
		g_wantSample = g_samples.size() < 3 && (k == 0 || g_sh->execs == 17 || g_sh->execs == 1000);
		runOne(model);
		if (g_wantSample && g_isMine && !g_notes.empty()) g_samples.push_back(g_notes);
		++k;
		g_path.resize(g_pos);   // choices beyond the point where this execution ended do not exist
		if (!advance()) break;
		if ((k & 63) == 0 && now() - t0 > o.deadline) { g_sh->capped = 1; break; }
	}
	FILE* f = fopen((base + ".states").c_str(), "ab");
	for (auto h : g_states) fwrite(&h, 8, 1, f);
	fclose(f);
	f = fopen((base + ".outcomes").c_str(), "ab");
	for (auto h : g_outcomes) fwrite(&h, 8, 1, f);
	fclose(f);
	f = fopen((base + ".samples").c_str(), "a");
	for (auto& s : g_samples) fprintf(f, "%s\n", esc(s).c_str());
	fclose(f);
	g_sh->done = 1;
	_exit(0);
}

inline size_t distinct(const std::string& work, unsigned shards, const char* ext) {
	std::vector<uint64_t> v;
	for (unsigned i = 0; i < shards; ++i) {
		std::ifstream f(work + "/shard" + std::to_string(i) + ext, std::ios::binary);
		uint64_t h; while (f.read(reinterpret_cast<char*>(&h), 8)) v.push_back(h);
	}
	std::sort(v.begin(), v.end());
	return static_cast<size_t>(std::unique(v.begin(), v.end()) - v.begin());
}

// A stable name for a crash: kind of report + the first frame inside the library.
inline std::string crashKey(const std::string& err, int status, std::string ctx) {
	std::string kind = WIFSIGNALED(status) ? "signal" + std::to_string(WTERMSIG(status)) : "exit" + std::to_string(WEXITSTATUS(status));
	size_t p;
	if ((p = err.find("AddressSanitizer: ")) != std::string::npos) { kind = err.substr(p + 18, err.find_first_of(" \n", p + 18) - p - 18); }
	if ((p = err.find("runtime error: ")) != std::string::npos) { kind = "ub:"; for (size_t i = p + 15; i < err.size() && err[i] != '\n' && kind.size() < 50; ++i) { if (isalpha(static_cast<unsigned char>(err[i])) && !isdigit(static_cast<unsigned char>(err[i - 1]))) kind += err[i]; else if (kind.back() != '-') kind += '-'; } }
	if (err.find("terminate called") != std::string::npos) kind = "terminate";
	if (err.find("Assertion '") != std::string::npos) kind = "assertion";
	std::string fn;
	std::istringstream is(err); std::string l;
	while (std::getline(is, l)) {
		auto q = l.find("    #"); if (q == std::string::npos) continue;
		auto in = l.find(" in "); if (in == std::string::npos) continue;
		std::string f = l.substr(in + 4);
		if (f.find("fastgltf::") != std::string::npos || f.find("/repo/") != std::string::npos) {
			std::string g; int depth = 0;
			for (char c : f) { if (c == '<') ++depth; else if (c == '>') { if (depth) --depth; } else if (c == '(' || (c == ' ' && !depth)) break; else if (!depth) g += c; }
			fn = g; break;
		}
	}
	return (ctx.empty() ? std::string() : ctx + ":") + kind + (fn.empty() ? "" : ":" + fn);
}
inline std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }

inline std::vector<std::pair<uint16_t, uint16_t>> parseTrace(const std::string& s) {
	std::vector<std::pair<uint16_t, uint16_t>> r; std::istringstream is(s); std::string t;
	while (std::getline(is, t, ',')) if (!t.empty()) { unsigned a = 0, b = 0; if (sscanf(t.c_str(), "%u/%u", &a, &b) == 2) r.emplace_back(a, b); }
	return r;
}

inline Shared* mapShared() {
	void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(77); }
	return new (p) Shared();
}

inline int run(int argc, char** argv, void (*model)()) {
	Options o; std::string replay; bool doReplay = false;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i]; auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--out") o.out = next(); else if (a == "--work") o.work = next();
		else if (a == "--shards") o.shards = unsigned(atoi(next().c_str()));
		else if (a == "--deadline") o.deadline = atof(next().c_str());
		else if (a == "--hang") o.hang = unsigned(atoi(next().c_str()));
		else if (a == "--tier") g_thorough = next() == "thorough";
		else if (a == "--replay") { replay = next(); doReplay = true; }
	}
	setvbuf(stdout, nullptr, _IOLBF, 0);
	if (doReplay) {
		g_sh = mapShared(); g_replay = true; g_vio = fopen("/dev/null", "w"); g_path = parseTrace(replay);
		runOne(model);
		return g_failed ? 1 : 0;
	}
	g_shards = o.shards;
	double t0 = now();
	struct W { Shared* sh; pid_t pid; uint64_t hb; double hbT; unsigned crashes; bool fin; std::set<std::string> crashKeys; };
	std::vector<W> ws(o.shards);
	auto vioName = [&](unsigned i) { return o.work + "/shard" + std::to_string(i) + ".vio"; };
	auto start = [&](unsigned i, std::vector<std::pair<uint16_t, uint16_t>> p) {
		ws[i].sh->depth = 0; ws[i].sh->inExec = 0;
		fflush(nullptr);
		pid_t pid = fork();
		if (pid == 0) { g_sh = ws[i].sh; worker(model, o, i, std::move(p), t0); }
		ws[i].pid = pid; ws[i].hb = ws[i].sh->heartbeat; ws[i].hbT = now();
	};
	for (unsigned i = 0; i < o.shards; ++i) {
		for (const char* e : {".vio", ".err", ".states", ".outcomes", ".samples"}) unlink((o.work + "/shard" + std::to_string(i) + e).c_str());
		ws[i] = {}; ws[i].sh = mapShared(); start(i, {});
	}
	bool internal = false; unsigned left = o.shards;
	while (left) {
		int status; pid_t p = waitpid(-1, &status, WNOHANG);
		bool hung = false; unsigned idx = ~0u;
		if (p > 0) { for (unsigned i = 0; i < o.shards; ++i) if (ws[i].pid == p) idx = i; }
		else {
			for (unsigned i = 0; i < o.shards && idx == ~0u; ++i) {
				if (ws[i].fin) continue;
				if (ws[i].sh->heartbeat != ws[i].hb) { ws[i].hb = ws[i].sh->heartbeat; ws[i].hbT = now(); }
				else if (now() - ws[i].hbT > o.hang && ws[i].sh->inExec) { kill(ws[i].pid, SIGKILL); waitpid(ws[i].pid, &status, 0); hung = true; idx = i; }
			}
			if (idx == ~0u) { usleep(5000); continue; }
		}
		if (idx == ~0u) continue;
		auto& w = ws[idx];
		if (w.sh->done) { w.fin = true; --left; continue; }
		std::string err = slurp(o.work + "/shard" + std::to_string(idx) + ".err");
		if (!hung && WIFEXITED(status) && WEXITSTATUS(status) == 77) { fprintf(stderr, "%s\n", err.c_str()); internal = true; w.fin = true; --left; continue; }
		std::string key = hung ? std::string(w.sh->ctx) + ":hang" : crashKey(err, status, w.sh->ctx);
		std::string trace = traceString(w.sh->ch, w.sh->n, w.sh->depth);
		if (w.crashKeys.insert(key).second) {
			g_vio = fopen(vioName(idx).c_str(), "a");
			emit(key, err.substr(0, 2500), trace);
			fclose(g_vio);
		}
		w.sh->execs = w.sh->execs + 1;
		auto path = parseTrace(trace);
		g_path = path;
		if (++w.crashes >= 40 || !advance()) { w.sh->capped = w.crashes >= 40; w.fin = true; --left; continue; }
		start(idx, g_path);
	}
	uint64_t execs = 0, trans = 0, nt = 0; bool capped = false;
	std::string samples;
	for (unsigned i = 0; i < o.shards; ++i) {
		execs += ws[i].sh->execs; trans += ws[i].sh->transitions; nt += ws[i].sh->nontrivial; capped |= ws[i].sh->capped != 0;
		std::ifstream f(o.work + "/shard" + std::to_string(i) + ".samples"); std::string l;
		unsigned c = 0; while (std::getline(f, l) && c < (i == 0 ? 3u : 1u)) { ++c; samples += (samples.empty() ? "\"" : ",\"") + l + "\""; }
	}
	size_t states = distinct(o.work, o.shards, ".states"), outcomes = distinct(o.work, o.shards, ".outcomes");
	FILE* f = fopen(o.out.c_str(), "w");
	fprintf(f, "{\"executions\":%llu,\"transitions\":%llu,\"nontrivial\":%llu,\"states\":%zu,\"outcomes\":%zu,\"capped\":%s,\"internal\":%s,\"wall\":%.2f,\"samples\":[%s],\"violations\":[",
		(unsigned long long)execs, (unsigned long long)trans, (unsigned long long)nt, states, outcomes, capped ? "true" : "false", internal ? "true" : "false", now() - t0, samples.c_str());
	bool first = true;
	for (unsigned i = 0; i < o.shards; ++i) { std::ifstream v(vioName(i)); std::string l; while (std::getline(v, l)) { fprintf(f, "%s%s", first ? "" : ",\n", l.c_str()); first = false; } }
	fprintf(f, "]}\n"); fclose(f);
	return internal ? 3 : 0;
}

} // namespace mc

#define MC_MAIN(fn) int main(int argc, char** argv) { return mc::run(argc, argv, fn); }

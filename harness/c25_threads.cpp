// C25: threads. All schedules, up to a number of preemptions, of 2 and 3 threads which each run one of the jobs on the real code,
// every execution in a process of its own in which nothing of the library has been used before.
#include "mc.hpp"
#include "sched.hpp"
#include "docs.hpp"
#include "c25_jobs.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <filesystem>
#include <map>
static sched::Report* rep; static uint8_t *written, *points; static std::vector<std::string> alone; static std::vector<int> g_jobs; static int g_position; static std::string g_dir;
template <typename T> static T* sharedMemory(size_t n) { return static_cast<T*>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); }
static void body(int i) { auto r = jobs::run(g_jobs[i], i, g_dir + "/" + std::to_string(i)); if (r.size() > sizeof rep->result[i]) r.resize(sizeof rep->result[i]); memcpy(rep->result[i], r.data(), r.size()); rep->length[i] = uint32_t(r.size()); }
static void lonely(int) { auto r = jobs::run(g_jobs[0], g_position, g_dir + "/" + std::to_string(g_position)); memcpy(rep->result[0], r.data(), r.size()); rep->length[0] = uint32_t(r.size()); }
// Runs a plan in a child. Returns what went wrong with the child itself.
static std::string execute(const sched::Plan& p, void (*f)(int)) {
	rep->points = rep->accesses = rep->switches = rep->finished = 0; rep->race[0] = rep->error[0] = 0; for (auto& l : rep->length) l = 0;
	pid_t c = fork(); if (c < 0) mc::die("fork"); if (c == 0) { alarm(20); for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL }) signal(s, SIG_DFL); static const char* const D[] = { docs::CORE, docs::EXT, docs::PHYS }; jobs::prepare(D); sched::execute(p, f, rep); _exit(0); }
	int st; while (waitpid(c, &st, 0) < 0) {} mc::step(1 + rep->switches);
	if (WIFSIGNALED(st)) return mc::fmt("killed by signal %d", WTERMSIG(st)); if (rep->error[0]) return rep->error; if (WEXITSTATUS(st)) return mc::fmt("exit status %d", WEXITSTATUS(st)); if (rep->finished != uint32_t(p.threads)) return "a thread did not finish"; return "";
}
static std::string result(int i) { return std::string(rep->result[i], rep->length[i]); }
static void setUp() {
	char t[4096]; snprintf(t, sizeof t, "%s/c25-XXXXXX", getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp"); if (!mkdtemp(t)) mc::die("mkdtemp"); g_dir = t; static struct Clean { pid_t p = getpid(); ~Clean() { if (getpid() == p) { std::error_code e; std::filesystem::remove_all(g_dir, e); } } } clean;
	for (int i = 0; i < sched::MAXT; ++i) std::filesystem::create_directory(g_dir + "/" + std::to_string(i));
	rep = sharedMemory<sched::Report>(sizeof *rep); written = sharedMemory<uint8_t>(sched::staticSize()); points = sharedMemory<uint8_t>(sched::staticSize());
	for (int j = 0; j < jobs::count(); ++j) for (int i = 0; i < sched::MAXT; ++i) { g_jobs = { j }; g_position = i; sched::Plan p; p.threads = 1; p.written = written; auto e = execute(p, lonely); if (!e.empty()) { alone.push_back("!" + e); mc::context(jobs::name(j)); } else alone.push_back(result(0));
		if (getenv("C25_VERBOSE")) fprintf(stderr, "%s: %u points, %u accesses, %u bytes %s %s\n", jobs::name(j), rep->points, rep->accesses, rep->length[0], e.c_str(), getenv("C25_VERBOSE")[0] == '2' ? result(0).c_str() : ""); }
	memcpy(points, written, sched::staticSize());
}
static void model() {
	static bool once = (setUp(), true); (void) once; static int failures; if (failures >= 8 && !mc::g_replay) return; // enough counterexamples; failing executions are slow
	bool three = mc::flip("three threads"); int n = jobs::count(); g_jobs.clear(); std::string what;
	if (!three) { int a = int(mc::choose(n)); g_jobs = { a, a + int(mc::choose(n - a)) }; } else { static const int C[][3] = { { 0, 0, 0 }, { 0, 1, 3 }, { 3, 4, 8 }, { 0, 2, 7 }, { 6, 8, 8 }, { 1, 5, 6 } }; auto& c = C[mc::choose(mc::thorough() ? 6 : 4)]; g_jobs = { c[0], c[1], c[2] }; }
	sched::Plan p; p.threads = int(g_jobs.size()); p.points = points; p.written = nullptr; p.start = int(mc::choose(unsigned(p.threads))); if (three) p.descending = mc::flip();
	for (int j : g_jobs) what += std::string(what.empty() ? "" : " | ") + jobs::name(j); what += mc::fmt("; thread %d first", p.start);
	static std::map<std::vector<uint32_t>, uint32_t> known; // points of the executions with these preemptions
	std::vector<uint32_t> id; for (int j : g_jobs) id.push_back(uint32_t(j)); id.push_back(uint32_t(p.start) * 2 + p.descending + 100);
	auto judge = [&](const std::string& e) {
		mc::context(what); std::string d = what; for (int i = 0; i < p.n; ++i) d += mc::fmt("; preempted at point %u", p.at[i]); mc::note("%s", d.c_str()); if (getenv("C25_VERBOSE")) fprintf(stderr, "%s: %u points %u accesses %u switches\n", d.c_str(), rep->points, rep->accesses, rep->switches); mc::state(mc::hash(d)); mc::outcome(mc::hash(mc::fmt("%u %u", rep->points, rep->switches))); if (p.n) mc::nontrivial();
		if (!e.empty() || rep->race[0]) ++failures; if (!e.empty()) return mc::fail("crash:" + e, d + ": " + e);
		if (rep->race[0]) { std::string r = rep->race, f = r.substr(0, r.find(':')); mc::fail("race:" + f, d + ": " + r); }
		for (int i = 0; i < p.threads; ++i) { auto& w = alone[size_t(g_jobs[size_t(i)]) * sched::MAXT + size_t(i)]; if (w[0] == '!') return mc::fail("crash:alone", std::string(jobs::name(g_jobs[size_t(i)])) + " alone: " + w); auto r = result(i); if (r != w) { size_t k = 0; while (k < r.size() && k < w.size() && r[k] == w[k]) ++k; size_t b = k < 30 ? 0 : k - 30; mc::fail(std::string("result:") + jobs::name(g_jobs[size_t(i)]), d + mc::fmt(": thread %d differs at %zu: ", i, k) + r.substr(b, 80) + " instead of " + w.substr(b, 80)); } }
	};
	bool big = false; for (int j : g_jobs) big |= jobs::heavy(j); int bound = 2 - (three || big) + mc::thorough();
	for (;;) {
		bool leaf = p.n == bound; uint32_t total = 0;
		if (!leaf) { auto it = known.find(id); if (it == known.end()) { execute(p, body); it = known.emplace(id, rep->points).first; } total = it->second; }
		uint32_t from = p.n ? p.at[p.n - 1] + 1 : 0; uint32_t k = leaf ? 0 : mc::choose(total > from ? total - from + 1 : 1); // 0: no further preemption
		if (k == 0) { if (!mc::mine()) return; judge(execute(p, body)); return; }
		p.at[p.n] = from + k - 1; p.to[p.n] = three ? uint8_t(mc::choose(2)) : 0; ++p.n; id.push_back(p.at[p.n - 1] * 2 + p.to[p.n - 1]);
	}
}
MC_MAIN(model)

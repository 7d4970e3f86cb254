// Faults while writing files, by interposition of the C library (plain build only): the n-th call which opens, writes,
// closes a file for writing or creates a directory fails, or is cut short.
#pragma once
#include <cerrno>
#include <cstdio>
#include <dlfcn.h>
#include <fcntl.h>
#include <set>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
enum WFault { WF_NONE, WF_FAIL, WF_SHORT_THEN_FAIL, WF_SHORT };
static bool g_watch = false; static int g_wkind = WF_NONE; static long g_wat = -1, g_wcalls = 0; static bool g_whit = false; static std::set<int> g_wfds; static std::string g_wwhat;
static bool g_failnext = false;
#if !defined(__SANITIZE_ADDRESS__)
template <typename F> static F realOf(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
static bool wfault(const char* what) { if (!g_watch) return false; bool now = g_wcalls++ == g_wat; if (now && g_wkind != WF_NONE) { g_whit = true; g_wwhat = what; return true; } return false; }
static FILE* wopen(const char* name, const char* p, const char* m) {
	auto real = realOf<FILE* (*)(const char*, const char*)>(name); bool w = g_watch && (strchr(m, 'w') || strchr(m, 'a'));
	if (w && wfault("open")) { errno = EACCES; return nullptr; }
	auto f = real(p, m); if (f && w) g_wfds.insert(fileno(f)); return f;
}
extern "C" FILE* fopen(const char* p, const char* m) { return wopen("fopen", p, m); }
extern "C" FILE* fopen64(const char* p, const char* m) { return wopen("fopen64", p, m); }
extern "C" int fclose(FILE* f) {
	static auto real = realOf<int (*)(FILE*)>("fclose"); int fd = f ? fileno(f) : -1; bool fail = g_watch && g_wfds.count(fd) && wfault("close"); g_wfds.erase(fd);
	int r = real(f); if (fail) { errno = EIO; return EOF; } return r;
}
extern "C" ssize_t write(int fd, const void* p, size_t n) {
	static auto real = realOf<ssize_t (*)(int, const void*, size_t)>("write");
	if (g_watch && g_wfds.count(fd)) {
		if (g_failnext) { errno = ENOSPC; return -1; }
		if (wfault("write")) { if (g_wkind == WF_FAIL || n < 2) { if (g_wkind == WF_SHORT) return real(fd, p, n); errno = ENOSPC; return -1; } if (g_wkind == WF_SHORT_THEN_FAIL) g_failnext = true; return real(fd, p, n / 2); }
	}
	return real(fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
	static auto real = realOf<ssize_t (*)(int, const struct iovec*, int)>("writev");
	if (g_watch && g_wfds.count(fd)) {
		if (g_failnext) { errno = ENOSPC; return -1; }
		if (wfault("write")) { if (g_wkind == WF_FAIL) { errno = ENOSPC; return -1; } size_t t = 0; for (int i = 0; i < c; ++i) t += v[i].iov_len; if (t < 2) { if (g_wkind == WF_SHORT) return real(fd, v, c); errno = ENOSPC; return -1; }
			std::string all; for (int i = 0; i < c; ++i) all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len); if (g_wkind == WF_SHORT_THEN_FAIL) g_failnext = true; struct iovec one { all.data(), t / 2 }; return real(fd, &one, 1); }
	}
	return real(fd, v, c);
}
extern "C" int mkdir(const char* p, mode_t m) { static auto real = realOf<int (*)(const char*, mode_t)>("mkdir"); if (wfault("mkdir")) { errno = EACCES; return -1; } return real(p, m); }
#endif

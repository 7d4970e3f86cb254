// Faults in the reading of files, by interposition of the C library (not in the AddressSanitizer build, which does the same).
#pragma once
#include <cerrno>
#include <cstdio>
#include <algorithm>
#include <dlfcn.h>
#include <unistd.h>

static int g_fault = 0; // 0 none, 1 read fails, 2 end of file after k bytes, 3 one byte at a time, 4 opening fails
static size_t g_after = 0, g_given = 0; static bool g_hit = false;
#if !defined(__SANITIZE_ADDRESS__)
extern "C" ssize_t read(int fd, void* p, size_t n) {
	static auto real = reinterpret_cast<ssize_t (*)(int, void*, size_t)>(dlsym(RTLD_NEXT, "read"));
	if (g_fault == 1) { if (g_given >= g_after) { g_hit = true; errno = EIO; return -1; } n = std::min(n, g_after - g_given); }
	if (g_fault == 2) { if (g_given >= g_after) { g_hit = true; return 0; } n = std::min(n, g_after - g_given); }
	if (g_fault == 3 && n > 1) { g_hit = true; n = 1; }
	auto r = real(fd, p, n); if (g_fault && r > 0) g_given += size_t(r); return r;
}
static FILE* failOpen(const char* name, const char* p, const char* m) { if (g_fault == 4) { g_hit = true; errno = EACCES; return nullptr; } auto real = reinterpret_cast<FILE* (*)(const char*, const char*)>(dlsym(RTLD_NEXT, name)); return real(p, m); }
extern "C" FILE* fopen(const char* p, const char* m) { return failOpen("fopen", p, m); }
extern "C" FILE* fopen64(const char* p, const char* m) { return failOpen("fopen64", p, m); }
#endif


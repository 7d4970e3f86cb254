#pragma once
#include "mc.hpp"
#include <fastgltf/core.hpp>
#include <fastgltf/tools.hpp>
#include <fastgltf/base64.hpp>
#include <memory>
#include <cmath>
namespace fg = fastgltf;

// --- reference base64 (RFC 4648 section 4), deliberately boring -------------------------------------------------
inline const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
inline std::string b64enc(const std::vector<uint8_t>& d) {
	std::string r; size_t i = 0;
	while (i + 2 < d.size()) { uint32_t v = (d[i] << 16) | (d[i + 1] << 8) | d[i + 2]; r += B64[v >> 18]; r += B64[(v >> 12) & 63]; r += B64[(v >> 6) & 63]; r += B64[v & 63]; i += 3; }
	if (d.size() - i == 1) { uint32_t v = d[i] << 16; r += B64[v >> 18]; r += B64[(v >> 12) & 63]; r += "=="; }
	if (d.size() - i == 2) { uint32_t v = (d[i] << 16) | (d[i + 1] << 8); r += B64[v >> 18]; r += B64[(v >> 12) & 63]; r += B64[(v >> 6) & 63]; r += '='; }
	return r;
}
inline int b64val(char c) { const char* p = strchr(B64, c); return c && p ? int(p - B64) : -1; }
inline std::vector<uint8_t> b64dec(std::string_view s) {
	std::vector<uint8_t> r; uint32_t acc = 0; int bits = 0;
	for (char c : s) { if (c == '=') break; acc = (acc << 6) | uint32_t(b64val(c)); bits += 6; if (bits >= 8) { bits -= 8; r.push_back(uint8_t(acc >> bits)); } }
	return r;
}
inline std::string hex(const void* p, size_t n, size_t max = 64) {
	std::string r; auto b = static_cast<const unsigned char*>(p);
	for (size_t i = 0; i < n && i < max; ++i) { char t[4]; snprintf(t, 4, "%02x", b[i]); r += t; }
	if (n > max) r += "...";
	return r;
}
// A heap copy of exactly n bytes (ASan red zones on both sides).
struct Exact {
	std::unique_ptr<uint8_t[]> p; size_t n;
	explicit Exact(size_t n) : p(new uint8_t[n ? n : 1]), n(n) { memset(p.get(), 0xCD, n); }
	Exact(const void* d, size_t n) : p(new uint8_t[n ? n : 1]), n(n) { if (n) memcpy(p.get(), d, n); }
	uint8_t* data() { return p.get(); }
	std::string_view sv() const { return {reinterpret_cast<const char*>(p.get()), n}; }
};

// A small, boring JSON value type, an RFC 8259 parser (strict: rejects trailing commas, control characters, duplicate
// keys, bad escapes, invalid UTF-8) and serializers. Independent of simdjson.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

struct J {
	enum T : uint8_t { Null, Bool, Num, Str, Arr, Obj } t = Null;
	bool b = false;
	std::string s;                               // string value, or the literal text of a number
	std::vector<J> a;
	std::vector<std::pair<std::string, J>> o;
	J() = default;
	static J null() { return J(); }
	static J boolean(bool v) { J j; j.t = Bool; j.b = v; return j; }
	static J lit(std::string v) { J j; j.t = Num; j.s = std::move(v); return j; }
	static J i(long long v) { return lit(std::to_string(v)); }
	static J str(std::string v) { J j; j.t = Str; j.s = std::move(v); return j; }
	static J arr(std::vector<J> v = {}) { J j; j.t = Arr; j.a = std::move(v); return j; }
	static J obj() { J j; j.t = Obj; return j; }
	const J* get(std::string_view k) const { if (t == Obj) for (auto& m : o) if (m.first == k) return &m.second; return nullptr; }
	J* get(std::string_view k) { return const_cast<J*>(static_cast<const J*>(this)->get(k)); }
	J& set(std::string_view k, J v) { if (auto* p = get(k)) { *p = std::move(v); return *p; } o.emplace_back(std::string(k), std::move(v)); return o.back().second; }
	void erase(std::string_view k) { for (size_t i = 0; i < o.size(); ++i) if (o[i].first == k) { o.erase(o.begin() + long(i)); return; } }
	double num() const { return strtod(s.c_str(), nullptr); }
	// non-negative integer literal below 2^64 (as JSON schema "integer" without fraction/exponent)
	bool isUint(uint64_t& v) const {
		if (t != Num || s.empty()) return false;
		if (s == "-0") { v = 0; return true; }
		for (char c : s) if (c < '0' || c > '9') return false;
		errno = 0; v = strtoull(s.c_str(), nullptr, 10); return errno == 0;
	}
};
#include <cerrno>

inline void jq(std::string& r, std::string_view s) {
	r += '"';
	for (unsigned char c : s) {
		if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t";
		else if (c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += char(c);
	}
	r += '"';
}
// style 0: compact, 1: whitespace everywhere, 2: members in reverse order
inline void jwrite(std::string& r, const J& j, int style = 0) {
	const char* ws = style == 1 ? " \n\t" : "";
	switch (j.t) {
		case J::Null: r += "null"; break;
		case J::Bool: r += j.b ? "true" : "false"; break;
		case J::Num: r += j.s; break;
		case J::Str: jq(r, j.s); break;
		case J::Arr: r += '['; for (size_t i = 0; i < j.a.size(); ++i) { if (i) r += ','; r += ws; jwrite(r, j.a[i], style); r += ws; } r += ']'; break;
		case J::Obj: {
			r += '{'; size_t n = j.o.size();
			for (size_t i = 0; i < n; ++i) { auto& m = j.o[style == 2 ? n - 1 - i : i]; if (i) r += ','; r += ws; jq(r, m.first); r += ws; r += ':'; r += ws; jwrite(r, m.second, style); r += ws; }
			r += '}'; break;
		}
	}
}
inline std::string jtext(const J& j, int style = 0) { std::string r; jwrite(r, j, style); return r; }

struct JParser {
	const char *p, *e; std::string err; int depth = 0;
	explicit JParser(std::string_view s) : p(s.data()), e(s.data() + s.size()) {}
	bool fail(const char* m) { if (err.empty()) err = m; return false; }
	void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p; }
	static void utf8(std::string& r, uint32_t c) {
		if (c < 0x80) r += char(c); else if (c < 0x800) { r += char(0xC0 | c >> 6); r += char(0x80 | (c & 63)); }
		else if (c < 0x10000) { r += char(0xE0 | c >> 12); r += char(0x80 | ((c >> 6) & 63)); r += char(0x80 | (c & 63)); }
		else { r += char(0xF0 | c >> 18); r += char(0x80 | ((c >> 12) & 63)); r += char(0x80 | ((c >> 6) & 63)); r += char(0x80 | (c & 63)); }
	}
	bool hex4(uint32_t& v) { v = 0; for (int i = 0; i < 4; ++i) { if (p >= e) return fail("escape"); char c = *p++; int d = c >= '0' && c <= '9' ? c - '0' : (c | 32) >= 'a' && (c | 32) <= 'f' ? (c | 32) - 'a' + 10 : -1; if (d < 0) return fail("bad \\u escape"); v = v * 16 + uint32_t(d); } return true; }
	bool string(std::string& r) {
		if (p >= e || *p != '"') return fail("expected string");
		++p;
		for (;;) {
			if (p >= e) return fail("unterminated string");
			unsigned char c = static_cast<unsigned char>(*p++);
			if (c == '"') return true;
			if (c < 0x20) return fail("control character in string");
			if (c == '\\') {
				if (p >= e) return fail("escape");
				char x = *p++;
				switch (x) {
					case '"': case '\\': case '/': r += x; break;
					case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
					case 'u': { uint32_t v; if (!hex4(v)) return false;
						if (v >= 0xD800 && v < 0xDC00) { if (e - p < 2 || p[0] != '\\' || p[1] != 'u') return fail("lone surrogate"); p += 2; uint32_t w; if (!hex4(w)) return false; if (w < 0xDC00 || w > 0xDFFF) return fail("lone surrogate"); v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00); }
						else if (v >= 0xDC00 && v < 0xE000) return fail("lone surrogate");
						utf8(r, v); break; }
					default: return fail("bad escape");
				}
			} else if (c < 0x80) r += char(c);
			else {
				int n = c >= 0xF0 && c < 0xF5 ? 3 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xC2 && c < 0xE0 ? 1 : -1;
				if (n < 0 || e - p < n) return fail("invalid UTF-8");
				r += char(c); for (int i = 0; i < n; ++i) { if ((static_cast<unsigned char>(*p) & 0xC0) != 0x80) return fail("invalid UTF-8"); r += *p++; }
			}
		}
	}
	bool value(J& j) {
		if (++depth > 200) return fail("too deep");
		ws(); if (p >= e) return fail("unexpected end");
		bool ok = true;
		switch (*p) {
			case '{': { j.t = J::Obj; ++p; ws(); if (p < e && *p == '}') { ++p; break; }
				for (;;) { ws(); std::string k; if (!string(k)) return false; ws(); if (p >= e || *p != ':') return fail("expected ':'"); ++p;
					if (j.get(k)) return fail("duplicate key");
					j.o.emplace_back(std::move(k), J()); if (!value(j.o.back().second)) return false; ws();
					if (p < e && *p == ',') { ++p; continue; } if (p < e && *p == '}') { ++p; break; } return fail("expected ',' or '}'"); }
				break; }
			case '[': { j.t = J::Arr; ++p; ws(); if (p < e && *p == ']') { ++p; break; }
				for (;;) { j.a.emplace_back(); if (!value(j.a.back())) return false; ws();
					if (p < e && *p == ',') { ++p; continue; } if (p < e && *p == ']') { ++p; break; } return fail("expected ',' or ']'"); }
				break; }
			case '"': j.t = J::Str; ok = string(j.s); break;
			case 't': if (e - p >= 4 && !memcmp(p, "true", 4)) { p += 4; j.t = J::Bool; j.b = true; } else return fail("literal"); break;
			case 'f': if (e - p >= 5 && !memcmp(p, "false", 5)) { p += 5; j.t = J::Bool; j.b = false; } else return fail("literal"); break;
			case 'n': if (e - p >= 4 && !memcmp(p, "null", 4)) { p += 4; j.t = J::Null; } else return fail("literal"); break;
			default: {
				const char* b = p; if (*p == '-') ++p;
				if (p < e && *p == '0') ++p; else if (p < e && *p >= '1' && *p <= '9') { while (p < e && *p >= '0' && *p <= '9') ++p; } else return fail("bad value");
				if (p < e && *p == '.') { ++p; if (p >= e || *p < '0' || *p > '9') return fail("bad number"); while (p < e && *p >= '0' && *p <= '9') ++p; }
				if (p < e && (*p == 'e' || *p == 'E')) { ++p; if (p < e && (*p == '+' || *p == '-')) ++p; if (p >= e || *p < '0' || *p > '9') return fail("bad number"); while (p < e && *p >= '0' && *p <= '9') ++p; }
				j.t = J::Num; j.s.assign(b, p);
			}
		}
		--depth; return ok;
	}
};
// Empty error = well-formed.
inline std::string jparse(std::string_view text, J& out) {
	JParser ps(text); out = J();
	if (!ps.value(out)) return ps.err.empty() ? "error" : ps.err + " at offset " + std::to_string(ps.p - text.data());
	ps.ws(); if (ps.p != ps.e) return "trailing characters at offset " + std::to_string(ps.p - text.data());
	return "";
}
inline J jlit(std::string_view text) { J j; auto e = jparse(text, j); if (!e.empty()) { fprintf(stderr, "bad literal: %s in %.*s\n", e.c_str(), int(text.size()), text.data()); _Exit(77); } return j; }

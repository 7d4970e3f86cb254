// Loads a document with the real parser and compares it with the reference interpretation.
#pragma once
#include "util.hpp"
#include "docs.hpp"
#include "dump.hpp"
namespace fg = fastgltf;

inline const fg::Extensions ALL_EXT = [] { uint64_t v = 0; for (auto& [n, e] : spec::knownExtensions()) v |= static_cast<uint64_t>(e); return static_cast<fg::Extensions>(v); }();

struct Loaded { fg::Error error; std::unique_ptr<fg::Asset> asset; };
inline std::string glbOf(std::string json, const std::string* bin, char pad = 0) {
	while (json.size() % 4) json += ' ';
	std::string b = bin ? *bin : ""; while (b.size() % 4) b += pad;
	auto w = [](std::string& s, uint32_t v) { for (int i = 0; i < 4; ++i) s += char(v >> (8 * i)); };
	std::string r; w(r, 0x46546C67); w(r, 2); w(r, uint32_t(12 + 8 + json.size() + (bin ? 8 + b.size() : 0)));
	w(r, uint32_t(json.size())); w(r, 0x4E4F534A); r += json;
	if (bin) { w(r, uint32_t(b.size())); w(r, 0x004E4942); r += b; }
	return r;
}
inline Loaded load(fg::Parser& p, const std::string& bytes, fg::Options opt, fg::Category cat = fg::Category::All, const std::filesystem::path& dir = {}) {
	Exact e(bytes.data(), bytes.size());
	auto data = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(e.data()), e.n);
	if (data.error() != fg::Error::None) return { data.error(), nullptr };
	auto a = p.loadGltf(data.get(), dir, opt, cat);
	if (a.error() != fg::Error::None) return { a.error(), nullptr };
	return { fg::Error::None, std::make_unique<fg::Asset>(std::move(a.get())) };
}
// Alternatives outside the modelled domain: decimal-looking integers, numbers beyond 2^64.
struct Verdict { bool wantReject, lax, gotError; std::string diff, path; fg::Error err; };

// Compares; `which` = 0: only over-acceptance/wrong values of documents the spec accepts; see callers.
inline Verdict judge(const J& doc, const std::string& bytes, fg::Extensions ext, fg::Options opt, fg::Category cat = fg::Category::All, bool glb = false, const std::string& bin = {}, fg::Parser* use = nullptr) {
	auto c = spec::interpret(doc, ext, opt, cat, glb, bin);
	std::unique_ptr<fg::Parser> own; if (!use) { own = std::make_unique<fg::Parser>(ext); use = own.get(); }
	auto l = load(*use, bytes, opt, cat);
	Verdict v{ c.reject, c.lax, l.error != fg::Error::None, "", "", l.error };
	if (c.reject && !v.gotError) { v.diff = "accepted although " + c.why; v.path = c.why.substr(0, c.why.find(':')); }
	else if (!c.reject && !c.lax && v.gotError) { v.diff = std::string("rejected with ") + std::string(fg::getErrorName(l.error)); v.path = "!"; }
	else if (!c.reject && !v.gotError) v.diff = dump::diff(c.out, dump::asset(*l.asset, ext), &v.path);
	return v;
}
// a path without the array indices
inline std::string generic(const std::string& p) { std::string r; std::istringstream is(p); std::string s; while (std::getline(is, s, '/')) { if (s.empty()) continue; if (s.find_first_not_of("0123456789") == std::string::npos) s = "*"; r += (r.empty() ? "" : "/") + s; } return r; }

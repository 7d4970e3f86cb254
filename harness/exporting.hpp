// Exports with the real exporter and takes the result apart with code of our own.
#pragma once
#include "load.hpp"
#include <filesystem>

enum Form { COMPACT, PRETTY, GLB, FORMS };
static const char* const FORMN[] = { "json", "pretty", "glb" };
using Paths = std::vector<std::optional<std::filesystem::path>>;
struct Exported { fg::Error err = fg::Error::None; std::string bytes, json, bin; bool hasBin = false; Paths buffers, images; };

// Takes a GLB apart; "" if it is well-formed: lengths, alignment, padding, order of the chunks.
inline std::string takeApart(const std::string& b, std::string& json, std::string& bin, bool& hasBin) {
	auto r = [&](size_t o) { uint32_t v = 0; for (int i = 3; i >= 0; --i) v = v << 8 | static_cast<unsigned char>(b[o + size_t(i)]); return v; };
	if (b.size() < 20) return "too short"; if (r(0) != 0x46546C67) return "magic"; if (r(4) != 2) return "version"; if (r(8) != b.size()) return "length";
	size_t n = r(12); if (r(16) != 0x4E4F534A) return "first chunk is not JSON"; if (n % 4 || n > b.size() - 20) return "JSON chunk length";
	json = b.substr(20, n); size_t o = 20 + n; hasBin = false; bin.clear(); if (o == b.size()) return "";
	if (b.size() - o < 8) return "second chunk header"; n = r(o); if (r(o + 4) != 0x004E4942) return "second chunk is not BIN"; if (n % 4 || n != b.size() - o - 8) return "binary chunk length";
	bin = b.substr(o + 8); hasBin = true; return "";
}
inline Exported doExport(fg::Exporter& e, const fg::Asset& a, Form f, fg::ExportOptions opt = fg::ExportOptions::None) {
	Exported x;
	if (f == GLB) { auto r = e.writeGltfBinary(a, opt); x.err = r.error(); if (x.err != fg::Error::None) return x; x.bytes.assign(reinterpret_cast<const char*>(r.get().output.data()), r.get().output.size()); x.buffers = r.get().bufferPaths; x.images = r.get().imagePaths; }
	else { auto r = e.writeGltfJson(a, opt | (f == PRETTY ? fg::ExportOptions::PrettyPrintJson : fg::ExportOptions::None)); x.err = r.error(); if (x.err != fg::Error::None) return x; x.bytes = x.json = r.get().output; x.buffers = r.get().bufferPaths; x.images = r.get().imagePaths; }
	return x;
}
// Well-formedness of an export. "" or what is wrong.
inline std::string wellFormed(Exported& x, Form f, const fg::Asset& a, J* out = nullptr) {
	if (f == GLB) { auto w = takeApart(x.bytes, x.json, x.bin, x.hasBin); if (!w.empty()) return "GLB: " + w; }
	J j; auto w = jparse(x.json, j); if (!w.empty()) return "JSON: " + w + " in " + x.json.substr(0, 3000);
	if (f == GLB) { // padding: spaces and at most three of them
		size_t t = x.json.find_last_not_of(' '); if (x.json.size() - t - 1 > 3) return "JSON padding";
	}
	if (x.buffers.size() != a.buffers.size() || x.images.size() != a.images.size()) return mc::fmt("%zu buffer and %zu image paths for %zu buffers and %zu images", x.buffers.size(), x.images.size(), a.buffers.size(), a.images.size());
	if (out) *out = std::move(j); return "";
}
inline const std::byte* bytesOf(const fg::DataSource& s, size_t& n) {
	const std::byte* p = nullptr; n = 0;
	std::visit([&](auto& a) { using T = std::decay_t<decltype(a)>; if constexpr (std::is_same_v<T, fg::sources::Array> || std::is_same_v<T, fg::sources::Vector> || std::is_same_v<T, fg::sources::ByteView>) { p = reinterpret_cast<const std::byte*>(a.bytes.data()); n = a.bytes.size(); } }, s);
	return p;
}
inline bool hasBytes(const fg::DataSource& s) { return std::holds_alternative<fg::sources::Array>(s) || std::holds_alternative<fg::sources::Vector>(s) || std::holds_alternative<fg::sources::ByteView>(s); }
// What the exported document has to contain: `d` with the data replaced by where the exporter says it is stored.
inline std::string relocate(dump::Out& d, const Exported& x, Form f, const fg::Asset& a) {
	for (size_t i = 0; i < a.buffers.size(); ++i) { auto& s = d["buffers/" + std::to_string(i) + "/source"]; bool own = hasBytes(a.buffers[i].data);
		if (own && f == GLB && i == 0) {
			if (x.buffers[i]) return "path for the embedded buffer"; if (!x.hasBin) return "first buffer is not embedded";
			size_t n; auto p = bytesOf(a.buffers[i].data, n); if (x.bin.size() < a.buffers[i].byteLength || x.bin.size() - a.buffers[i].byteLength > 3) return "size of the binary chunk";
			n = std::min<size_t>(n, a.buffers[i].byteLength); if (n && memcmp(p, x.bin.data(), n)) return "bytes of the binary chunk"; for (size_t k = n; k < x.bin.size(); ++k) if (x.bin[k]) return "padding of the binary chunk";
			s = "bytes:" + dump::D::hexs(reinterpret_cast<const std::byte*>(x.bin.data()), x.bin.size()) + " mime:application/gltf-buffer";
		} else if (own) { if (!x.buffers[i]) return "no path for buffer " + std::to_string(i); s = "uri:" + x.buffers[i]->lexically_normal().generic_string() + " mime:none"; }
		else if (x.buffers[i]) return "path for buffer " + std::to_string(i) + " without data";
	}
	if (x.hasBin && (a.buffers.empty() || !hasBytes(a.buffers[0].data))) return "binary chunk without a buffer";
	for (size_t i = 0; i < a.images.size(); ++i) { auto& s = d["images/" + std::to_string(i) + "/source"];
		if (hasBytes(a.images[i].data)) { if (!x.images[i]) return "no path for image " + std::to_string(i); s = "uri:" + x.images[i]->lexically_normal().generic_string() + s.substr(s.rfind(" mime:")); }
		else if (x.images[i]) return "path for image " + std::to_string(i) + " without data";
	}
	return "";
}
inline bool validEnough(const fg::Asset& a) { // what the documents of the departure spaces may get wrong
	if (a.defaultScene.has_value() && a.scenes.empty()) return false;
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
	for (auto& j : a.physicsJoints) for (auto& l : j.limits) if (l.linearAxes.empty() && l.angularAxes.empty()) return false;
#endif
	for (auto& b : a.buffers) { size_t n; bytesOf(b.data, n); if (hasBytes(b.data) && (b.byteLength == 0 || b.byteLength > n)) return false; }
	return true;
}
inline bool exportable(const fg::Asset& a) {
	for (auto& b : a.buffers) if (std::holds_alternative<fg::sources::CustomBuffer>(b.data)) return false;
	for (auto& b : a.images) if (std::holds_alternative<fg::sources::CustomBuffer>(b.data)) return false;
	return true;
}
// The whole round trip of one asset: export, take apart, interpret with the reference model, load again, export again.
inline void roundTrip(const std::string& key, fg::Asset& a, Form f, fg::Exporter& e, fg::Extensions ext, fg::Options opt) {
	auto bad = [&](const std::string& k, const std::string& d, const Exported& x) { mc::fail(k, std::string(FORMN[f]) + ": " + d + "\n" + x.json.substr(0, 3000)); };
	auto before = dump::asset(a, ext); auto x = doExport(e, a, f); mc::outcome(mc::hash(std::string(fg::getErrorName(x.err)) + key));
	if (dump::asset(a, ext) != before) bad("asset changed", dump::diff(before, dump::asset(a, ext)), x);
	if (x.err != fg::Error::None) { if (exportable(a) && validEnough(a)) bad("export fails", std::string(fg::getErrorName(x.err)), x); return; }
	J j; auto w = wellFormed(x, f, a, &j); if (!w.empty()) return bad("malformed", w, x);
	if (!validEnough(a)) return;
	auto want = before; w = relocate(want, x, f, a); if (!w.empty()) return bad("files", w, x);
	std::string path;
	auto c = spec::interpret(j, ext, opt, fg::Category::All, f == GLB && x.hasBin, x.bin);
	if (c.reject) return bad("invalid:" + generic(c.why.substr(0, c.why.find(':'))), c.why, x);
	if (!c.lax) if (w = dump::diff(want, c.out, &path); !w.empty()) return bad("document:" + generic(path), w, x);
	fg::Parser p(ext); auto l = load(p, x.bytes, opt); if (!l.asset) return bad("not loadable", std::string(fg::getErrorName(l.error)), x);
	if (w = dump::diff(want, dump::asset(*l.asset, ext), &path); !w.empty()) return bad("reload:" + generic(path), w, x);
	auto parts = [&](const fg::DataSource& s, const fg::DataSource& t, const std::string& what) { auto u = std::get_if<fg::sources::URI>(&s), v = std::get_if<fg::sources::URI>(&t); if (!u || !v) return; if (u->uri.scheme() != v->uri.scheme() || u->uri.userinfo() != v->uri.userinfo() || u->uri.host() != v->uri.host() || u->uri.port() != v->uri.port() || u->uri.path() != v->uri.path() || u->uri.query() != v->uri.query() || u->uri.fragment() != v->uri.fragment()) bad("uri", what + ": components of " + std::string(u->uri.string()) + " differ", x); };
	for (size_t i = 0; i < a.buffers.size(); ++i) parts(a.buffers[i].data, l.asset->buffers[i].data, "buffer");
	for (size_t i = 0; i < a.images.size(); ++i) parts(a.images[i].data, l.asset->images[i].data, "image");
	mc::nontrivial();
	auto y = doExport(e, *l.asset, f); if (y.err != fg::Error::None) return bad("second export fails", std::string(fg::getErrorName(y.err)), x);
	if (y.bytes != x.bytes) { size_t k = 0; while (k < x.bytes.size() && k < y.bytes.size() && x.bytes[k] == y.bytes[k]) ++k; bad("second export differs", mc::fmt("at %zu of %zu/%zu: ", k, x.bytes.size(), y.bytes.size()) + y.bytes.substr(k > 20 ? k - 20 : 0, 60), x); }
}

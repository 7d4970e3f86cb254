// The glTF 2.0 document model: what a loader must make of every member of every object (core specification plus the
// supported extensions), written from the specification as a table and independent of the implementation.
// interpret() turns a document into canonical "path=value" lines, or a rejection; collect() lists, for a base document,
// every member of every object together with all its alternatives (valid values, boundary values, wrong types, absent).
#pragma once
#include "json.hpp"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <fastgltf/core.hpp>

namespace spec {
namespace fg = fastgltf;
using fg::Extensions;

inline std::string unpercent(const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '%' && i + 2 < s.size() && isxdigit((unsigned char)s[i + 1]) && isxdigit((unsigned char)s[i + 2])) { r += char(std::stoi(s.substr(i + 1, 2), nullptr, 16)); i += 2; } else r += s[i]; return r; }
enum Kind { IDX, NUM, BOOL, STR, ENUMS, ENUMI, VEC, NUMARR, IDXARR, STRARR, OBJ, OBJARR, ATTR, ATTRARR, FLAGOBJ, CUSTOM };
enum Pres { OPT, REQ, DEF, QUIET };   // QUIET: optional, and the presence of the (empty) object itself is not observable

struct Schema;
struct Member {
	std::string name; Kind kind; Pres pres; bool lax = false;
	std::string def;                               // DEF: canonical default; VEC: comma separated
	std::vector<std::string> en;                   // ENUMS / ENUMI values
	unsigned n = 0;                                // VEC length
	std::shared_ptr<Schema> sub;
	Extensions ext = Extensions::None;             // member of an "extensions" object: enabling extension
	std::vector<J> alts;                           // replaces the default alternatives
};
struct Ctx;
struct Schema {
	std::vector<Member> m;
	std::function<void(Ctx&, const J&, const std::string&)> custom;   // cross-member rules
	bool isExt = false;                            // this is an "extensions" object
};
using S = std::shared_ptr<Schema>;

struct Ctx {
	Extensions ext = Extensions::None; fg::Options opt = fg::Options::None; fg::Category cat = fg::Category::All;
	bool glb = false; std::string glbBytes;
	bool reject = false, lax = false; std::string why;
	const J* root = nullptr;
	std::map<std::string, std::string> out;
	void rej(const std::string& p, const char* w) { if (!reject) why = p + ": " + w; reject = true; }
	void put(const std::string& p, const std::string& v) { if (v == "0" && p.size() > 2 && p.compare(p.size() - 2, 2, "/#") == 0) return; out[p] = v; }
	bool has(Extensions e) const { return (static_cast<uint64_t>(ext) & static_cast<uint64_t>(e)) != 0; }
	bool has(fg::Options o) const { return (static_cast<uint64_t>(opt) & static_cast<uint64_t>(o)) != 0; }
	bool has(fg::Category c) const { return (static_cast<uint64_t>(cat) & static_cast<uint64_t>(c)) != 0; }
};

inline std::string f9(double d) { char b[40]; snprintf(b, sizeof b, sizeof(fg::num) == 8 ? "%.17g" : "%.9g", double(static_cast<fg::num>(d)) + 0.0); return b; } // no distinction between 0 and -0
inline std::string u(uint64_t v) { return std::to_string(v); }

void interp(Ctx& c, const Schema& s, const J& o, const std::string& p);

inline const J& nothing() { static const J o = J::obj(); return o; }   // stands for an absent object
inline void absent(Ctx& c, const Member& m, const std::string& p) {
	if (m.pres == REQ) { c.rej(p, "required member missing"); return; }
	switch (m.kind) {
		case VEC: if (m.pres == DEF) { size_t i = 0, b = 0; for (unsigned k = 0; k < m.n; ++k) { i = m.def.find(',', b); c.put(p + "/" + u(k), m.def.substr(b, i == std::string::npos ? i : i - b)); b = i + 1; } } break;
		case NUMARR: case IDXARR: case STRARR: case OBJARR: case ATTRARR: case ATTR: c.put(p + "/#", "0"); break;
		case OBJ: if (m.pres == DEF) interp(c, *m.sub, nothing(), p); break;
		case FLAGOBJ: c.put(p, "false"); break;
		case CUSTOM: break;
		default: if (m.pres == DEF) c.put(p, m.def);
	}
}
inline void member(Ctx& c, const Member& m, const J* v, const std::string& p) {
	if (!v) { absent(c, m, p); return; }
	auto bad = [&](const char* w) { if (m.lax && m.pres != REQ) { c.lax = true; absent(c, m, p); } else c.rej(p, w); };
	uint64_t n;
	switch (m.kind) {
		case IDX: if (v->isUint(n)) c.put(p, u(n)); else bad("not an unsigned integer"); break;
		case NUM: if (v->t == J::Num) c.put(p, f9(v->num())); else bad("not a number"); break;
		case BOOL: if (v->t == J::Bool) c.put(p, v->b ? "true" : "false"); else bad("not a boolean"); break;
		case STR: if (v->t == J::Str) c.put(p, v->s); else bad("not a string"); break;
		case ENUMS: if (v->t != J::Str) { bad("not a string"); break; }
			for (auto& e : m.en) if (e == v->s) { c.put(p, e); return; }
			c.rej(p, "unknown enum value"); break;
		case ENUMI: if (!v->isUint(n)) { bad("not an unsigned integer"); break; }
			for (auto& e : m.en) if (e == u(n)) { c.put(p, e); return; }
			c.rej(p, "unknown enum value"); break;
		case VEC: if (v->t != J::Arr) { bad("not an array"); break; }
			if (v->a.size() != m.n) { c.rej(p, "wrong array length"); break; }
			for (auto& e : v->a) if (e.t != J::Num) { c.rej(p, "array element not a number"); return; }
			{ std::string_view k = m.name; bool single = m.n >= 3 && (k == "translation" || k == "rotation" || k == "scale" || k == "size" || k == "centerOfMass" || k == "inertiaDiagonal" || k == "inertialOrientation" || k == "linearVelocity" || k == "angularVelocity"); for (size_t i = 0; i < m.n; ++i) c.put(p + "/" + u(i), f9(single ? double(float(v->a[i].num())) : v->a[i].num())); } break; // declared as floats in every configuration
		case NUMARR: case IDXARR: case STRARR: if (v->t != J::Arr) { bad("not an array"); break; }
			c.put(p + "/#", u(v->a.size()));
			for (size_t i = 0; i < v->a.size(); ++i) { auto& e = v->a[i]; auto q = p + "/" + u(i);
				if (m.kind == IDXARR) { if (e.isUint(n)) c.put(q, u(n)); else return c.rej(q, "not an unsigned integer"); }
				else if (m.kind == NUMARR) { if (e.t == J::Num) c.put(q, f9(e.num())); else return c.rej(q, "not a number"); }
				else { if (e.t == J::Str) c.put(q, e.s); else return c.rej(q, "not a string"); } }
			break;
		case ATTR: if (v->t != J::Obj) { bad("not an object"); break; }
			c.put(p + "/#", u(v->o.size()));
			for (size_t i = 0; i < v->o.size(); ++i) { if (!v->o[i].second.isUint(n)) return c.rej(p, "attribute not an unsigned integer"); c.put(p + "/" + v->o[i].first, u(n)); }
			break;
		case ATTRARR: if (v->t != J::Arr) { bad("not an array"); break; }
			c.put(p + "/#", u(v->a.size()));
			for (size_t i = 0; i < v->a.size(); ++i) { Member t{ "", ATTR, REQ }; member(c, t, &v->a[i], p + "/" + u(i)); }
			break;
		case OBJ: if (v->t != J::Obj) { bad("not an object"); break; }
			if (m.pres == OPT && !m.sub->isExt) c.put(p, "{}");
			interp(c, *m.sub, *v, p); break;
		case OBJARR: if (v->t != J::Arr) { bad("not an array"); break; }
			c.put(p + "/#", u(v->a.size()));
			for (size_t i = 0; i < v->a.size(); ++i) { if (v->a[i].t != J::Obj) return c.rej(p, "array element not an object"); interp(c, *m.sub, v->a[i], p + "/" + u(i)); }
			break;
		case FLAGOBJ: if (v->t != J::Obj) { bad("not an object"); break; } c.put(p, "true"); break;
		case CUSTOM: break;
	}
}
inline void interp(Ctx& c, const Schema& s, const J& o, const std::string& p) {
	for (auto& m : s.m) {
		const J* v = o.get(m.name);
		if (s.isExt && !c.has(m.ext)) v = nullptr;                      // disabled: no effect whatsoever
		if (m.name == "extensions" && v && v->t != J::Obj) {            // wrong type of the whole extensions object
			bool any = false; if (m.sub) for (auto& e : m.sub->m) any = any || c.has(e.ext);
			if (!any || m.lax) { c.lax = true; v = nullptr; } else { c.rej(p + "/extensions", "not an object"); v = nullptr; }
		}
		member(c, m, v, p + "/" + m.name);
	}
	if (s.custom) s.custom(c, o, p);
}

// ------------------------------------------------------------------------------------------------ tables
inline Member mk(const char* n, Kind k, Pres p) { Member m; m.name = n; m.kind = k; m.pres = p; return m; }
inline Member lx(Member m) { m.lax = true; return m; }
inline Member str(const char* n, Pres p = DEF) { return mk(n, STR, p); }
inline Member name() { return lx(str("name")); }
inline Member idx(const char* n, Pres p = OPT) { return mk(n, IDX, p); }
inline Member uintDef(const char* n, const char* d) { auto m = mk(n, IDX, DEF); m.def = d; return m; }
inline Member num(const char* n, double d) { auto m = mk(n, NUM, DEF); m.def = f9(d); return m; }
inline Member numOpt(const char* n) { return mk(n, NUM, OPT); }
inline Member numReq(const char* n) { return mk(n, NUM, REQ); }
inline Member boolean(const char* n, bool d) { auto m = mk(n, BOOL, DEF); m.def = d ? "true" : "false"; return m; }
inline Member boolReq(const char* n, bool d) { auto m = boolean(n, d); m.pres = REQ; return m; }
inline Member vec(const char* n, unsigned k, const char* d) { auto m = mk(n, VEC, DEF); m.n = k; m.def = d; return m; }
inline Member vecOpt(const char* n, unsigned k) { auto m = mk(n, VEC, OPT); m.n = k; return m; }
inline Member enumS(const char* n, std::vector<std::string> e, Pres p, const char* d = "") { auto m = mk(n, ENUMS, p); m.en = std::move(e); m.def = d; return m; }
inline Member enumI(const char* n, std::vector<std::string> e, Pres p, const char* d = "") { auto m = mk(n, ENUMI, p); m.en = std::move(e); m.def = d; return m; }
inline S mkS(std::vector<Member> m, std::function<void(Ctx&, const J&, const std::string&)> f = {}) { auto s = std::make_shared<Schema>(); s->m = std::move(m); s->custom = std::move(f); return s; }
inline Member obj(const char* n, S s, Pres p = OPT) { auto m = mk(n, OBJ, p); m.sub = std::move(s); return m; }
inline Member objArr(const char* n, S s, Pres p = DEF) { auto m = mk(n, OBJARR, p); m.sub = std::move(s); return m; }
// extensions this build does not have are never enabled
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
static constexpr auto RIGID_BODIES = Extensions::KHR_physics_rigid_bodies;
#else
static constexpr auto RIGID_BODIES = Extensions(1ull << 60);
#endif
#if FASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES
static constexpr auto IMPLICIT_SHAPES = Extensions::KHR_implicit_shapes;
#else
static constexpr auto IMPLICIT_SHAPES = Extensions(1ull << 61);
#endif
inline Member onExt(Extensions e, Member m) { m.ext = e; return m; }
inline Member exts(std::vector<Member> m, bool lax = false) { auto s = mkS(std::move(m)); s->isExt = true; auto r = obj("extensions", s, DEF); r.lax = lax; return r; }
inline Member custom(const char* n, std::vector<J> alts) { auto m = mk(n, CUSTOM, OPT); m.alts = std::move(alts); return m; }
inline std::vector<J> lits(std::initializer_list<const char*> l) { std::vector<J> r; for (auto s : l) { J j; if (auto e = jparse(s, j); !e.empty()) { fprintf(stderr, "bad literal %s: %s\n", s, e.c_str()); abort(); } r.push_back(std::move(j)); } return r; }

inline S textureInfo(int kind = 0) {
	auto tt = obj("KHR_texture_transform", mkS({ lx(idx("texCoord")), lx(num("rotation", 0)), lx(vec("offset", 2, "0,0")), lx(vec("scale", 2, "1,1")) }));
	std::vector<Member> m{ idx("index", REQ), uintDef("texCoord", "0"), exts({ onExt(Extensions::KHR_texture_transform, lx(tt)) }, true) };
	if (kind == 1) m.push_back(num("scale", 1));
	if (kind == 2) m.push_back(num("strength", 1));
	return mkS(m);
}
inline Member tex(const char* n, int kind = 0) { return obj(n, textureInfo(kind)); }

inline Schema rootSchema() {
	using E = Extensions; Schema r;
	auto accessors = mkS({ custom("componentType", lits({ "5120", "5121", "5122", "5123", "5125", "5126", "5130", "5127", "5119", "5131", "0", "70656", "4294972417", "-1", "5121.5", "\"5121\"", "true", "null", "[]", "{}" })),
		enumS("type", { "SCALAR", "VEC2", "VEC3", "VEC4", "MAT2", "MAT3", "MAT4" }, REQ), idx("count", REQ), lx(idx("bufferView")), uintDef("byteOffset", "0"), boolean("normalized", false),
		custom("min", lits({ "[0]", "[1,2]", "[-1,0.5,3]", "[-5,-6,7]", "[1,2,3,4]", "[]", "[1,\"x\"]", "[0,0,null]", "[0,0,true]", "[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,1]", "[4294967295,0,9007199254740993]", "5", "\"a\"", "{}" })),
		custom("max", lits({ "[0]", "[1,2]", "[-1,0.5,3]", "[-5,-6,7]", "[1,2,3,4]", "[]", "[1,\"x\"]", "[0,0,null]", "[0,0,true]", "[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1,1]", "[4294967295,0,9007199254740993]", "5", "\"a\"", "{}" })),
		lx(obj("sparse", mkS({ idx("count", REQ),
			obj("indices", mkS({ idx("bufferView", REQ), uintDef("byteOffset", "0"), enumI("componentType", { "5121", "5123", "5125" }, REQ) }), REQ),
			obj("values", mkS({ idx("bufferView", REQ), uintDef("byteOffset", "0") }), REQ) }))), name() },
		[](Ctx& c, const J& o, const std::string& p) {
			uint64_t ct = 0; auto v = o.get("componentType");
			if (!v || !v->isUint(ct)) return c.rej(p + "/componentType", "missing or not an unsigned integer");
			if (!((ct >= 5120 && ct <= 5123) || ct == 5125 || ct == 5126 || ct == 5130)) return c.rej(p + "/componentType", "unknown");
			if (ct == 5130 && !c.has(fg::Options::AllowDouble) && !c.has(Extensions::KHR_accessor_float64)) return c.rej(p + "/componentType", "double not enabled");
			c.put(p + "/componentType", u(ct));
			auto t = o.get("type"); unsigned n = 0;
			if (t && t->t == J::Str) { const char* ns[] = { "SCALAR", "VEC2", "VEC3", "VEC4", "MAT2", "MAT3", "MAT4" }; unsigned cs[] = { 1, 2, 3, 4, 4, 9, 16 }; for (int i = 0; i < 7; ++i) if (t->s == ns[i]) n = cs[i]; }
			if (!n) return;
			bool fl = ct == 5126 || ct == 5130;
			for (auto k : { "min", "max" }) if (auto b = o.get(k)) {
				if (b->t != J::Arr) { c.lax = true; continue; }
				if (b->a.size() != n) { c.rej(p + "/" + k, "wrong number of components"); continue; }
				for (size_t i = 0; i < n; ++i) {
					if (b->a[i].t != J::Num) { c.rej(p + "/" + k, "not a number"); break; }
					double d = b->a[i].num(); char s[64];
					if (fl) snprintf(s, sizeof s, "f%.17g", d);
					else { if (d != std::floor(d) || std::fabs(d) >= 9.3e18) { c.lax = true; if (std::fabs(d) >= 9e18) continue; } snprintf(s, sizeof s, "i%lld", b->a[i].s.find_first_of(".eE") == std::string::npos ? strtoll(b->a[i].s.c_str(), nullptr, 10) : static_cast<long long>(d)); }
					c.put(p + "/" + k + "/" + u(i), s);
				}
				c.put(p + "/" + k + "/#", u(n));
			}
			auto nv = o.get("normalized");
			if (nv && nv->t == J::Bool && nv->b && (ct == 5125 || ct == 5126)) c.rej(p + "/normalized", "not allowed for this component type");
		});
	auto animations = mkS({ objArr("channels", mkS({ idx("sampler", REQ), obj("target", mkS({ idx("node"), [] { auto m = str("path", REQ); m.alts = lits({ "\"translation\"", "\"rotation\"", "\"scale\"", "\"weights\"", "\"\"", "\"weight\"", "\"weightsX\"", "\"Scale\"", "\"pointer\"", "5", "null", "{}", "[]", "true" }); return m; }() }, [](Ctx& c, const J& o, const std::string& p) { auto v = o.get("path"); if (v && v->t == J::Str && v->s != "translation" && v->s != "rotation" && v->s != "scale" && v->s != "weights") { c.lax = true; c.put(p + "/path", "?0"); } }), REQ) }), REQ),
		objArr("samplers", mkS({ idx("input", REQ), idx("output", REQ), lx(enumS("interpolation", { "LINEAR", "STEP", "CUBICSPLINE" }, DEF, "LINEAR")) }), REQ), name() });
	auto source = [](Ctx& c, const J& o, const std::string& p, const J* mime) {
		auto& s = o.get("uri")->s;
		auto mt = [](const std::string& x) { static const char* k[] = { "image/jpeg", "image/png", "image/ktx2", "image/vnd-ms.dds", "application/gltf-buffer", "application/octet-stream", "image/webp" }; for (auto e : k) if (x == e) return x; return std::string("none"); };
		if (s.rfind("data:", 0) == 0) {
			auto semi = s.find(';'); auto comma = s.find(','); std::string bytes;
			auto pay = s.substr(comma + 1); uint32_t acc = 0; int bits = 0;
			for (char ch : pay) { if (ch == '=') break; static const std::string al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; acc = acc << 6 | uint32_t(al.find(ch)); bits += 6; if (bits >= 8) { bits -= 8; bytes += char(acc >> bits); } }
			std::string h; for (unsigned char ch : bytes) { char b[4]; snprintf(b, 4, "%02x", ch); h += b; }
			c.put(p + "/source", "bytes:" + h + " mime:" + mt(mime && mime->t == J::Str ? mime->s : s.substr(5, semi - 5)));
		} else c.put(p + "/source", "uri:" + unpercent(s) + " mime:" + mt(mime && mime->t == J::Str ? mime->s : "none"));
	};
	auto buffers = mkS({ idx("byteLength", REQ), custom("uri", lits({ "\"x.bin\"", "\"dir/some%20file.bin\"", "\"data:application/octet-stream;base64,AQIDBA==\"", "\"data:application/gltf-buffer;base64,AQID\"", "\"data:;base64,AAAA\"", "\"http://example.com/a.bin\"", "5", "null", "[]" })), name() },
		[source](Ctx& c, const J& o, const std::string& p) {
			auto uri = o.get("uri");
			if (uri && uri->t == J::Str) return source(c, o, p, nullptr);
			if (uri) c.lax = true;
			bool meshopt = false; if (auto er = c.root->get("extensionsRequired")) for (auto& e : er->a) meshopt = meshopt || e.s == "EXT_meshopt_compression";
			if (p == "buffers/0" && c.glb) { std::string h; for (unsigned char ch : c.glbBytes) { char b[4]; snprintf(b, 4, "%02x", ch); h += b; } c.put(p + "/source", "bytes:" + h + " mime:application/gltf-buffer"); }
			else if (meshopt) c.put(p + "/source", "fallback");
			else c.rej(p + "/uri", "buffer without data");
		});
	auto meshopt = obj("EXT_meshopt_compression", mkS({ idx("buffer", REQ), uintDef("byteOffset", "0"), idx("byteLength", REQ), idx("byteStride", REQ), idx("count", REQ), enumS("mode", { "ATTRIBUTES", "TRIANGLES", "INDICES" }, REQ), enumS("filter", { "NONE", "OCTAHEDRAL", "QUATERNION", "EXPONENTIAL" }, DEF, "NONE") }));
	auto bufferViews = mkS({ idx("buffer", REQ), uintDef("byteOffset", "0"), idx("byteLength", REQ), idx("byteStride"), enumI("target", { "34962", "34963" }, OPT), str("name"), exts({ onExt(E::EXT_meshopt_compression, lx(meshopt)) }, true) });
	auto persp = mkS({ numOpt("aspectRatio"), numOpt("zfar"), numReq("yfov"), numReq("znear") });
	auto ortho = mkS({ numReq("xmag"), numReq("ymag"), numReq("zfar"), numReq("znear") });
	auto cameras = mkS({ name(), enumS("type", { "perspective", "orthographic" }, REQ), custom("perspective", lits({ "{}", "{\"yfov\":0.25,\"znear\":2}", "5", "[]", "null" })), custom("orthographic", lits({ "{}", "{\"xmag\":1,\"ymag\":2,\"zfar\":3,\"znear\":0.5}", "5", "[]", "null" })) },
		[persp, ortho](Ctx& c, const J& o, const std::string& p) {
			auto t = o.get("type"); if (!t || t->t != J::Str) return;
			if (t->s == "perspective") member(c, obj("perspective", persp, REQ), o.get("perspective"), p + "/perspective");
			if (t->s == "orthographic") member(c, obj("orthographic", ortho, REQ), o.get("orthographic"), p + "/orthographic");
		});
	auto images = mkS({ custom("uri", lits({ "\"x.png\"", "\"dir/y.jpg\"", "\"data:image/png;base64,AQIDBA==\"", "\"data:image/jpeg;base64,AQID\"", "\"data:image/unknown;base64,AAAA\"", "5", "null", "{}" })), custom("bufferView", lits({ "0", "3", "70000", "-1", "\"0\"", "1.5", "null" })), custom("mimeType", lits({ "\"image/jpeg\"", "\"image/png\"", "\"image/ktx2\"", "\"image/vnd-ms.dds\"", "\"image/webp\"", "\"image/x\"", "\"\"", "5", "null" })), name() },
		[source](Ctx& c, const J& o, const std::string& p) {
			auto uri = o.get("uri"), bv = o.get("bufferView"), mt = o.get("mimeType"); uint64_t n;
			if (mt && mt->t != J::Str) c.lax = true;
			if (uri && uri->t != J::Str) { c.lax = true; uri = nullptr; }
			if (uri && bv) return c.rej(p, "uri and bufferView");
			if (uri) return source(c, o, p, mt);
			if (!bv || !bv->isUint(n)) return c.rej(p, "no image data");
			if (!mt || mt->t != J::Str) return c.rej(p, "bufferView without mimeType");
			static const char* k[] = { "image/jpeg", "image/png", "image/ktx2", "image/vnd-ms.dds", "image/webp" }; std::string r = "none"; for (auto e : k) if (mt->s == e) r = e;
			c.put(p + "/source", "view:" + u(n) + " mime:" + r);
		});
	auto lights = mkS({ enumS("type", { "directional", "spot", "point" }, REQ), vec("color", 3, "1,1,1"), lx(num("intensity", 1)), lx(numOpt("range")), custom("spot", lits({ "{}", "{\"innerConeAngle\":0.25}", "{\"outerConeAngle\":0.75}", "{\"innerConeAngle\":\"x\"}", "{\"outerConeAngle\":[]}", "5", "null" })), name() },
		[](Ctx& c, const J& o, const std::string& p) {
			auto t = o.get("type"); if (!t || t->t != J::Str || t->s != "spot") return;
			member(c, obj("spot", mkS({ num("innerConeAngle", 0), num("outerConeAngle", 3.14159265358979323846 / 4) }), REQ), o.get("spot"), p + "/spot");
		});
	auto matExts = exts({
		onExt(E::KHR_materials_anisotropy, obj("KHR_materials_anisotropy", mkS({ num("anisotropyStrength", 0), num("anisotropyRotation", 0), tex("anisotropyTexture") }))),
		onExt(E::KHR_materials_clearcoat, obj("KHR_materials_clearcoat", mkS({ num("clearcoatFactor", 0), tex("clearcoatTexture"), num("clearcoatRoughnessFactor", 0), tex("clearcoatRoughnessTexture"), tex("clearcoatNormalTexture", 1) }))),
		onExt(E::KHR_materials_dispersion, obj("KHR_materials_dispersion", mkS({ num("dispersion", 0) }), DEF)),
		onExt(E::KHR_materials_emissive_strength, obj("KHR_materials_emissive_strength", mkS({ num("emissiveStrength", 1) }), DEF)),
		onExt(E::KHR_materials_ior, obj("KHR_materials_ior", mkS({ num("ior", 1.5) }), DEF)),
		onExt(E::KHR_materials_iridescence, obj("KHR_materials_iridescence", mkS({ num("iridescenceFactor", 0), tex("iridescenceTexture"), num("iridescenceIor", 1.3), num("iridescenceThicknessMinimum", 100), num("iridescenceThicknessMaximum", 400), tex("iridescenceThicknessTexture") }))),
		onExt(E::KHR_materials_diffuse_transmission, obj("KHR_materials_diffuse_transmission", mkS({ num("diffuseTransmissionFactor", 0), tex("diffuseTransmissionTexture"), lx(vec("diffuseTransmissionColorFactor", 3, "1,1,1")), tex("diffuseTransmissionColorTexture") }))),
		onExt(E::KHR_materials_sheen, obj("KHR_materials_sheen", mkS({ vec("sheenColorFactor", 3, "0,0,0"), tex("sheenColorTexture"), num("sheenRoughnessFactor", 0), tex("sheenRoughnessTexture") }))),
		onExt(E::KHR_materials_specular, obj("KHR_materials_specular", mkS({ num("specularFactor", 1), tex("specularTexture"), vec("specularColorFactor", 3, "1,1,1"), tex("specularColorTexture") }))),
		onExt(E::KHR_materials_transmission, obj("KHR_materials_transmission", mkS({ num("transmissionFactor", 0), tex("transmissionTexture") }))),
		onExt(E::KHR_materials_unlit, mk("KHR_materials_unlit", FLAGOBJ, OPT)),
		onExt(E::KHR_materials_volume, obj("KHR_materials_volume", mkS({ num("thicknessFactor", 0), tex("thicknessTexture"), num("attenuationDistance", INFINITY), vec("attenuationColor", 3, "1,1,1") }))),
		onExt(E::MSFT_packing_normalRoughnessMetallic, obj("MSFT_packing_normalRoughnessMetallic", mkS({ tex("normalRoughnessMetallicTexture") }), DEF)),
		onExt(E::MSFT_packing_occlusionRoughnessMetallic, obj("MSFT_packing_occlusionRoughnessMetallic", mkS({ tex("occlusionRoughnessMetallicTexture"), tex("roughnessMetallicOcclusionTexture"), tex("normalTexture") }))),
		onExt(E::KHR_materials_pbrSpecularGlossiness, obj("KHR_materials_pbrSpecularGlossiness", mkS({ vec("diffuseFactor", 4, "1,1,1,1"), tex("diffuseTexture"), vec("specularFactor", 3, "1,1,1"), num("glossinessFactor", 1), tex("specularGlossinessTexture") }))),
	});
	auto materials = mkS({ vec("emissiveFactor", 3, "0,0,0"), tex("normalTexture", 1), tex("occlusionTexture", 2), tex("emissiveTexture"),
		lx(obj("pbrMetallicRoughness", mkS({ lx(vec("baseColorFactor", 4, "1,1,1,1")), num("metallicFactor", 1), num("roughnessFactor", 1), tex("baseColorTexture"), tex("metallicRoughnessTexture") }), DEF)),
		enumS("alphaMode", { "OPAQUE", "MASK", "BLEND" }, DEF, "OPAQUE"), num("alphaCutoff", 0.5), boolean("doubleSided", false), name(), matExts });
	// The variants of a primitive: the material for each variant index, regardless of how mappings are grouped.
	auto variants = mkS({ custom("mappings", lits({ "[]", "[{\"material\":1,\"variants\":[0]}]", "[{\"material\":2,\"variants\":[1,0]},{\"material\":3,\"variants\":[2]}]", "[{\"material\":1,\"variants\":[]}]", "[{\"variants\":[0]}]", "[{\"material\":1}]", "[{\"material\":\"1\",\"variants\":[0]}]", "[{\"material\":1,\"variants\":[-1]}]", "[{\"material\":1,\"variants\":[\"0\"]}]", "[5]", "5", "null", "{}", "[{\"material\":300,\"variants\":[1]},{\"material\":4,\"variants\":[2]}]" })) },
		[](Ctx& c, const J& o, const std::string& p) {
			auto mp = o.get("mappings"); if (!mp || mp->t != J::Arr) return c.rej(p, "mappings missing");
			uint64_t mat, v;
			for (auto& e : mp->a) {
				if (e.t != J::Obj || !e.get("material") || !e.get("material")->isUint(mat) || !e.get("variants") || e.get("variants")->t != J::Arr) return c.rej(p, "malformed mapping");
				for (auto& x : e.get("variants")->a) { if (!x.isUint(v)) return c.rej(p, "malformed variant index"); { auto e = c.root->get("extensions"); auto mv = e ? e->get("KHR_materials_variants") : nullptr; auto vs = mv ? mv->get("variants") : nullptr; if (!vs || v >= vs->a.size()) return c.rej(p, "variant index out of range"); } c.put(p + "/variant/" + u(v), u(mat)); }
			}
		});
	auto prims = mkS({ mk("attributes", ATTR, REQ), lx(mk("targets", ATTRARR, OPT)), enumI("mode", { "0", "1", "2", "3", "4", "5", "6" }, DEF, "4"), idx("indices"), idx("material"),
		exts({ onExt(E::KHR_materials_variants, obj("KHR_materials_variants", variants, QUIET)), onExt(E::KHR_draco_mesh_compression, obj("KHR_draco_mesh_compression", mkS({ idx("bufferView", REQ), mk("attributes", ATTR, REQ) }))) }) });
	auto meshes = mkS({ objArr("primitives", prims, REQ), mk("weights", NUMARR, OPT), name() });
	auto geometry = [] { return mkS({ idx("shape"), idx("node"), boolean("convexHull", false) }); };
	auto trigger = mkS({ custom("geometry", lits({ "{}", "{\"shape\":1}", "{\"node\":2,\"convexHull\":true}", "{\"shape\":-1}", "{\"convexHull\":1}", "5", "null" })), custom("collisionFilter", lits({ "0", "300", "-1", "\"0\"", "null" })), custom("nodes", lits({ "[]", "[1]", "[1,2,3,4,5]", "[\"1\"]", "[-1]", "5", "null" })) },
		[geometry](Ctx& c, const J& o, const std::string& p) {
			if (o.get("geometry") && o.get("nodes")) return c.rej(p, "both geometry and nodes");
			if (o.get("geometry")) { member(c, obj("geometry", geometry()), o.get("geometry"), p + "/geometry"); member(c, idx("collisionFilter"), o.get("collisionFilter"), p + "/collisionFilter"); }
			else if (o.get("collisionFilter")) c.lax = true;
			if (o.get("nodes")) member(c, mk("nodes", IDXARR, OPT), o.get("nodes"), p + "/nodes");
			if (!o.get("geometry") && !o.get("nodes")) { c.lax = true; c.out.erase(p); }
		});
	auto rigid = obj("KHR_physics_rigid_bodies", mkS({
		obj("motion", mkS({ boolean("isKinematic", false), numOpt("mass"), vec("centerOfMass", 3, "0,0,0"), vecOpt("inertiaDiagonal", 3), vecOpt("inertialOrientation", 4), vec("linearVelocity", 3, "0,0,0"), vec("angularVelocity", 3, "0,0,0"), num("gravityFactor", 1) })),
		obj("collider", mkS({ obj("geometry", geometry(), REQ), idx("physicsMaterial"), idx("collisionFilter") })),
		obj("trigger", trigger),
		obj("joint", mkS({ idx("connectedNode", REQ), idx("joint", REQ), boolean("enableCollision", false) })) }));
	auto flagged = [](const char* n, const char* k) { auto d = boolean(k, true); return obj(n, mkS({ d }, [k](Ctx& c, const J& o, const std::string&) { if (&o != &nothing() && !o.get(k)) c.lax = true; }), DEF); };
	auto nodes = mkS({ idx("mesh"), idx("skin"), idx("camera"), mk("children", IDXARR, OPT), mk("weights", NUMARR, OPT), name(),
		custom("matrix", lits({ "[1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1]", "[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16]", "[2,0,0,0,0,3,0,0,0,0,4,0,5,-6,7.5,1]", "[]", "[1,2,3]", "[1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1,1]", "[1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,\"1\"]", "5", "null" })),
		custom("translation", lits({ "[0,0,0]", "[1,-2.5,3e5]", "[1,0,0]", "[0,-1,0]", "[0,0,1]", "[1,1,1]", "[1,2]", "[1,2,3,4]", "[1,2,\"3\"]", "5", "null" })), custom("rotation", lits({ "[0,0,0,1]", "[0.5,-0.5,0.5,-0.5]", "[1,0,0,0]", "[0,1,0,0]", "[0,0,1,0]", "[0,0,0,-1]", "[0,0,0,0.5]", "[0.25,0,0,1]", "[1,2,3]", "[0,0,0,1,0]", "[0,0,null,1]", "\"x\"", "null" })), custom("scale", lits({ "[1,1,1]", "[-1,2,0.001]", "[-1,1,1]", "[1,-1,1]", "[1,1,-1]", "[-1,-1,-1]", "[0,0,0]", "[1.5,1,1]", "[1,0.5,1]", "[1,1,2]", "[1]", "[1,2,3,4]", "[true,1,1]", "{}", "null" })),
		exts({ onExt(E::KHR_lights_punctual, obj("KHR_lights_punctual", mkS({ idx("light", REQ) }))),
			onExt(E::EXT_mesh_gpu_instancing, obj("EXT_mesh_gpu_instancing", mkS({ mk("attributes", ATTR, REQ) }), QUIET)),
			onExt(RIGID_BODIES, rigid),
			onExt(E::KHR_node_visibility, flagged("KHR_node_visibility", "visible")),
			onExt(E::KHR_node_selectability, flagged("KHR_node_selectability", "selectable")),
			onExt(E::KHR_node_hoverability, flagged("KHR_node_hoverability", "hoverable")) }, true) },
		[](Ctx& c, const J& o, const std::string& p) {
			if (auto m = o.get("matrix")) {
				if (m->t != J::Arr || m->a.size() != 16) return c.rej(p + "/matrix", "not an array of 16");
				for (size_t i = 0; i < 16; ++i) { if (m->a[i].t != J::Num) return c.rej(p + "/matrix", "not numbers"); c.put(p + "/matrix/" + u(i), f9(float(m->a[i].num()))); }
				if (o.get("translation") || o.get("rotation") || o.get("scale")) c.lax = true;
				return;
			}
			member(c, vec("translation", 3, "0,0,0"), o.get("translation"), p + "/translation");
			member(c, vec("rotation", 4, "0,0,0,1"), o.get("rotation"), p + "/rotation");
			member(c, vec("scale", 3, "1,1,1"), o.get("scale"), p + "/scale");
		});
	auto samplers = mkS({ enumI("magFilter", { "9728", "9729", "9984", "9985", "9986", "9987" }, OPT), enumI("minFilter", { "9728", "9729", "9984", "9985", "9986", "9987" }, OPT), enumI("wrapS", { "33071", "33648", "10497" }, DEF, "10497"), enumI("wrapT", { "33071", "33648", "10497" }, DEF, "10497"), name() },
		[](Ctx& c, const J& o, const std::string&) { uint64_t v; if (auto f = o.get("magFilter")) if (f->isUint(v) && v >= 9984 && v <= 9987) c.lax = true; });   // not a magnification filter; left to validate()
	auto scenes = mkS({ mk("nodes", IDXARR, OPT), name() });
	auto skins = mkS({ idx("inverseBindMatrices"), idx("skeleton"), mk("joints", IDXARR, REQ), name() });
	auto srcExt = [](const char* n) { return obj(n, mkS({ idx("source", REQ) })); };
	auto textures = mkS({ idx("source"), idx("sampler"), name(), exts({ onExt(E::KHR_texture_basisu, srcExt("KHR_texture_basisu")), onExt(E::MSFT_texture_dds, srcExt("MSFT_texture_dds")), onExt(E::EXT_texture_webp, srcExt("EXT_texture_webp")) }) });
	auto shapeOf = [](const std::string& t) {
		if (t == "sphere") return mkS({ num("radius", 0.5) });
		if (t == "box") return mkS({ vec("size", 3, "1,1,1") });
		return mkS({ num("height", 0.5), num("radiusBottom", 0.25), num("radiusTop", 0.25) });
	};
	std::vector<Member> sm{ enumS("type", { "sphere", "box", "capsule", "cylinder" }, REQ) };
	sm.push_back(custom("sphere", lits({ "{}", "{\"radius\":2.5}", "{\"radius\":\"1\"}", "5", "null" })));
	sm.push_back(custom("box", lits({ "{}", "{\"size\":[1,2,3]}", "{\"size\":[1,2]}", "{\"size\":[1,2,3,4]}", "{\"size\":[1,2,\"3\"]}", "{\"size\":5}", "5", "null" })));
	for (auto t : { "capsule", "cylinder" }) sm.push_back(custom(t, lits({ "{}", "{\"height\":3}", "{\"radiusBottom\":0.75,\"radiusTop\":0}", "{\"radiusTop\":1}", "{\"height\":\"3\"}", "{\"radiusBottom\":[]}", "{\"radiusTop\":null}", "[]", "null" })));
	auto shapes = mkS(sm, [shapeOf](Ctx& c, const J& o, const std::string& p) {
		auto t = o.get("type"); if (!t || t->t != J::Str) return;
		for (auto k : { "sphere", "box", "capsule", "cylinder" }) {
			auto v = o.get(k);
			if (t->s == k) { if (!v) { c.lax = true; member(c, obj(k, shapeOf(k), DEF), nullptr, p + "/" + k); } else member(c, obj(k, shapeOf(k), DEF), v, p + "/" + k); }
			else if (v) { if (v->t == J::Obj) c.rej(p, "shape object of another type"); else c.rej(p, "malformed shape object"); }
		}
	});
	auto cm = [](const char* n) { return enumS(n, { "average", "minimum", "maximum", "multiply" }, DEF, "average"); };
	auto physMat = mkS({ num("staticFriction", 0.6), num("dynamicFriction", 0.6), num("restitution", 0), cm("frictionCombine"), cm("restitutionCombine") });
	auto filters = mkS({ mk("collisionSystems", STRARR, OPT), mk("collideWithSystems", STRARR, OPT), mk("notCollideWithSystems", STRARR, OPT) }, [](Ctx& c, const J& o, const std::string& p) { if (o.get("collideWithSystems") && o.get("notCollideWithSystems")) c.rej(p, "both system lists"); });
	auto axes = [](const char* n) { return custom(n, lits({ "[]", "[0]", "[2]", "[0,1,2]", "[2,0]", "[0,1,2,0]", "[3]", "[-1]", "[256]", "[1.5]", "[\"0\"]", "5", "null" })); };
	auto limits = mkS({ numOpt("min"), numOpt("max"), numOpt("stiffness"), num("damping", 0), axes("linearAxes"), axes("angularAxes") }, [](Ctx& c, const J& o, const std::string& p) {
		if (!!o.get("linearAxes") == !!o.get("angularAxes")) return c.rej(p, "exactly one kind of axes");
		for (auto k : { "linearAxes", "angularAxes" }) { member(c, mk(k, IDXARR, OPT), o.get(k), p + "/" + k); if (auto a = o.get(k)) for (auto& e : a->a) { uint64_t v; if (e.isUint(v) && v > 2) c.rej(p, "axis out of range"); } }
	});
	auto num0 = [](const char* n, const char* partner) { auto m = num(n, 0); (void)partner; return m; };
	auto drives = mkS({ enumS("type", { "linear", "angular" }, REQ), enumS("mode", { "force", "acceleration" }, REQ), enumI("axis", { "0", "1", "2" }, REQ), numOpt("maxForce"), num0("positionTarget", "stiffness"), num0("stiffness", ""), num0("velocityTarget", ""), num0("damping", "") }, [](Ctx& c, const J& o, const std::string& p) {
		if (!!o.get("positionTarget") != !!o.get("stiffness")) c.rej(p, "positionTarget without stiffness"); if (!!o.get("velocityTarget") != !!o.get("damping")) c.rej(p, "velocityTarget without damping");
		if (!o.get("maxForce")) c.put(p + "/maxForce", "?"); });
	auto joints = mkS({ lx(objArr("limits", limits)), objArr("drives", drives) });
	auto rootExt = exts({
		onExt(E::KHR_lights_punctual, lx(obj("KHR_lights_punctual", mkS({ objArr("lights", lights) }), DEF))),
		onExt(E::KHR_materials_variants, lx(obj("KHR_materials_variants", mkS({ objArr("variants", mkS({ str("name", REQ) }), REQ) }), DEF))),
		onExt(IMPLICIT_SHAPES, lx(obj("KHR_implicit_shapes", mkS({ objArr("shapes", shapes, REQ) }), DEF))),
		onExt(RIGID_BODIES, lx(obj("KHR_physics_rigid_bodies", mkS({ objArr("physicsMaterials", physMat), objArr("collisionFilters", filters), objArr("physicsJoints", joints) }), DEF))) });
	for (size_t i : { 1, 2 }) rootExt.sub->m[i].pres = QUIET;   // a present object requires its array
	r.m = { objArr("accessors", accessors), objArr("animations", animations), objArr("buffers", buffers), objArr("bufferViews", bufferViews), objArr("cameras", cameras), objArr("images", images), objArr("materials", materials), objArr("meshes", meshes), objArr("nodes", nodes), objArr("samplers", samplers), objArr("scenes", scenes), objArr("skins", skins), objArr("textures", textures), idx("scene"), mk("extensionsUsed", STRARR, OPT), rootExt };
	return r;
}
inline const Schema& root() { static const Schema s = rootSchema(); return s; }

inline fg::Category closure(fg::Category c) {
	// Selecting a category also selects what its objects refer to (documented in the Category enum of the header).
	using C = fg::Category; uint64_t v = static_cast<uint64_t>(static_cast<uint32_t>(c)); auto has = [&](C x) { return (v & static_cast<uint32_t>(x)) != 0; }; auto add = [&](C x) { v |= static_cast<uint32_t>(x); };
	for (int i = 0; i < 8; ++i) {
		if (has(C::Scenes)) add(C::Nodes);
		if (has(C::Nodes)) { add(C::Cameras); add(C::Meshes); add(C::Skins); }
		if (has(C::Skins)) { add(C::Accessors); add(C::Nodes); }
		if (has(C::Meshes)) { add(C::Accessors); add(C::Materials); }
		if (has(C::Materials)) add(C::Textures);
		if (has(C::Animations)) add(C::Accessors);
		if (has(C::Textures)) { add(C::Images); add(C::Samplers); }
		if (has(C::Images) || has(C::Accessors)) add(C::BufferViews);
		if (has(C::BufferViews)) add(C::Buffers);
	}
	return static_cast<C>(static_cast<uint32_t>(v));
}
inline const std::pair<const char*, fg::Category>* categoryTable(size_t& n) {
	using C = fg::Category;
	static const std::pair<const char*, C> t[] = { { "buffers", C::Buffers }, { "bufferViews", C::BufferViews }, { "accessors", C::Accessors }, { "images", C::Images }, { "samplers", C::Samplers }, { "textures", C::Textures }, { "animations", C::Animations }, { "cameras", C::Cameras }, { "materials", C::Materials }, { "meshes", C::Meshes }, { "skins", C::Skins }, { "nodes", C::Nodes }, { "scenes", C::Scenes } };
	n = sizeof t / sizeof *t; return t;
}
// Every extension the library documents as supported (its own table is part of what is checked).
inline const std::vector<std::pair<std::string, Extensions>>& knownExtensions() {
	static const std::vector<std::pair<std::string, Extensions>> k = {
		{ "EXT_mesh_gpu_instancing", Extensions::EXT_mesh_gpu_instancing },
		{ "EXT_meshopt_compression", Extensions::EXT_meshopt_compression },
		{ "EXT_texture_webp", Extensions::EXT_texture_webp },
		{ "GODOT_single_root", Extensions::GODOT_single_root },
		{ "KHR_accessor_float64", Extensions::KHR_accessor_float64 },
		{ "KHR_draco_mesh_compression", Extensions::KHR_draco_mesh_compression },
		{ "KHR_lights_punctual", Extensions::KHR_lights_punctual },
		{ "KHR_materials_anisotropy", Extensions::KHR_materials_anisotropy },
		{ "KHR_materials_clearcoat", Extensions::KHR_materials_clearcoat },
		{ "KHR_materials_diffuse_transmission", Extensions::KHR_materials_diffuse_transmission },
		{ "KHR_materials_dispersion", Extensions::KHR_materials_dispersion },
		{ "KHR_materials_emissive_strength", Extensions::KHR_materials_emissive_strength },
		{ "KHR_materials_ior", Extensions::KHR_materials_ior },
		{ "KHR_materials_iridescence", Extensions::KHR_materials_iridescence },
		{ "KHR_materials_sheen", Extensions::KHR_materials_sheen },
		{ "KHR_materials_specular", Extensions::KHR_materials_specular },
		{ "KHR_materials_transmission", Extensions::KHR_materials_transmission },
		{ "KHR_materials_unlit", Extensions::KHR_materials_unlit },
		{ "KHR_materials_variants", Extensions::KHR_materials_variants },
		{ "KHR_materials_volume", Extensions::KHR_materials_volume },
		{ "KHR_mesh_quantization", Extensions::KHR_mesh_quantization },
		{ "KHR_node_visibility", Extensions::KHR_node_visibility },
		{ "KHR_node_selectability", Extensions::KHR_node_selectability },
		{ "KHR_node_hoverability", Extensions::KHR_node_hoverability },
		{ "KHR_texture_basisu", Extensions::KHR_texture_basisu },
		{ "KHR_texture_transform", Extensions::KHR_texture_transform },
		{ "MSFT_packing_normalRoughnessMetallic", Extensions::MSFT_packing_normalRoughnessMetallic },
		{ "MSFT_packing_occlusionRoughnessMetallic", Extensions::MSFT_packing_occlusionRoughnessMetallic },
		{ "MSFT_texture_dds", Extensions::MSFT_texture_dds },
		{ "KHR_materials_pbrSpecularGlossiness", Extensions::KHR_materials_pbrSpecularGlossiness },
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
		{ "KHR_physics_rigid_bodies", RIGID_BODIES },
#endif
#if FASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES
		{ "KHR_implicit_shapes", IMPLICIT_SHAPES },
#endif
	};
	return k;
}
// Expectation for a whole document.
inline Ctx interpret(const J& doc, Extensions ext, fg::Options opt, fg::Category cat = fg::Category::All, bool glb = false, std::string glbBytes = {}) {
	Ctx c; c.ext = ext; c.opt = opt; c.cat = closure(cat); c.glb = glb; c.glbBytes = std::move(glbBytes); c.root = &doc;
	if (doc.t != J::Obj) { c.rej("", "not an object"); return c; }
	if (!c.has(fg::Options::DontRequireValidAssetMember)) {
		auto a = doc.get("asset");
		if (!a || a->t != J::Obj) c.rej("asset", "missing");
		else {
			auto v = a->get("version"); bool ok = v && v->t == J::Str;
			if (ok) { size_t d = v->s.find('.'); ok = v->s.substr(0, d) == "2"; if (ok && (d == std::string::npos || d + 1 == v->s.size() || v->s.find_first_not_of("0123456789", d + 1) != std::string::npos)) c.lax = true; }
			if (!ok) c.rej("asset/version", "missing or unsupported");
			else c.put("asset/version", v->s);
			for (auto k : { "copyright", "generator" }) { auto m = lx(str(k)); member(c, m, a->get(k), std::string("asset/") + k); }
		}
	}
	if (auto er = doc.get("extensionsRequired")) {
		if (er->t != J::Arr) c.rej("extensionsRequired", "not an array");
		else { c.put("extensionsRequired/#", u(er->a.size())); size_t i = 0;
			for (auto& e : er->a) { if (e.t != J::Str) { c.rej("extensionsRequired", "not strings"); break; }
				bool known = false; for (auto& [n, x] : knownExtensions()) if (n == e.s) { known = true; if (!c.has(x)) c.rej("extensionsRequired", "required extension not enabled"); }
				if (!known) c.rej("extensionsRequired", "unknown required extension");
				c.put("extensionsRequired/" + u(i++), e.s); } }
	} else c.put("extensionsRequired/#", "0");
	size_t nc; auto ct = categoryTable(nc);
	for (auto& m : root().m) {
		const J* v = doc.get(m.name); bool sel = true;
		for (size_t i = 0; i < nc; ++i) if (m.name == ct[i].first) sel = c.has(ct[i].second);
		if (!sel) { if (v && v->t != J::Arr) c.lax = true; c.put(m.name + "/#", "0"); continue; }
		if (m.name == "extensions") { if (v && v->t != J::Obj) { c.rej("extensions", "not an object"); continue; } member(c, m, v, "extensions"); continue; }
		member(c, m, v, m.name);
	}
	return c;
}

// ------------------------------------------------------------------------------------------------ alternatives
struct Alt { J v; bool absent = false; };
struct Target { std::vector<std::string> parent; std::string member; std::vector<Alt> alts; std::string label; };

inline std::vector<J> alternatives(const Member& m, const J* cur) {
	if (!m.alts.empty() || m.kind == CUSTOM) return m.alts;
	std::vector<J> r; auto add = [&](std::initializer_list<const char*> l) { for (auto& j : lits(l)) r.push_back(j); };
	auto rep = [](J e, int n) { std::vector<J> v; for (int i = 0; i < n; ++i) v.push_back(e); return J::arr(v); };
	switch (m.kind) {
		case IDX: add({ "0", "1", "7", "300", "65536", "4294967296", "9007199254740993", "-1", "1.5", "true", "\"0\"", "[]", "{}", "null" }); break;
		case NUM: add({ "0", "1", "-1", "0.25", "1e10", "1e-10", "-0.0", "16777217", "0.1", "4294967296", "\"1\"", "false", "[]", "[1]", "{}", "null" }); break;
		case BOOL: add({ "true", "false", "0", "1", "\"true\"", "[]", "{}", "null" }); break;
		case STR: r.push_back(J::str("")); r.push_back(J::str("a")); r.push_back(J::str("quote\" backslash\\ slash/ \xC3\xA4\xE2\x82\xAC\xF0\x9F\x98\x80 \n\t\x01")); r.push_back(J::str(std::string(15, 'x'))); r.push_back(J::str(std::string(16, 'y'))); r.push_back(J::str(std::string(5000, 'z'))); add({ "5", "true", "[]", "{}", "null" }); break;
		case ENUMS: for (auto& e : m.en) r.push_back(J::str(e)); r.push_back(J::str("")); r.push_back(J::str(m.en[0].substr(0, 1))); r.push_back(J::str(m.en[0] + "X")); r.push_back(J::str(std::string("X") + m.en[0])); r.push_back(J::str(m.en[0].substr(0, m.en[0].size() - 1)));
			{ auto lc = m.en[0]; for (auto& ch : lc) ch = char(ch ^ 32); r.push_back(J::str(lc)); auto n1 = m.en.back(); n1.back() = char(n1.back() + 1); r.push_back(J::str(n1)); r.push_back(J::str(m.en[0] + std::string(1, '\0'))); r.push_back(J::str(m.en[0] + std::string(1, '\0') + "x")); }
			add({ "5", "0", "true", "[]", "{}", "null" }); break;
		case ENUMI: { std::set<long long> s; for (auto& e : m.en) { long long v = atoll(e.c_str()); r.push_back(J::i(v)); s.insert(v); } std::set<long long> b; for (auto& e : m.en) { long long v = atoll(e.c_str()); for (long long w : { v + 1, v - 1, v + 256, v + 65536, v + 4294967296LL }) if (!s.count(w)) b.insert(w); } for (long long w : { -1LL, 0LL, 255LL, 65535LL, 4294967295LL }) if (!s.count(w)) b.insert(w); for (auto w : b) r.push_back(J::i(w)); r.push_back(J::str(m.en[0])); add({ "1.5", "true", "[]", "{}", "null" }); break; }
		case VEC: { std::string ok; for (int k = 0; k < 3; ++k) { std::vector<J> v; for (unsigned i = 0; i < m.n; ++i) v.push_back(J::lit(k == 0 ? std::to_string(i + 1) : k == 1 ? "0." + std::to_string(i + 1) + "5" : "-" + std::to_string(i) + "e3")); r.push_back(J::arr(v)); if (k == 0) { auto w = v; w.pop_back(); r.push_back(J::arr(w)); w = v; w.push_back(J::i(1)); r.push_back(J::arr(w)); w = v; w.back() = J::str("1"); r.push_back(J::arr(w)); w = v; w[0] = J::null(); r.push_back(J::arr(w)); w = v; w[m.n / 2] = J::arr(); r.push_back(J::arr(w)); } }
			// vectors which differ from the default, from zero or from a unit vector in a single component only
			auto base = [&](const char* f) { std::vector<J> v; for (unsigned i = 0; i < m.n; ++i) v.push_back(J::lit(f)); return v; }; auto push = [&](std::vector<J> v) { r.push_back(J::arr(std::move(v))); };
			std::vector<J> d = base("0"); if (!m.def.empty()) { std::vector<std::string> e; std::string t; for (char ch : m.def + ",") { if (ch == ',') { e.push_back(t); t.clear(); } else t += ch; } if (e.size() == m.n) for (unsigned i = 0; i < m.n; ++i) d[i] = J::lit(e[i]); }
			push(d); push(base("0")); push(base("1")); push(base("-1")); for (unsigned i = 0; i < m.n; ++i) { auto v = d; v[i] = J::lit("0.25"); push(v); v = d; v[i] = J::lit("-1"); push(v); v = base("1"); v[i] = J::lit("-1"); push(v); v = base("0"); v[i] = J::lit("1"); push(v); }
			add({ "[]", "[1]", "1", "\"x\"", "true", "{}", "null" }); break; }
		case NUMARR: add({ "[]", "[0.5]", "[1,2,3,4]", "[1,2,3,4,-5.5]", "[\"1\"]", "[1,null]", "[[]]", "5", "\"x\"", "{}", "null" }); r.push_back(rep(J::lit("0.25"), 300)); break;
		case IDXARR: add({ "[]", "[0]", "[3,2,1,0]", "[1,2,3,4,5]", "[300,65536,4294967296]", "[-1]", "[1,2.5]", "[0,\"1\"]", "[null]", "[[0]]", "5", "\"x\"", "{}", "null" }); r.push_back(rep(J::i(2), 300)); break;
		case STRARR: add({ "[]", "[\"a\"]", "[\"\",\"b\\\"c\",\"d\"]", "[5]", "[\"a\",null]", "5", "\"x\"", "{}", "null" }); r.push_back(rep(J::str("a system name beyond the small string size"), 20)); break;
		case ATTR: add({ "{}", "{\"POSITION\":0}", "{\"POSITION\":1,\"NORMAL\":2,\"TEXCOORD_0\":3,\"TEXCOORD_1\":4}", "{\"_A\":5,\"POSITION\":70000,\"NORMAL\":2,\"TANGENT\":3,\"COLOR_0\":4,\"JOINTS_0\":6,\"WEIGHTS_0\":7}", "{\"POSITION\":-1}", "{\"POSITION\":\"0\"}", "{\"POSITION\":1.5}", "{\"POSITION\":null}", "{\"a\\\"b\":1}", "5", "[]", "null" }); break;
		case ATTRARR: add({ "[]", "[{}]", "[{\"POSITION\":1},{\"POSITION\":2,\"NORMAL\":3}]", "[5]", "[{\"POSITION\":\"x\"}]", "[{\"A\":1,\"B\":2,\"C\":3,\"D\":4,\"E\":5}]", "5", "{}", "null" }); r.push_back(rep(lits({ "{\"POSITION\":9}" })[0], 40)); break;
		case OBJ: case FLAGOBJ: add({ "{}", "{\"unknown\":5}", "5", "\"x\"", "[]", "true", "null" }); break;
		case OBJARR: add({ "[]", "[5]", "[null]", "[[]]", "[{}]", "5", "\"x\"", "{}", "null", "true" });
			if (cur && cur->t == J::Arr && !cur->a.empty()) { for (int n : { 1, 2, 3, 5, 20 }) r.push_back(rep(cur->a[0], n)); auto v = *cur; v.a.push_back(J::i(5)); r.push_back(v); v = *cur; v.a.insert(v.a.begin(), J::obj()); r.push_back(v); }
			break;
		default: break;
	}
	return r;
}
inline void collect(const Schema& s, const J& o, std::vector<std::string>& path, std::vector<Target>& out) {
	for (auto& m : s.m) {
		const J* cur = o.get(m.name);
		Target t; t.parent = path; t.member = m.name;
		for (auto& p : path) t.label += p + "/";
		t.label += m.name;
		if (cur) { Alt a; a.absent = true; t.alts.push_back(a); }
		std::string curText = cur ? jtext(*cur) : "";
		for (auto& j : alternatives(m, cur)) if (!cur || jtext(j) != curText) { Alt a; a.v = j; t.alts.push_back(a); }
		out.push_back(std::move(t));
		if (!cur || !m.sub) continue;
		path.push_back(m.name);
		if (m.kind == OBJ && cur->t == J::Obj) collect(*m.sub, *cur, path, out);
		if (m.kind == OBJARR && cur->t == J::Arr) for (size_t i = 0; i < cur->a.size(); ++i) if (cur->a[i].t == J::Obj) { path.push_back(std::to_string(i)); collect(*m.sub, cur->a[i], path, out); path.pop_back(); }
		path.pop_back();
	}
	// an unknown member with any value must not matter
	Target t; t.parent = path; t.member = "unknownMember"; for (auto& p : path) t.label += p + "/"; t.label += "unknownMember";
	for (auto& j : lits({ "5", "\"x\"", "null", "true", "{\"nodes\":[{}]}", "[1,{\"a\":[]}]" })) { Alt a; a.v = j; t.alts.push_back(a); }
	out.push_back(t);
	t.member = "extras"; t.label = t.label.substr(0, t.label.size() - 13) + "extras"; t.alts.clear();
	for (auto& j : lits({ "{\"name\":5}", "{}" })) { Alt a; a.v = j; t.alts.push_back(a); }
	out.push_back(t);
}
// Whatever the tables do not reach: every array element (removed, replaced, doubled; arrays extended by one), and members
// of objects below custom members.
inline void sweep(const J& o, std::vector<std::string>& path, const std::set<std::string>& have, std::vector<Target>& out) {
	std::string label; for (auto& p : path) label += p + "/";
	auto target = [&](const std::string& m, const J* cur) {
		if (have.count(label + m)) return;
		Target t; t.parent = path; t.member = m; t.label = label + m; if (cur) { Alt a; a.absent = true; t.alts.push_back(a); }
		std::string curText = cur ? jtext(*cur) : "";
		for (auto& j : lits({ "0", "1", "3", "255", "256", "-1", "1.5", "4294967296", "\"0\"", "\"\"", "true", "null", "{}", "[]" })) if (jtext(j) != curText) { Alt a; a.v = j; t.alts.push_back(a); }
		if (m == "+" && !o.a.empty()) { Alt a; a.v = o.a[0]; t.alts.push_back(a); }
		out.push_back(std::move(t));
	};
	if (o.t == J::Arr) { for (size_t i = 0; i < o.a.size(); ++i) { auto k = std::to_string(i); target(k, &o.a[i]); path.push_back(k); sweep(o.a[i], path, have, out); path.pop_back(); } target("+", nullptr); }
	if (o.t == J::Obj) for (auto& m : o.o) { target(m.first, &m.second); path.push_back(m.first); sweep(m.second, path, have, out); path.pop_back(); }
}
// members of the document root which the tables do not describe
inline void manual(const J& doc, std::vector<Target>& out) {
	auto add = [&](std::vector<std::string> parent, const char* m, std::vector<J> alts, bool absent) { Target t; t.parent = parent; t.member = m; for (auto& p : parent) t.label += p + "/"; t.label += m; if (absent) { Alt a; a.absent = true; t.alts.push_back(a); } for (auto& j : alts) { Alt a; a.v = j; t.alts.push_back(a); } out.push_back(t); };
	bool hasAsset = doc.get("asset") != nullptr;
	add({}, "asset", lits({ "{}", "{\"version\":\"2.0\"}", "{\"version\":\"2.1\",\"generator\":\"g\"}", "5", "\"2.0\"", "[]", "null", "true" }), hasAsset);
	if (hasAsset) {
		add({ "asset" }, "version", lits({ "\"2.0\"", "\"2.1\"", "\"2\"", "\"2.\"", "\"\"", "\"1.0\"", "\"3.0\"", "\"20.0\"", "\"02.0\"", "\" 2.0\"", "\"2x\"", "\".\"", "\".2\"", "\"22\"", "\"2.99\"", "2.0", "2", "null", "{}", "[]", "true" }), true);
		for (auto k : { "copyright", "generator" }) add({ "asset" }, k, alternatives(str("x"), nullptr), true);
		add({ "asset" }, "unknownMember", lits({ "5", "{\"version\":\"1.0\"}" }), false);
	}
	add({}, "extensionsRequired", lits({ "[]", "5", "null", "{}", "\"KHR_materials_unlit\"", "[5]", "[\"KHR_materials_unlit\"]", "[\"KHR_materials_unlit\",\"KHR_mesh_quantization\"]", "[\"VENDOR_unknown\"]", "[\"KHR_materials_unlit\",\"VENDOR_unknown\"]", "[\"\"]", "[null]", "[\"KHR_materials_unli\"]", "[\"KHR_materials_unlitX\"]" }), false);
	add({}, "unknownCategory", lits({ "5", "\"x\"", "null", "true", "{}", "[]", "[5]", "[{\"a\":1}]", "{\"nodes\":[]}" }), false);
}
inline bool apply(J& doc, const Target& t, const Alt& a) {
	J* o = &doc;
	for (auto& p : t.parent) { if (o->t == J::Obj) o = o->get(p); else if (o->t == J::Arr) { size_t i = strtoul(p.c_str(), nullptr, 10); o = i < o->a.size() ? &o->a[i] : nullptr; } else o = nullptr; if (!o) return false; }
	if (o->t == J::Arr) {
		if (t.member == "+") { o->a.push_back(a.v); return true; }
		size_t i = strtoul(t.member.c_str(), nullptr, 10); if (i >= o->a.size()) return false;
		if (a.absent) o->a.erase(o->a.begin() + long(i)); else o->a[i] = a.v;
		return true;
	}
	if (o->t != J::Obj) return false;
	if (a.absent) o->erase(t.member); else o->set(t.member, a.v);
	return true;
}
} // namespace spec

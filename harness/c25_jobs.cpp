#include "c25_jobs.hpp"
#include <fastgltf/core.hpp>
#include <fastgltf/tools.hpp>
#include <fastgltf/base64.hpp>
#include <fstream>
#include <simdjson.h>
#include <cstring>
namespace fg = fastgltf; namespace fs = std::filesystem;
namespace {
const char B[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string digits(size_t n, unsigned seed) { std::string s; for (size_t i = 0; i < n; ++i) s += B[(i * 7 + seed * 13 + (i >> 4)) & 63]; return s; }
std::string document(unsigned v, bool glb) {
	std::string buffer = glb ? R"({"byteLength":48})" : R"({"byteLength":72,"uri":"data:application/octet-stream;base64,)" + digits(96, v) + "\"}";
	return R"({"asset":{"version":"2.0","generator":"g)" + std::to_string(v) + R"("},"extensionsUsed":["KHR_texture_transform","KHR_materials_ior","KHR_lights_punctual"],"extensionsRequired":["KHR_texture_transform"],"buffers":[)" + buffer +
		R"(],"bufferViews":[{"buffer":0,"byteLength":48,"byteOffset":0}],"accessors":[{"bufferView":0,"componentType":5126,"count":4,"type":"VEC3","min":[0,1,2.5],"max":[3,4,1e3]}],"images":[{"uri":"a%20b.png"}],"textures":[{"source":0}],)"
		R"("materials":[{"name":"m\u00e9","pbrMetallicRoughness":{"baseColorFactor":[0.5,0.25,1,1],"baseColorTexture":{"index":0,"extensions":{"KHR_texture_transform":{"scale":[2,2]}}}},"extensions":{"KHR_materials_ior":{"ior":1.25}},"alphaMode":"BLEND"}],)"
		R"("extensions":{"KHR_lights_punctual":{"lights":[{"type":"spot","intensity":2.5,"spot":{"outerConeAngle":1}}]}},"meshes":[{"primitives":[{"attributes":{"POSITION":0},"material":0,"mode":4}],"extras":{"k":)" + std::to_string(v) + R"(}}],)"
		R"("nodes":[{"mesh":0,"children":[1],"name":"n","translation":[1,2,)" + std::to_string(v) + R"(]},{"matrix":[2,0,0,0,0,2,0,0,0,0,2,0,5,6,7,1],"extensions":{"KHR_lights_punctual":{"light":0}}}],"scenes":[{"nodes":[0]}],"scene":0})";
}
void word(std::string& s, uint32_t v) { for (int i = 0; i < 4; ++i) s += char(v >> (8 * i)); }
std::string binary(unsigned v) { std::string j = document(v, true), b = digits(48, v), r; while (j.size() % 4) j += ' '; word(r, 0x46546C67); word(r, 2); word(r, uint32_t(28 + j.size() + b.size())); word(r, uint32_t(j.size())); word(r, 0x4E4F534A); r += j; word(r, uint32_t(b.size())); word(r, 0x004E4942); r += b; return r; }
void hexTo(std::string& o, const void* p, size_t n) { static const char* const h = "0123456789abcdef"; auto b = static_cast<const unsigned char*>(p); for (size_t i = 0; i < n; ++i) { o += h[b[i] >> 4]; o += h[b[i] & 15]; } o += ' '; }
const fg::Extensions EXT = fg::Extensions::KHR_texture_transform | fg::Extensions::KHR_materials_ior | fg::Extensions::KHR_lights_punctual;
void exported(std::string& o, const fg::Asset& a, fg::ExportOptions x) {
	fg::Exporter e; auto r = e.writeGltfJson(a, x); o += "json:"; o += fg::getErrorName(r.error()); if (r.error() == fg::Error::None) { o += r->output; o += std::to_string(r->bufferPaths.size()) + std::to_string(r->imagePaths.size()); }
}
void exportedBinary(std::string& o, const fg::Asset& a) { fg::Exporter e; auto r = e.writeGltfBinary(a); o += "glb:"; o += fg::getErrorName(r.error()); if (r.error() == fg::Error::None) hexTo(o, r->output.data(), r->output.size()); }
void contents(std::string& o, const fg::Asset& a) {
	for (auto& b : a.buffers) if (auto* s = std::get_if<fg::sources::Array>(&b.data)) hexTo(o, s->bytes.data(), s->bytes.size()); else o += "v" + std::to_string(b.data.index());
	for (auto& x : a.accessors) if (x.type == fg::AccessorType::Scalar) fg::iterateAccessor<std::uint32_t>(a, x, [&](std::uint32_t i) { o += std::to_string(i) + ","; }); else if (x.type == fg::AccessorType::Vec2) { fg::iterateAccessorWithIndex<fg::math::fvec2>(a, x, [&](fg::math::fvec2 v, size_t i) { float f[2] = { v[0], v[1] }; o += std::to_string(i) + ":"; hexTo(o, f, 8); }); std::vector<fg::math::fvec2> c(x.count); fg::copyFromAccessor<fg::math::fvec2>(a, x, c.data()); hexTo(o, c.data(), c.size() * 8); for (size_t i = 0; i < x.count; ++i) { auto e = fg::getAccessorElement<fg::math::fvec2>(a, x, i); hexTo(o, &e, 8); } for (auto e : fg::iterateAccessor<fg::math::u8vec2>(a, x)) hexTo(o, &e, 2); }
	else if (x.type == fg::AccessorType::Vec3) { fg::iterateAccessorWithIndex<fg::math::fvec3>(a, x, [&](fg::math::fvec3 v, size_t i) { float f[3] = { v[0], v[1], v[2] }; o += std::to_string(i) + ":"; hexTo(o, f, 12); }); std::vector<fg::math::fvec3> c(x.count); fg::copyFromAccessor<fg::math::fvec3>(a, x, c.data()); hexTo(o, c.data(), c.size() * 12); auto e = fg::getAccessorElement<fg::math::fvec3>(a, x, x.count - 1); hexTo(o, &e, 12); }
}
void scenes(std::string& o, const fg::Asset& a) { for (size_t i = 0; i < a.scenes.size(); ++i) fg::iterateSceneNodes(a, i, fg::math::fmat4x4(1), [&](auto& n, fg::math::fmat4x4 m) { o += n.name; hexTo(o, m.data(), 64); }); }
void loaded(std::string& o, const std::string& text) {
	fg::Parser p(EXT); auto d = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(text.data()), text.size()); if (d.error() != fg::Error::None) { o += fg::getErrorName(d.error()); return; }
	p.setExtrasParseCallback([](simdjson::dom::object* e, size_t i, fg::Category, void* u) { uint64_t v; if (e->at_key("k").get_uint64().get(v) == simdjson::SUCCESS) *static_cast<std::string*>(u) += "extras" + std::to_string(i) + "=" + std::to_string(v); }); p.setUserPointer(&o);
	auto a = p.loadGltf(d.get(), fs::path(), fg::Options::GenerateMeshIndices | fg::Options::DecomposeNodeMatrices); o += fg::getErrorName(a.error()); if (a.error() != fg::Error::None) return;
	o += a->assetInfo->generator; o += fg::getErrorName(fg::validate(a.get())); contents(o, a.get()); scenes(o, a.get()); exported(o, a.get(), fg::ExportOptions::None);
}
void build(fg::Asset& a, unsigned v) { // no loader, no exporter
	a.assetInfo = fg::AssetInfo{}; a.assetInfo->gltfVersion = "2.0"; auto bytes = digits(48, v); std::vector<std::byte> d(48); memcpy(d.data(), bytes.data(), 48);
	fg::sources::Array s { fg::StaticVector<std::byte>::fromVector(d), fg::MimeType::GltfBuffer }; auto& b = a.buffers.emplace_back(); b.byteLength = 48; b.name = "first"; b.data = std::move(s);
	auto& bv = a.bufferViews.emplace_back(); bv.bufferIndex = 0; bv.byteOffset = 0; bv.byteLength = 48;
	auto& ac = a.accessors.emplace_back(); ac.byteOffset = 0; ac.count = 4; ac.type = fg::AccessorType::Vec3; ac.componentType = fg::ComponentType::Float; ac.normalized = false; ac.bufferViewIndex = 0;
	auto& im = a.images.emplace_back(); fg::sources::URI u; u.uri = fg::URI(std::string_view("dir/pic%20ture.png")); u.mimeType = fg::MimeType::PNG; u.fileByteOffset = 0; im.data = std::move(u);
	auto& n = a.nodes.emplace_back(); n.name = "quote\"\n\x01"; n.transform = fg::TRS { fg::math::fvec3(1, 2, float(v)), fg::math::fquat(0, 0, 0, 1), fg::math::fvec3(1, 1, 1) }; auto& sc = a.scenes.emplace_back(); sc.nodeIndices.emplace_back(0); a.extensionsUsed.emplace_back("KHR_materials_unlit"); auto& m = a.materials.emplace_back(); m.unlit = true; m.name = "m" + std::to_string(v);
}
fg::Asset* shared; std::string texts[3];
const char* const NAMES[] = { "load a document", "load a binary", "decode base64", "export as JSON", "export as a binary", "files", "URIs and helpers", "shared asset: read and validate", "shared asset: export", "all core members", "all extensions", "all physics members" };
}
namespace jobs {
int count() { return sizeof NAMES / sizeof *NAMES; }
const char* name(int j) { return NAMES[j]; }
bool heavy(int j) { return j >= 9; }
void prepare(const char* const (&t)[3]) {
	for (int i = 0; i < 3; ++i) texts[i] = t[i]; shared = new fg::Asset; build(*shared, 7); auto& a = *shared;
	auto view = [&](size_t off, size_t n) { auto& b = a.bufferViews.emplace_back(); b.bufferIndex = 0; b.byteOffset = off; b.byteLength = n; return a.bufferViews.size() - 1; };
	std::vector<std::byte> d { std::byte(1), std::byte(3), std::byte(4), std::byte(0), std::byte(200), std::byte(100), std::byte(50), std::byte(25), std::byte(7), std::byte(8), std::byte(9), std::byte(10) };
	fg::sources::Array s { fg::StaticVector<std::byte>::fromVector(d), fg::MimeType::GltfBuffer }; auto& b = a.buffers.emplace_back(); b.byteLength = d.size(); b.data = std::move(s);
	auto idx = view(0, 3); auto val = view(4, 8); a.bufferViews[idx].bufferIndex = a.bufferViews[val].bufferIndex = 1;
	for (bool norm : { false, true }) { auto& x = a.accessors.emplace_back(); x.byteOffset = 0; x.count = 6; x.type = fg::AccessorType::Vec2; x.componentType = fg::ComponentType::UnsignedByte; x.normalized = norm; if (norm) { x.bufferViewIndex = 0; a.bufferViews[0].byteLength = 48; } x.sparse = fg::SparseAccessor { 3, idx, 0, val, 0, fg::ComponentType::UnsignedByte }; }
}
std::string run(int job, int t, const std::string& dir) {
	std::string o; unsigned v = unsigned(t) + 1;
	switch (job) {
		case 0: loaded(o, document(v, false)); break;
		case 1: loaded(o, binary(v)); break;
		case 2: for (size_t n : { 4, 20, 64, 132, 260 }) { auto s = digits(n, v); auto r = fg::base64::decode(s); hexTo(o, r.data(), r.size()); std::vector<std::uint8_t> q(n / 4 * 3); fg::base64::decode_inplace(s, q.data(), fg::base64::getPadding(s)); hexTo(o, q.data(), q.size()); auto f = fg::base64::fallback_decode(s); hexTo(o, f.data(), f.size()); } break;
		case 3: { fg::Asset a; build(a, v); exported(o, a, fg::ExportOptions::None); exported(o, a, fg::ExportOptions::PrettyPrintJson); break; }
		case 4: { fg::Asset a; build(a, v); exportedBinary(o, a); break; }
		case 5: {
			fg::Asset a; build(a, v); a.images.clear(); auto file = fs::path(dir) / "a.gltf", bin = fs::path(dir) / "a.glb"; fg::FileExporter e; o += fg::getErrorName(e.writeGltfJson(a, file)); o += fg::getErrorName(e.writeGltfBinary(a, bin));
			for (int form = 0; form < 3; ++form) {
				fg::Parser p; fg::Expected<fg::Asset> l(fg::Error::None); auto opt = fg::Options::LoadExternalBuffers;
				if (form == 0) { auto d = fg::GltfDataBuffer::FromPath(file); if (d.error() != fg::Error::None) { o += "unread"; continue; } auto x = p.loadGltf(d.get(), dir, opt); o += fg::getErrorName(x.error()); if (x.error() == fg::Error::None) contents(o, x.get()); }
				else if (form == 1) { auto d = fg::MappedGltfFile::FromPath(bin); if (d.error() != fg::Error::None) { o += "unread"; continue; } auto x = p.loadGltf(d.get(), dir, opt); o += fg::getErrorName(x.error()); if (x.error() == fg::Error::None) contents(o, x.get()); }
				else { fg::GltfFileStream d(file); if (!d.isOpen()) { o += "unread"; continue; } auto x = p.loadGltfJson(d, dir, opt); o += fg::getErrorName(x.error()); if (x.error() == fg::Error::None) contents(o, x.get()); }
			}
			break; }
		case 6: {
			for (auto s : { "http://user@host:80/p%20a/b?q#f", "data:image/png;base64,AAAA", "a/b%2Ec.bin", "../x" }) { std::string text = s + std::to_string(v); fg::URI u{ std::string_view(text) }; fg::URI c(u); o += c.string(); o += c.scheme(); o += c.path(); o += c.query(); o += c.isLocalPath() ? "L" : "R"; o += c.fspath().string(); }
			o += fg::escapeString("a\"\\\n" + std::to_string(v)); auto d = document(v, false); auto g = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(d.data()), d.size()); o += std::to_string(int(fg::determineGltfFileType(g.get())));
			for (auto x : { fg::Extensions::KHR_materials_ior, fg::Extensions::MSFT_texture_dds }) { o += fg::stringifyExtension(x); } for (auto& s : fg::stringifyExtensionBits(EXT)) { o += s; o += ','; } o += fg::getErrorMessage(fg::Error::InvalidURI);
			o += fg::getAccessorTypeName(fg::AccessorType::Vec3); o += std::to_string(int(fg::getAccessorType("MAT4"))); fg::math::fmat4x4 m(1); m[3][0] = float(v); fg::math::fvec3 sc, tr; fg::math::fquat q; fg::math::decomposeTransformMatrix(m, sc, q, tr); hexTo(o, &tr, 12); break; }
		case 7: o += fg::getErrorName(fg::validate(*shared)); contents(o, *shared); scenes(o, *shared); break;
		case 9: case 10: case 11: {
			auto& text = texts[job - 9]; fg::Parser p(fg::Extensions(~std::uint64_t(0))); auto d = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(text.data()), text.size()); auto a = p.loadGltf(d.get(), fs::path(), fg::Options::None); o += fg::getErrorName(a.error());
			if (a.error() == fg::Error::None) { o += fg::getErrorName(fg::validate(a.get())); exported(o, a.get(), fg::ExportOptions::PrettyPrintJson); exportedBinary(o, a.get()); } break; }
		case 8: exported(o, *shared, fg::ExportOptions::PrettyPrintJson); exportedBinary(o, *shared); break;
	}
	return o;
}
}

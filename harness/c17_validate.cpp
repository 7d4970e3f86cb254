// C17: validate() against our own notion of validity. Every index of a rich valid asset set to every interesting value,
// alone and in pairs; every rule broken and every valid alternative, alone, in pairs and next to dangling indices;
// sections shortened; loaded documents and category selections; assets of few objects.
#include "built.hpp"
#include "valid_asset.hpp"
#include "validity.hpp"
#include "parse_model.hpp"
struct Mut { std::string label; std::function<void(A&)> f; };
static std::vector<Mut> muts() {
	std::vector<Mut> M; auto N = [](double d) { return fg::num(d); }; (void)N; using AT = fg::AccessorType; using CT = fg::ComponentType;
	#define MUT(l, ...) M.push_back({ l, [=](A& a) { (void)a; __VA_ARGS__; } })
	std::string s;
	for (auto& [n, e] : spec::knownExtensions()) { std::string x(n); MUT("drop " + x, for (size_t i = 0; i < a.extensionsUsed.size(); ++i) if (std::string(a.extensionsUsed[i]) == x) { a.extensionsUsed.erase(a.extensionsUsed.begin() + long(i)); break; }); if (x != "KHR_materials_ior") MUT("require " + x, a.extensionsRequired.emplace_back(x)); if (x == "KHR_mesh_quantization") MUT("use " + x, a.extensionsUsed.emplace_back(x)); }
	MUT("require unknown", a.extensionsRequired.emplace_back("X_y")); MUT("require prefix", a.extensionsRequired.emplace_back("KHR_materials")); MUT("use unknown", a.extensionsUsed.emplace_back("X_y")); MUT("require many", for (size_t i = 0; i < a.extensionsUsed.size(); ++i) if (std::string(a.extensionsUsed[i]) != "KHR_materials_ior") a.extensionsRequired.emplace_back(a.extensionsUsed[i]));
	for (size_t i = 0; i < 19; ++i) { std::string x = mc::fmt(" %zu", i);
		for (auto t : { AT::Scalar, AT::Vec2, AT::Vec3, AT::Vec4, AT::Mat2, AT::Mat3, AT::Mat4, AT::Invalid }) MUT(mc::fmt("type %d", int(t)) + x, a.accessors[i].type = t);
		for (auto c : { CT::Byte, CT::UnsignedByte, CT::Short, CT::UnsignedShort, CT::UnsignedInt, CT::Float, CT::Double, CT::Invalid }) MUT(mc::fmt("component %d", int(c)) + x, a.accessors[i].componentType = c);
		for (size_t c : { size_t(0), size_t(1), size_t(2), size_t(3), size_t(12), size_t(1) << 32 }) MUT(mc::fmt("count %zu", c) + x, a.accessors[i].count = c);
		for (size_t o : { 1, 2, 4, 8 }) MUT(mc::fmt("offset %zu", o) + x, a.accessors[i].byteOffset = o);
		MUT("normalized" + x, a.accessors[i].normalized = !a.accessors[i].normalized); MUT("no view" + x, a.accessors[i].bufferViewIndex.reset()); MUT("no bounds" + x, a.accessors[i].min.reset(); a.accessors[i].max.reset()); MUT("no min" + x, a.accessors[i].min.reset()); MUT("no max" + x, a.accessors[i].max.reset());
		for (size_t n : { 0, 1, 2, 3, 4, 16 }) for (int w = 0; w < 2; ++w) for (int k = 0; k < 2; ++k) MUT(mc::fmt("%s %s %zu", w ? "max" : "min", k ? "int" : "double", n) + x, auto b = k ? fg::AccessorBoundsArray::ForType<std::int64_t>(n) : fg::AccessorBoundsArray::ForType<double>(n); for (size_t t = 0; t < n; ++t) { if (k) b.set<std::int64_t>(t, 1); else b.set<double>(t, 1); } (w ? a.accessors[i].max : a.accessors[i].min) = std::move(b));
		for (int v = 0; v < 3; ++v) MUT(mc::fmt("sparse %d", v) + x, fg::SparseAccessor q{}; q.count = 1; q.indicesBufferView = v == 1 ? 0 : 2; q.valuesBufferView = v == 2 ? 1 : 3; q.indexComponentType = CT::UnsignedShort; a.accessors[i].sparse = q); if (i == 10) MUT("no sparse", a.accessors[i].sparse.reset());
	}
	for (size_t i = 0; i < 9; ++i) { std::string x = mc::fmt(" view %zu", i);
		for (size_t v : { 0, 1, 2, 3, 4, 5, 6, 8, 12, 16, 250, 252, 253, 254, 255, 256, 260, 1024 }) MUT(mc::fmt("stride %zu", v) + x, a.bufferViews[i].byteStride = v); MUT("stride 2^32+4" + x, a.bufferViews[i].byteStride = (size_t(1) << 32) + 4); MUT("no stride" + x, a.bufferViews[i].byteStride.reset());
		MUT("array" + x, a.bufferViews[i].target = fg::BufferTarget::ArrayBuffer); MUT("element" + x, a.bufferViews[i].target = fg::BufferTarget::ElementArrayBuffer); MUT("no target" + x, a.bufferViews[i].target.reset());
		for (size_t v : { 0, 1, 2 }) MUT(mc::fmt("length %zu", v) + x, a.bufferViews[i].byteLength = v); for (size_t v : { 0, 1, 2, 4, 6, 8 }) MUT(mc::fmt("offset %zu", v) + x, a.bufferViews[i].byteOffset += v);
		for (int m = 0; m < 3; ++m) for (size_t st : { 1, 2, 3, 4, 6, 8, 252, 256, 260 }) for (size_t c : { 3, 4 }) if (i == 8 || (i == 4 && st == 4)) MUT(mc::fmt("meshopt %d %zu %zu", m, st, c) + x, a.bufferViews[i].meshoptCompression = std::make_unique<fg::CompressedBufferView>(); auto& q = *a.bufferViews[i].meshoptCompression; q = {}; q.bufferIndex = 1; q.byteLength = 20; q.mode = fg::MeshoptCompressionMode(m); q.byteStride = st; q.count = c; q.filter = fg::MeshoptCompressionFilter::None);
	} MUT("no meshopt", a.bufferViews[8].meshoptCompression.reset()); MUT("meshopt input", a.bufferViews[5].meshoptCompression = std::move(a.bufferViews[8].meshoptCompression));
	for (size_t i = 0; i < 3; ++i) { MUT(mc::fmt("buffer 0 length %zu", i), a.buffers[i].byteLength = 0); MUT(mc::fmt("buffer 1 length %zu", i), a.buffers[i].byteLength = 1); MUT(mc::fmt("buffer no data %zu", i), a.buffers[i].data = std::monostate{}); }
	for (size_t t = 0; t < 2; ++t) for (size_t i = 0; i < (t ? 1u : 6u); ++i) { std::string x = mc::fmt(" channel %zu %zu", t, i); for (int p = 1; p <= 4; ++p) MUT(mc::fmt("path %d", p) + x, a.animations[t].channels[i].path = fg::AnimationPath(p)); for (size_t n = 0; n < 5; ++n) MUT(mc::fmt("node %zu", n) + x, a.animations[t].channels[i].nodeIndex = n); }
	for (size_t i = 0; i < 4; ++i) { std::string x = mc::fmt(" sampler %zu", i); for (int p = 0; p < 3; ++p) MUT(mc::fmt("interpolation %d", p) + x, a.animations[0].samplers[i].interpolation = fg::AnimationInterpolation(p)); } for (int p = 0; p < 3; ++p) MUT(mc::fmt("interpolation %d", p), a.animations[1].samplers[0].interpolation = fg::AnimationInterpolation(p));
	MUT("channel again", a.animations[0].channels.emplace_back(a.animations[0].channels[0])); MUT("channel again late", a.animations[0].channels.emplace_back(fg::AnimationChannel{ 3, size_t(0), fg::AnimationPath::Weights })); MUT("channel new", a.animations[0].channels.emplace_back(fg::AnimationChannel{ 3, size_t(4), fg::AnimationPath::Weights })); MUT("other animation", a.animations[1].channels.emplace_back(fg::AnimationChannel{ 0, size_t(0), fg::AnimationPath::Translation }));
	for (size_t t = 0; t < 2; ++t) { MUT(mc::fmt("no channels %zu", t), a.animations[t].channels.clear()); MUT(mc::fmt("no samplers %zu", t), a.animations[t].samplers.clear()); MUT(mc::fmt("neither %zu", t), a.animations[t].samplers.clear(); a.animations[t].channels.clear()); }
	for (int i = 0; i < 2; ++i) { std::string x = mc::fmt(" camera %d", i); for (int v = 0; v < 6; ++v) MUT(mc::fmt("perspective %d", v) + x, fg::Camera::Perspective p{}; p.yfov = N(1); p.znear = N(1); if (v == 1) p.yfov = 0; if (v == 2) p.znear = 0; if (v == 3) p.zfar = N(0); if (v == 4) p.aspectRatio = N(0); if (v == 5) { p.zfar = N(2); p.aspectRatio = N(1); } a.cameras[size_t(i)].camera = p); for (int v = 0; v < 3; ++v) MUT(mc::fmt("orthographic %d", v) + x, fg::Camera::Orthographic o{}; o.xmag = o.ymag = 1; o.zfar = v == 1 ? 0 : 10; o.znear = v == 2 ? N(1) : 0; a.cameras[size_t(i)].camera = o); }
	for (size_t i = 0; i < 3; ++i) { std::string x = mc::fmt(" light %zu", i); MUT("range" + x, a.lights[i].range = N(1)); MUT("range tiny" + x, a.lights[i].range = N(1e-30)); MUT("no range" + x, a.lights[i].range.reset()); MUT("range 0" + x, a.lights[i].range = N(0)); MUT("range -1" + x, a.lights[i].range = N(-1)); MUT("inner" + x, a.lights[i].innerConeAngle = N(0.5)); MUT("inner -" + x, a.lights[i].innerConeAngle = N(-0.01)); MUT("inner 0" + x, a.lights[i].innerConeAngle = N(0)); MUT("inner 1.5" + x, a.lights[i].innerConeAngle = N(1.5)); MUT("outer" + x, a.lights[i].outerConeAngle = N(1)); MUT("outer pi/2" + x, a.lights[i].outerConeAngle = N(1.57079632679489661923)); MUT("outer 1.571" + x, a.lights[i].outerConeAngle = N(1.571)); MUT("outer 3" + x, a.lights[i].outerConeAngle = N(3)); MUT("outer 0.1" + x, a.lights[i].outerConeAngle = N(0.1)); MUT("no inner" + x, a.lights[i].innerConeAngle.reset()); MUT("no outer" + x, a.lights[i].outerConeAngle.reset()); for (int t = 0; t < 3; ++t) MUT(mc::fmt("kind %d", t) + x, a.lights[i].type = fg::LightType(t)); }
	#define MEMBER(m) MUT(s + "no " #m, a.materials[1].m.reset()); MUT(s + "empty " #m, a.materials[0].m = std::make_unique<std::decay_t<decltype(*a.materials[0].m)>>())
	MEMBER(anisotropy); MEMBER(clearcoat); MEMBER(diffuseTransmission); MEMBER(iridescence); MEMBER(sheen); MEMBER(specular); MEMBER(specularGlossiness); MEMBER(transmission); MEMBER(volume); MEMBER(packedOcclusionRoughnessMetallicTextures);
	for (size_t i = 0; i < 3; ++i) { std::string x = mc::fmt(" material %zu", i); MUT("strength 1" + x, a.materials[i].emissiveStrength = N(1)); MUT("strength 0" + x, a.materials[i].emissiveStrength = N(0)); MUT("ior 1.5" + x, a.materials[i].ior = N(1.5)); MUT("ior 0" + x, a.materials[i].ior = N(0)); MUT("ior" + x, a.materials[i].ior = N(1.4)); MUT("packed" + x, a.materials[i].packedNormalMetallicRoughnessTexture = texInfo(1)); MUT("no packed" + x, a.materials[i].packedNormalMetallicRoughnessTexture.reset()); MUT("unlit" + x, a.materials[i].unlit = true); }
	auto prim = [](A& a, size_t p) -> fg::Primitive& { return p == 0 ? a.meshes[0].primitives[0] : p == 4 ? a.meshes[0].primitives[1] : p == 3 ? a.meshes[2].primitives[0] : a.meshes[1].primitives[p - 1]; };
	static const char* const names[] = { "POSITION", "NORMAL", "TANGENT", "TEXCOORD_0", "TEXCOORD_12", "COLOR_0", "COLOR_9", "JOINTS_0", "JOINTS_1", "WEIGHTS_0", "WEIGHTS_3", "_", "_CUSTOM", "custom", "position", "TEXCOORD", "", "COLOR", "NORMAL_0", "POSITION_" };
	for (size_t p = 0; p < 5; ++p) { std::string x = mc::fmt(" primitive %zu", p); for (auto n : names) for (size_t i : { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 18 }) { if (p != 3 && i != 1 && i != 6) continue; MUT(mc::fmt("attribute %s %zu", n, i) + x, auto& t = prim(a, p).attributes; for (auto& o : t) if (std::string(o.name) == n) { o.accessorIndex = i; return; } t.emplace_back(attr(n, i))); }
		for (size_t n = 0; n < 4; ++n) MUT(mc::fmt("mappings %zu", n) + x, auto& m = prim(a, p).mappings; m.clear(); for (size_t i = 0; i < n; ++i) m.emplace_back(size_t(1))); MUT("mappings none" + x, auto& m = prim(a, p).mappings; m.clear(); m.resize(2)); MUT("no attributes" + x, prim(a, p).attributes.clear()); MUT("no indices" + x, prim(a, p).indicesAccessor.reset()); MUT("indices 0" + x, prim(a, p).indicesAccessor = size_t(0)); MUT("draco" + x, auto& q = prim(a, p).dracoCompression; q = std::make_unique<fg::DracoCompressedPrimitive>(); q->bufferView = 0; q->attributes.emplace_back(attr("POSITION", 77))); MUT("no draco" + x, prim(a, p).dracoCompression.reset()); }
	for (auto n : { "JOINTS_0", "WEIGHTS_0", "POSITION", "NORMAL" }) for (size_t k = 0; k < 2; ++k) { MUT(mc::fmt("remove %s %zu", n, k), auto& t = a.meshes[0].primitives[k].attributes; for (auto it = t.begin(); it != t.end(); ++it) if (std::string(it->name) == n) { std::string last(t.back().name); auto li = t.back().accessorIndex; it->name = last; it->accessorIndex = li; t.resize(t.size() - 1); return; }); }
	MUT("no targets", a.meshes[0].primitives[0].targets.clear()); MUT("skin mesh empty", a.meshes[0].primitives.clear()); MUT("skin mesh two", a.meshes[0].primitives.emplace_back().attributes.emplace_back(attr("POSITION", 0))); MUT("skin mesh two skinned", auto& t = a.meshes[0].primitives.emplace_back().attributes; t.emplace_back(attr("WEIGHTS_0", 7)); t.emplace_back(attr("JOINTS_0", 6)); t.emplace_back(attr("POSITION", 0)));
	for (size_t n : { 0, 1, 3 }) MUT(mc::fmt("variants %zu", n), a.materialVariants.assign(n, "x"));
	for (size_t i = 0; i < 5; ++i) { std::string x = mc::fmt(" of node %zu", i); for (int c = 0; c < 4; ++c) for (float v : { 1.f, -1.f, 1.01f, -1.01f, 1e30f }) if (i == 0 || i == 4 || v == 1.01f) MUT(mc::fmt("rotation %d %g", c, double(v)) + x, fg::TRS t; t.rotation = fg::math::fquat(0, 0, 0, 0); t.rotation[size_t(c)] = v; a.nodes[i].transform = t);
		MUT("matrix" + x, a.nodes[i].transform = fg::math::fmat4x4(2.f)); MUT("translation" + x, fg::TRS t; t.translation = fg::math::fvec3(1, 0, 0); a.nodes[i].transform = t); MUT("scale" + x, fg::TRS t; t.scale = fg::math::fvec3(1, 2, 1); a.nodes[i].transform = t);
		MUT("no mesh" + x, a.nodes[i].meshIndex.reset()); MUT("mesh 0" + x, a.nodes[i].meshIndex = size_t(0)); MUT("mesh 1" + x, a.nodes[i].meshIndex = size_t(1)); MUT("skin" + x, a.nodes[i].skinIndex = size_t(0)); MUT("no skin" + x, a.nodes[i].skinIndex.reset()); MUT("weights" + x, a.nodes[i].weights.emplace_back(N(1))); MUT("no weights" + x, a.nodes[i].weights.clear()); MUT("visible" + x, a.nodes[i].visible = !a.nodes[i].visible); MUT("selectable" + x, a.nodes[i].selectable = !a.nodes[i].selectable); MUT("hoverable" + x, a.nodes[i].hoverable = !a.nodes[i].hoverable); MUT("all visible", for (auto& n : a.nodes) n.visible = n.selectable = n.hoverable = true); MUT("no children" + x, a.nodes[i].children.clear()); MUT("no body" + x, a.nodes[i].physicsRigidBody.reset()); MUT("body" + x, a.nodes[i].physicsRigidBody = std::make_unique<fg::PhysicsRigidBody>()); MUT("no instancing" + x, a.nodes[i].instancingAttributes.clear()); }
	for (size_t i = 0; i < 2; ++i) for (auto f : { fg::Filter::Nearest, fg::Filter::Linear, fg::Filter::NearestMipMapNearest, fg::Filter::LinearMipMapNearest, fg::Filter::NearestMipMapLinear, fg::Filter::LinearMipMapLinear }) { MUT(mc::fmt("mag %d %zu", int(f), i), a.samplers[i].magFilter = f); MUT(mc::fmt("min %d %zu", int(f), i), a.samplers[i].minFilter = f); } MUT("no filters", for (auto& x : a.samplers) { x.magFilter.reset(); x.minFilter.reset(); });
	for (size_t i = 0; i < 2; ++i) { MUT(mc::fmt("no joints %zu", i), a.skins[i].joints.clear()); MUT(mc::fmt("one joint %zu", i), a.skins[i].joints.resize(1)); MUT(mc::fmt("scene empty %zu", i), a.scenes[i].nodeIndices.clear()); MUT(mc::fmt("no skeleton %zu", i), a.skins[i].skeleton.reset()); MUT(mc::fmt("no ibm %zu", i), a.skins[i].inverseBindMatrices.reset()); }
	for (size_t i = 0; i < 3; ++i) for (int v = 0; v < 16; ++v) MUT(mc::fmt("texture %zu %d", i, v), auto& t = a.textures[i]; t.imageIndex.reset(); t.basisuImageIndex.reset(); t.ddsImageIndex.reset(); t.webpImageIndex.reset(); if (v & 1) t.imageIndex = size_t(0); if (v & 2) t.basisuImageIndex = size_t(1); if (v & 4) t.ddsImageIndex = size_t(2); if (v & 8) t.webpImageIndex = size_t(0)); MUT("plain textures", for (auto& t : a.textures) { t.imageIndex = size_t(0); t.basisuImageIndex.reset(); t.ddsImageIndex.reset(); t.webpImageIndex.reset(); }); MUT("drop texture extensions", auto& u = a.extensionsUsed; for (size_t i = u.size(); i-- > 0;) { std::string x(u[i]); if (x == "KHR_texture_basisu" || x == "MSFT_texture_dds" || x == "EXT_texture_webp") u.erase(u.begin() + long(i)); });
	MUT("no default", a.defaultScene.reset()); MUT("default 0", a.defaultScene = size_t(0));
	auto godot = [](A& a) { a.extensionsUsed.emplace_back("GODOT_single_root"); a.scenes.resize(1); a.scenes[0].nodeIndices.clear(); a.scenes[0].nodeIndices.emplace_back(0); a.defaultScene = size_t(0); };
	MUT("godot", godot(a)); MUT("godot used", a.extensionsUsed.emplace_back("GODOT_single_root")); MUT("godot two scenes", godot(a); a.scenes.emplace_back().nodeIndices.emplace_back(0)); MUT("godot no scene", godot(a); a.scenes.clear()); MUT("godot no default", godot(a); a.defaultScene.reset()); MUT("godot default 1", godot(a); a.defaultScene = size_t(1)); MUT("godot no root", godot(a); a.scenes[0].nodeIndices.clear()); MUT("godot two roots", godot(a); a.scenes[0].nodeIndices.emplace_back(4)); MUT("godot other root", godot(a); a.scenes[0].nodeIndices[0] = 4);
	for (int v = 0; v < 8; ++v) MUT(mc::fmt("godot root %d", v), godot(a); fg::TRS t; if (v == 1) t.translation = fg::math::fvec3(0, 0, 1); if (v == 2) t.scale = fg::math::fvec3(1, 1, 2); if (v == 3) t.rotation = fg::math::fquat(1, 0, 0, 0); if (v == 4) t.scale = fg::math::fvec3(-1, 1, 1); a.nodes[0].transform = t; if (v > 4) { fg::math::fmat4x4 m(1.f); if (v == 6) m.col(3)[1] = 2; if (v == 7) m.col(1)[1] = 3; a.nodes[0].transform = m; });
	return M;
}
template <typename T> static void exact(std::vector<T>& v) { std::vector<T> w; w.reserve(v.size()); for (auto& x : v) w.push_back(std::move(x)); v.swap(w); }
static void tight(A& a) { exact(a.accessors); exact(a.animations); exact(a.buffers); exact(a.bufferViews); exact(a.cameras); exact(a.images); exact(a.lights); exact(a.materials); exact(a.meshes); exact(a.nodes); exact(a.samplers); exact(a.scenes); exact(a.skins); exact(a.textures); exact(a.shapes); exact(a.physicsMaterials); exact(a.collisionFilters); exact(a.physicsJoints); }
static void cut(A& a, unsigned section, bool all) { auto c = [&](auto& v) { if (all) v.clear(); else if (!v.empty()) v.erase(v.end() - 1); };
	switch (section) { case 0: c(a.accessors); break; case 1: c(a.bufferViews); break; case 2: c(a.buffers); break; case 3: c(a.images); break; case 4: c(a.samplers); break; case 5: c(a.textures); break; case 6: c(a.materials); break; case 7: c(a.meshes); break; case 8: c(a.nodes); break; case 9: c(a.scenes); break; case 10: c(a.skins); break; case 11: c(a.cameras); break; case 12: c(a.lights); break; case 13: c(a.animations); break; case 14: c(a.shapes); break; case 15: c(a.physicsMaterials); break; case 16: c(a.collisionFilters); break; case 17: c(a.physicsJoints); break; case 18: c(a.materialVariants); break; } }
static const unsigned SECTIONS = 19;
static void judge(const std::string& label, A& a, const std::string& note = "", std::optional<bool> expect = {}) {
	tight(a); mc::context(label); mc::step(); mc::note("%s %s", label.c_str(), note.c_str()); auto v = validity::judge(a); if (expect && *expect != v.bad.empty()) mc::die(("harness: " + label + note + ": " + v.bad).c_str());
	auto e = fg::validate(a); mc::outcome(mc::hash(v.bad + std::string(fg::getErrorName(e)))); mc::state(mc::hash(label + note)); if (v.lax && v.bad.empty()) return; mc::nontrivial();
	if (e == fg::Error::None && !v.bad.empty()) mc::fail("accepted:" + v.bad, "validate accepts, although: " + v.bad + "\n" + label + " " + note);
	if (e != fg::Error::None && v.bad.empty()) mc::fail("rejected:" + label, "validate reports " + std::string(fg::getErrorName(e)) + " for a valid asset\n" + label + " " + note);
	if (validity::judge(a).bad != v.bad || fg::validate(a) != e) mc::fail("changed:" + label, "the second validation differs");
}
static size_t value(const Field& f, const A& a, unsigned k, bool& none) { none = false; size_t n = f.size(a); switch (k) { case 0: return n; case 1: return n - 1; case 2: none = true; return 0; case 3: return size_t(1) << 32; case 4: return SIZE_MAX - 1; default: return 0; } }
static void model() {
	static const auto F = fields(); static const auto M = muts(); unsigned nF = unsigned(F.size()), nM = unsigned(M.size()); bool T = mc::thorough();
	switch (mc::choose(10)) {
		case 0: { // every index
			auto& f = F[mc::choose(nF)]; if (!mc::mine()) return; A a = validAsset(); size_t n = f.size(a); std::vector<size_t> vals; for (size_t i = 0; i < n; ++i) vals.push_back(i); for (size_t v : { n, n + 1, n + 2, n + 255, n + 256, n + 65535, n + 65536, size_t(0x7FFFFFFF), size_t(0x80000000), size_t(0xFFFFFFFF), size_t(1) << 32, (size_t(1) << 32) + 1, (size_t(1) << 32) + n, size_t(1) << 62, size_t(1) << 63, (size_t(1) << 63) + 1, SIZE_MAX - 2, SIZE_MAX - 1 }) vals.push_back(v); if (!f.optional) vals.push_back(SIZE_MAX);
			unsigned k = mc::choose(unsigned(vals.size()) + f.optional + 1); if (k < vals.size()) { f.set(a, vals[k], false); judge("index " + f.label, a, std::to_string(vals[k]), vals[k] < n ? std::optional<bool>{} : std::optional<bool>(false)); } else if (k == vals.size()) judge("unchanged", a, "", true); else { f.set(a, 0, true); judge("index " + f.label, a, "absent"); } break; }
		case 1: { // all pairs of indices
			unsigned i = mc::choose(nF), j = mc::choose(nF); if (j <= i || !mc::mine()) return; unsigned k = mc::choose(T ? 5 : 3), l = mc::choose(T ? 5 : 3); bool x, y; A a = validAsset(); size_t v = value(F[i], a, k, x), w = value(F[j], a, l, y); if ((x && !F[i].optional) || (y && !F[j].optional)) return; F[i].set(a, v, x); F[j].set(a, w, y); judge("indices", a, F[i].label + mc::fmt(" (%u) ", k) + F[j].label + mc::fmt(" (%u)", l)); break; }
		case 2: { // one change
			auto& m = M[mc::choose(nM)]; if (!mc::mine()) return; A a = validAsset(); m.f(a); judge("change", a, m.label); break; }
		case 3: { // two changes
			unsigned i = mc::choose(nM), j = mc::choose(nM); if (i == j || (!T && j < i) || !mc::mine()) return; if (!T && (i * 7919u + j * 104729u) % 4) { auto all = [](const std::string& l) { return l.rfind("type", 0) && l.rfind("component", 0) && l.rfind("min", 0) && l.rfind("max", 0) && l.rfind("count", 0) && l.rfind("stride", 0) && l.rfind("attribute", 0); }; if (!all(M[i].label) || !all(M[j].label)) return; } A a = validAsset(); M[i].f(a); if (M[j].label != M[i].label) M[j].f(a); judge("changes", a, M[i].label + ", " + M[j].label); break; }
		case 4: { // a change next to an index
			unsigned i = mc::choose(nM), j = mc::choose(nF); if (!mc::mine()) return; unsigned k = mc::choose(T ? 3 : 1); bool x; A a = validAsset(); size_t v = value(F[j], a, k, x); if (x && !F[j].optional) return; F[j].set(a, v, x); try { M[i].f(a); } catch (std::bad_variant_access&) { return; } judge("change and index", a, M[i].label + ", " + F[j].label + mc::fmt(" (%u)", k)); break; }
		case 5: { // sections shortened and emptied
			unsigned s[3]; unsigned n = mc::choose(3) + 1; for (unsigned i = 0; i < n; ++i) { s[i] = mc::choose(SECTIONS); if (i && s[i] <= s[i - 1]) return; } unsigned k = mc::choose(1u << n); if (!mc::mine()) return; A a = validAsset(); std::string l; for (unsigned i = 0; i < n; ++i) { cut(a, s[i], k >> i & 1); l += mc::fmt(" %s%u", k >> i & 1 ? "no " : "less ", s[i]); } judge("sections", a, l); break; }
		case 6: { // all subsets of the sections emptied
			unsigned b = T ? SECTIONS : 14; unsigned hi = mc::choose(1u << 7), lo = mc::choose(1u << (b - 7)); if (!mc::mine()) return; unsigned m = hi << (b - 7) | lo; A a = validAsset(); for (unsigned i = 0; i < b; ++i) if (m >> i & 1) cut(a, i, true); judge("subset", a, mc::fmt("%x", m)); break; }
		case 7: { // a change next to a shortened section
			unsigned i = mc::choose(nM), s = mc::choose(SECTIONS); bool all = mc::flip(); if (!mc::mine()) return; A a = validAsset(); M[i].f(a); cut(a, s, all); judge("change and section", a, M[i].label + mc::fmt(", %s%u", all ? "no " : "less ", s)); break; }
		case 8: { // loaded: the valid asset through the exporter, every selection of one or two categories and all but them; documents with every departure
			unsigned k = mc::choose(4);
			if (k == 0) { unsigned i = mc::choose(19), j = mc::choose(19); bool inv = mc::flip(), glb = mc::flip(); if (j < i || !mc::mine()) return; A a = validAsset(); fg::Exporter e; auto x = doExport(e, a, glb ? GLB : COMPACT); if (x.err != fg::Error::None) return mc::fail("export", std::string(fg::getErrorName(x.err))); uint32_t m = (i < 18 ? 1u << i : 0) | (j < 18 ? 1u << j : 0); if (inv) m = ~m; static const fg::Category named[] = { fg::Category::OnlyRenderable, fg::Category::OnlyAnimations, fg::Category::All }; auto cat = fg::Category(m); if (i == 18 && j == 18) cat = named[inv + 2 * glb > 2 ? 2 : inv + 2 * glb];
				fg::Parser p(ALL_EXT); auto l = load(p, x.bytes, fg::Options::None, cat); if (!l.asset) return mc::fail("reload", std::string(fg::getErrorName(l.error))); judge("selection", *l.asset, mc::fmt("categories %x", unsigned(cat)), cat == fg::Category::All || cat == fg::Category::OnlyAnimations ? std::optional<bool>(true) : std::optional<bool>{}); return; }
			static const fg::Options O = fg::Options::AllowDouble; static const DocSpace S[] = { makeSpace(docs::core(), ALL_EXT, O, 1, 1, true), makeSpace(docs::ext(), ALL_EXT, O, 1, 1, true), makeSpace(docs::phys(), ALL_EXT, O, 1, 1, true) }; auto& s = S[k - 1];
			auto [t, alt] = single(s.targets); if (!t || !mc::mine()) return; J d = s.doc; if (!spec::apply(d, *t, *alt)) return; fg::Parser p(ALL_EXT); auto l = load(p, jtext(d), O); if (l.asset) judge("document", *l.asset, t->label); break; }
		case 9: { // assets of few objects
			static const auto K = kinds(); static const auto fill = [](A& a, unsigned f) { if (f == 0) return; for (auto& k : K) { k.add(a); if (f > 1) k.add(a); } };
			auto& k = K[mc::choose(unsigned(K.size()))]; unsigned f = mc::choose(2), n = unsigned(k.parts.size()), i = mc::choose(n + 1), j = mc::choose(n + 1); if (j < i || !mc::mine()) return; A a = fresh(); fill(a, f); k.add(a); if (i < n) k.parts[i].f(a); if (j < n) k.parts[j].f(a); judge("built " + k.name, a, mc::fmt("%u ", f) + (i < n ? k.parts[i].label : "") + ", " + (j < n ? k.parts[j].label : "")); break; }
	}
}
MC_MAIN(model)

// Our own notion of a valid asset: no dangling index, and the structural rules validate() documents.
// `bad`: the first rule broken ("" if none); `lax`: something neither the rules nor the code decide.
#pragma once
#include "load.hpp"
#include <functional>
struct Validity { std::string bad; bool lax = false; };
namespace validity {
using CT = fg::ComponentType; using AT = fg::AccessorType;
inline size_t width(CT c) { switch (c) { case CT::Byte: case CT::UnsignedByte: return 1; case CT::Short: case CT::UnsignedShort: return 2; case CT::Float: case CT::UnsignedInt: case CT::Int: return 4; case CT::Double: return 8; default: return 0; } }
inline size_t components(AT t) { switch (t) { case AT::Scalar: return 1; case AT::Vec2: return 2; case AT::Vec3: return 3; case AT::Vec4: case AT::Mat2: return 4; case AT::Mat3: return 9; case AT::Mat4: return 16; default: return 0; } }
inline Validity judge(const fg::Asset& a) {
	Validity r; auto rule = [&](bool ok, const char* w) { if (!ok && r.bad.empty()) r.bad = w; }; auto lax = [&](bool l) { if (l) r.lax = true; };
	auto idx = [&](size_t i, size_t n, const char* w) { rule(i < n, w); return i < n; };
	auto opt = [&](const auto& o, size_t n, const char* w) { if (o.has_value()) return idx(*o, n, w); return true; };
	std::set<std::string> used; for (auto& e : a.extensionsUsed) used.insert(std::string(e)); auto ext = [&](const char* e) { return used.count(e) > 0; };
	for (auto& e : a.extensionsRequired) rule(used.count(std::string(e)) > 0, "required extension not used"); lax(a.extensionsRequired.size() > a.extensionsUsed.size());
	size_t nAcc = a.accessors.size(), nView = a.bufferViews.size(), nBuf = a.buffers.size(), nNode = a.nodes.size(), nTex = a.textures.size(), nMat = a.materials.size(), nImg = a.images.size();
	for (auto& x : a.accessors) {
		size_t w = width(x.componentType), n = components(x.type); rule(w, "component type"); rule(n, "accessor type"); rule(x.count >= 1, "accessor count"); if (!w || !n) continue;
		rule(x.byteOffset % w == 0, "accessor alignment"); lax(x.componentType == CT::Int);
		if (opt(x.bufferViewIndex, nView, "accessor view") && x.bufferViewIndex.has_value()) { auto& v = a.bufferViews[*x.bufferViewIndex]; rule((x.byteOffset % w + v.byteOffset % w) % w == 0, "accessor alignment in buffer"); if (v.byteStride.has_value()) rule(*v.byteStride % w == 0, "stride alignment"); }
		auto bound = [&](const auto& b) { if (!b.has_value()) return; rule(b->size() == n, "bounds size"); if (x.componentType == CT::Float || x.componentType == CT::Double) rule(b->template isType<double>(), "bounds type"); else lax(!b->template isType<std::int64_t>()); }; bound(x.min); bound(x.max);
		if (x.sparse.has_value()) for (size_t i : { x.sparse->indicesBufferView, x.sparse->valuesBufferView }) if (idx(i, nView, "sparse view")) { rule(!a.bufferViews[i].byteStride.has_value(), "sparse view stride"); rule(!a.bufferViews[i].target.has_value(), "sparse view target"); }
	}
	for (auto& n : a.animations) {
		rule(!n.channels.empty(), "no channels"); rule(!n.samplers.empty(), "no samplers"); std::set<std::pair<size_t, int>> targets;
		for (auto& s : n.samplers) { idx(s.inputAccessor, nAcc, "animation input"); idx(s.outputAccessor, nAcc, "animation output"); }
		for (auto& c : n.channels) {
			if (c.nodeIndex.has_value()) { if (nNode) idx(*c.nodeIndex, nNode, "channel node"); rule(targets.insert({ *c.nodeIndex, int(c.path) }).second, "two channels with one target"); }
			if (!idx(c.samplerIndex, n.samplers.size(), "channel sampler")) continue; auto& s = n.samplers[c.samplerIndex]; if (s.inputAccessor >= nAcc || s.outputAccessor >= nAcc) continue; auto &in = a.accessors[s.inputAccessor], &out = a.accessors[s.outputAccessor];
			rule(in.type == AT::Scalar && (in.componentType == CT::Float || in.componentType == CT::Double), "animation input type");
			auto compressed = [&](const fg::Accessor& x) { return x.bufferViewIndex.has_value() && *x.bufferViewIndex < nView && a.bufferViews[*x.bufferViewIndex].meshoptCompression != nullptr; };
			if (compressed(in) || compressed(out) || c.path == fg::AnimationPath::Weights || in.count == 0) continue; lax(in.count > SIZE_MAX / 3);
			if (s.interpolation == fg::AnimationInterpolation::CubicSpline) { rule(in.count >= 2, "cubic spline with one key"); if (in.count <= SIZE_MAX / 3) rule(out.count == in.count * 3, "animation counts"); } else rule(out.count == in.count, "animation counts");
		}
	}
	for (auto& b : a.buffers) rule(b.byteLength >= 1, "buffer length");
	for (auto& v : a.bufferViews) {
		rule(v.byteLength >= 1, "view length"); idx(v.bufferIndex, nBuf, "view buffer"); if (v.byteStride.has_value()) rule(*v.byteStride >= 4 && *v.byteStride <= 252 && *v.byteStride % 4 == 0, "view stride");
		if (auto* m = v.meshoptCompression.get()) { rule(ext("EXT_meshopt_compression"), "meshopt extension"); idx(m->bufferIndex, nBuf, "meshopt buffer"); size_t s = m->byteStride; using M = fg::MeshoptCompressionMode;
			if (m->mode == M::Attributes) { rule(s % 4 == 0 && s <= 256, "meshopt stride"); lax(s == 0); } else { rule(s == 2 || s == 4, "meshopt index size"); if (m->mode == M::Triangles) rule(m->count % 3 == 0, "meshopt triangles"); } }
	}
	for (auto& c : a.cameras) { if (auto* o = std::get_if<fg::Camera::Orthographic>(&c.camera)) rule(o->zfar != 0, "camera"); else { auto& p = std::get<fg::Camera::Perspective>(c.camera); rule(p.yfov != 0 && p.znear != 0 && (!p.zfar.has_value() || *p.zfar != 0) && (!p.aspectRatio.has_value() || *p.aspectRatio != 0), "camera"); } }
	for (auto& i : a.images) if (auto* v = std::get_if<fg::sources::BufferView>(&i.data)) idx(v->bufferViewIndex, nView, "image view");
	for (auto& l : a.lights) {
		if (l.range.has_value()) rule(l.type != fg::LightType::Directional && *l.range > 0, "light range"); bool in = l.innerConeAngle.has_value(), out = l.outerConeAngle.has_value();
		if (l.type != fg::LightType::Spot) rule(!in && !out, "cone of another light"); else { lax(!in || !out); if (in) rule(*l.innerConeAngle >= 0, "inner cone"); if (out) rule(double(*l.outerConeAngle) <= 1.5707964, "outer cone"); if (in && out) { rule(*l.innerConeAngle <= *l.outerConeAngle, "cones"); lax(*l.innerConeAngle == *l.outerConeAngle); } }
	}
	for (auto& m : a.materials) {
		auto t = [&](const auto& x) { if (x.has_value()) idx(x->textureIndex, nTex, "material texture"); }; auto need = [&](bool has, const char* e) { if (has) rule(ext(e), e); };
		t(m.normalTexture); t(m.occlusionTexture); t(m.emissiveTexture); t(m.pbrData.baseColorTexture); t(m.pbrData.metallicRoughnessTexture); t(m.packedNormalMetallicRoughnessTexture);
		if (auto* x = m.anisotropy.get()) t(x->anisotropyTexture); if (auto* x = m.clearcoat.get()) { t(x->clearcoatTexture); t(x->clearcoatRoughnessTexture); t(x->clearcoatNormalTexture); } if (auto* x = m.diffuseTransmission.get()) { t(x->diffuseTransmissionTexture); t(x->diffuseTransmissionColorTexture); }
		if (auto* x = m.iridescence.get()) { t(x->iridescenceTexture); t(x->iridescenceThicknessTexture); } if (auto* x = m.sheen.get()) { t(x->sheenColorTexture); t(x->sheenRoughnessTexture); } if (auto* x = m.specular.get()) { t(x->specularTexture); t(x->specularColorTexture); }
		if (auto* x = m.specularGlossiness.get()) { t(x->diffuseTexture); t(x->specularGlossinessTexture); } if (auto* x = m.transmission.get()) t(x->transmissionTexture); if (auto* x = m.volume.get()) t(x->thicknessTexture); if (auto* x = m.packedOcclusionRoughnessMetallicTextures.get()) { t(x->occlusionRoughnessMetallicTexture); t(x->roughnessMetallicOcclusionTexture); t(x->normalTexture); }
		need(!!m.anisotropy, "KHR_materials_anisotropy"); need(!!m.clearcoat, "KHR_materials_clearcoat"); need(!!m.diffuseTransmission, "KHR_materials_diffuse_transmission"); need(!!m.iridescence, "KHR_materials_iridescence"); need(!!m.sheen, "KHR_materials_sheen"); need(!!m.specular, "KHR_materials_specular"); need(!!m.specularGlossiness, "KHR_materials_pbrSpecularGlossiness"); need(!!m.transmission, "KHR_materials_transmission"); need(!!m.volume, "KHR_materials_volume");
		need(m.emissiveStrength != fg::num(1), "KHR_materials_emissive_strength"); need(m.ior != fg::num(1.5), "KHR_materials_ior"); need(m.packedNormalMetallicRoughnessTexture.has_value(), "MSFT_packing_normalRoughnessMetallic"); need(!!m.packedOcclusionRoughnessMetallicTextures, "MSFT_packing_occlusionRoughnessMetallic");
		lax((m.unlit && !ext("KHR_materials_unlit")) || (m.dispersion != fg::num(0) && !ext("KHR_materials_dispersion")));
	}
	bool quant = ext("KHR_mesh_quantization"); auto begins = [](const std::string& s, const char* p) { return s.rfind(p, 0) == 0; };
	for (auto& mesh : a.meshes) for (auto& p : mesh.primitives) {
		opt(p.materialIndex, nMat, "primitive material"); if (!p.mappings.empty()) { rule(ext("KHR_materials_variants"), "variants extension"); rule(p.mappings.size() == a.materialVariants.size(), "mappings size"); for (auto& m : p.mappings) opt(m, nMat, "mapping material"); }
		if (opt(p.indicesAccessor, nAcc, "primitive indices") && p.indicesAccessor.has_value()) { auto& x = a.accessors[*p.indicesAccessor]; if (x.bufferViewIndex.has_value() && *x.bufferViewIndex < nView) rule(!a.bufferViews[*x.bufferViewIndex].byteStride.has_value(), "stride of the indices"); }
		if (p.dracoCompression) idx(p.dracoCompression->bufferView, nView, "draco view"); for (auto& t : p.targets) for (auto& x : t) idx(x.accessorIndex, nAcc, "morph target");
		for (auto& at : p.attributes) {
			std::string n(at.name); if (!idx(at.accessorIndex, nAcc, "attribute")) { continue; } auto& x = a.accessors[at.accessorIndex]; auto c = x.componentType; auto t = x.type;
			if (begins(n, "_")) rule(c != CT::UnsignedInt, "custom attribute type");
			else if (n == "POSITION") { rule(t == AT::Vec3 && x.min.has_value() && x.max.has_value(), "POSITION"); rule(quant ? c != CT::Double && c != CT::UnsignedInt : c == CT::Float, "POSITION type"); }
			else if (n == "NORMAL" || n == "TANGENT") { rule(t == (n == "NORMAL" ? AT::Vec3 : AT::Vec4), "NORMAL/TANGENT"); rule(c == CT::Float || (quant && (c == CT::Short || c == CT::Byte)), "NORMAL/TANGENT type"); }
			else if (begins(n, "TEXCOORD_")) { rule(t == AT::Vec2, "TEXCOORD"); rule(quant ? c != CT::Double && c != CT::UnsignedInt : c == CT::Float || c == CT::UnsignedByte || c == CT::UnsignedShort, "TEXCOORD type"); }
			else if (begins(n, "COLOR_")) { rule(t == AT::Vec3 || t == AT::Vec4, "COLOR"); rule(c == CT::Float || c == CT::UnsignedByte || c == CT::UnsignedShort, "COLOR type"); }
			else if (begins(n, "JOINTS_")) { rule(t == AT::Vec4, "JOINTS"); rule(c == CT::UnsignedByte || c == CT::UnsignedShort, "JOINTS type"); }
			else if (begins(n, "WEIGHTS_")) { rule(t == AT::Vec4, "WEIGHTS"); rule(c == CT::Float || c == CT::UnsignedByte || c == CT::UnsignedShort, "WEIGHTS type"); }
			else rule(false, "unknown attribute");
		}
	}
	for (auto& n : a.nodes) {
		opt(n.cameraIndex, a.cameras.size(), "node camera"); opt(n.skinIndex, a.skins.size(), "node skin"); opt(n.meshIndex, a.meshes.size(), "node mesh"); opt(n.lightIndex, a.lights.size(), "node light"); for (auto& c : n.children) idx(c, nNode, "node child"); for (auto& t : n.instancingAttributes) idx(t.accessorIndex, nAcc, "instancing");
		if (n.physicsRigidBody) { auto& b = *n.physicsRigidBody; auto geo = [&](const fg::Geometry& g) { if (!a.shapes.empty()) opt(g.shape, a.shapes.size(), "shape"); opt(g.node, nNode, "geometry node"); };
			if (b.collider.has_value()) { geo(b.collider->geometry); opt(b.collider->physicsMaterial, a.physicsMaterials.size(), "physics material"); opt(b.collider->collisionFilter, a.collisionFilters.size(), "collision filter"); }
			if (b.trigger.has_value()) { if (auto* g = std::get_if<fg::GeometryTrigger>(&*b.trigger)) { geo(g->geometry); opt(g->collisionFilter, a.collisionFilters.size(), "trigger filter"); } else for (auto& t : std::get<fg::NodeTrigger>(*b.trigger).nodes) idx(t, nNode, "trigger node"); }
			if (b.joint.has_value()) { idx(b.joint->connectedNode, nNode, "joint node"); idx(b.joint->joint, a.physicsJoints.size(), "joint"); } }
		if (auto* t = std::get_if<fg::TRS>(&n.transform)) for (size_t i = 0; i < 4; ++i) { float v = t->rotation[i]; rule(!(v > 1) && !(v < -1), "rotation"); lax(v != v); }
		if (n.skinIndex.has_value() || !n.weights.empty()) { rule(n.meshIndex.has_value(), "skin or weights without mesh"); if (n.skinIndex.has_value() && n.meshIndex.has_value() && *n.meshIndex < a.meshes.size()) for (auto& p : a.meshes[*n.meshIndex].primitives) { bool j = false, w = false; for (auto& t : p.attributes) { j |= t.name == "JOINTS_0"; w |= t.name == "WEIGHTS_0"; } rule(j && w, "skin without joints"); } }
		rule(n.visible || ext("KHR_node_visibility"), "visibility"); rule(n.selectable || ext("KHR_node_selectability"), "selectability"); rule(n.hoverable || ext("KHR_node_hoverability"), "hoverability");
	}
	{ std::vector<int> parents(nNode, 0); for (auto& n : a.nodes) for (auto& c : n.children) if (c < nNode) { lax(++parents[c] > 1); } // neither decides about graphs which are not trees
		for (size_t i = 0; i < nNode; ++i) { std::vector<size_t> todo{ i }; std::set<size_t> seen; while (!todo.empty()) { auto k = todo.back(); todo.pop_back(); for (auto& c : a.nodes[k].children) { lax(c == i); if (c < nNode && seen.insert(c).second) todo.push_back(c); } } } }
	for (auto& s : a.samplers) if (s.magFilter.has_value()) rule(*s.magFilter == fg::Filter::Nearest || *s.magFilter == fg::Filter::Linear, "magnification filter");
	if (!a.scenes.empty()) opt(a.defaultScene, a.scenes.size(), "default scene"); for (auto& s : a.scenes) for (auto& n : s.nodeIndices) idx(n, nNode, "scene node");
	for (auto& s : a.skins) { rule(!s.joints.empty(), "skin joints"); for (auto& j : s.joints) idx(j, nNode, "skin joint"); opt(s.skeleton, nNode, "skeleton"); opt(s.inverseBindMatrices, nAcc, "inverse bind matrices"); }
	for (auto& t : a.textures) { opt(t.samplerIndex, a.samplers.size(), "texture sampler"); opt(t.imageIndex, nImg, "texture image"); opt(t.basisuImageIndex, nImg, "basisu image"); opt(t.ddsImageIndex, nImg, "dds image"); opt(t.webpImageIndex, nImg, "webp image");
		bool e = ext("KHR_texture_basisu") || ext("MSFT_texture_dds") || ext("EXT_texture_webp"); rule(t.imageIndex.has_value() || (e && (t.basisuImageIndex.has_value() || t.ddsImageIndex.has_value() || t.webpImageIndex.has_value())), "texture without image"); }
	if (ext("GODOT_single_root")) { rule(a.scenes.size() == 1, "single scene"); rule(a.defaultScene.has_value() && *a.defaultScene == 0, "single scene default"); if (a.scenes.size() == 1) { auto& s = a.scenes[0].nodeIndices; rule(s.size() == 1 && s[0] == 0, "single root"); } rule(nNode, "single root exists");
		if (nNode) { if (auto* t = std::get_if<fg::TRS>(&a.nodes[0].transform)) rule(t->translation == fg::math::fvec3(0) && t->scale == fg::math::fvec3(1) && t->rotation.x() == 0 && t->rotation.y() == 0 && t->rotation.z() == 0 && t->rotation.w() == 1, "root transform"); else { auto& m = std::get<fg::math::fmat4x4>(a.nodes[0].transform); for (size_t c = 0; c < 4; ++c) for (size_t i = 0; i < 4; ++i) rule(m.col(c)[i] == (c == i ? 1.f : 0.f), "root transform"); } } }
	return r;
}
}

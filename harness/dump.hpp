// Prints a loaded Asset as the same canonical "path=value" lines spec::interpret() produces for the document.
#pragma once
#include "spec.hpp"

namespace dump {
namespace fg = fastgltf;
using Out = std::map<std::string, std::string>;
using spec::u; using spec::f9;
struct D {
	Out o; fg::Extensions ext;
	bool has(fg::Extensions e) const { return (static_cast<uint64_t>(ext) & static_cast<uint64_t>(e)) != 0; }
	void put(const std::string& p, const std::string& v) { if (v == "0" && p.size() > 2 && p.compare(p.size() - 2, 2, "/#") == 0) return; o[p] = v; }
	template <typename T> void opt(const std::string& p, const T& v) { if (v.has_value()) put(p, std::to_string(*v)); }
	template <typename T> void optn(const std::string& p, const T& v) { if (v.has_value()) put(p, f9(*v)); }
	template <typename V> void nums(const std::string& p, const V& v) { put(p + "/#", u(v.size())); for (size_t i = 0; i < v.size(); ++i) put(p + "/" + u(i), f9(v[i])); }
	template <typename V> void idxs(const std::string& p, const V& v) { put(p + "/#", u(v.size())); for (size_t i = 0; i < v.size(); ++i) put(p + "/" + u(i), u(v[i])); }
	template <typename V> void strs(const std::string& p, const V& v) { put(p + "/#", u(v.size())); for (size_t i = 0; i < v.size(); ++i) put(p + "/" + u(i), std::string(v[i])); }
	template <typename V> void attrs(const std::string& p, const V& v) { put(p + "/#", u(v.size())); for (size_t i = 0; i < v.size(); ++i) put(p + "/" + std::string(v[i].name), u(v[i].accessorIndex)); }
	template <typename T, size_t N> void vec(const std::string& p, const fg::math::vec<T, N>& v) { for (size_t i = 0; i < N; ++i) put(p + "/" + u(i), f9(v[i])); }
	void b(const std::string& p, bool v) { put(p, v ? "true" : "false"); }
	void tex1(const std::string& p, const fg::TextureInfo& t) {
		put(p, "{}"); put(p + "/index", u(t.textureIndex)); put(p + "/texCoord", u(t.texCoordIndex));
		if (t.transform) { auto q = p + "/extensions/KHR_texture_transform"; put(q, "{}"); opt(q + "/texCoord", t.transform->texCoordIndex); put(q + "/rotation", f9(t.transform->rotation)); vec(q + "/offset", t.transform->uvOffset); vec(q + "/scale", t.transform->uvScale); }
	}
	void tex(const std::string& p, const fg::Optional<fg::TextureInfo>& t) { if (t.has_value()) tex1(p, *t); }
	void texN(const std::string& p, const fg::Optional<fg::NormalTextureInfo>& t) { if (t.has_value()) { tex1(p, *t); put(p + "/scale", f9(t->scale)); } }
	static std::string mime(fg::MimeType m) { static const char* n[] = { "none", "image/jpeg", "image/png", "image/ktx2", "image/vnd-ms.dds", "application/gltf-buffer", "application/octet-stream", "image/webp" }; auto i = static_cast<unsigned>(m); return i < 8 ? n[i] : "?" + u(i); }
	static std::string hexs(const std::byte* d, size_t n) { std::string h; for (size_t i = 0; i < n; ++i) { char x[4]; snprintf(x, 4, "%02x", unsigned(d[i])); h += x; } return h; }
	std::string source(const fg::DataSource& s) {
		return std::visit([&](auto& a) -> std::string { using T = std::decay_t<decltype(a)>;
			if constexpr (std::is_same_v<T, fg::sources::URI>) return "uri:" + std::string(a.uri.string()) + (a.fileByteOffset ? " offset:" + u(a.fileByteOffset) : "") + " mime:" + mime(a.mimeType);
			else if constexpr (std::is_same_v<T, fg::sources::BufferView>) return "view:" + u(a.bufferViewIndex) + " mime:" + mime(a.mimeType);
			else if constexpr (std::is_same_v<T, fg::sources::Array> || std::is_same_v<T, fg::sources::Vector> || std::is_same_v<T, fg::sources::ByteView>) return "bytes:" + hexs(a.bytes.data(), a.bytes.size()) + " mime:" + mime(a.mimeType);
			else if constexpr (std::is_same_v<T, fg::sources::CustomBuffer>) return "custom:" + u(a.id) + " mime:" + mime(a.mimeType);
			else if constexpr (std::is_same_v<T, fg::sources::Fallback>) return "fallback";
			else return "none";
		}, s);
	}
};
inline std::string en(unsigned v, std::initializer_list<const char*> n) { return v < n.size() ? n.begin()[v] : "?" + u(v); }

inline Out asset(const fg::Asset& a, fg::Extensions ext, bool variantsResized = true) {
	using E = fg::Extensions; D d; d.ext = ext; auto idx = [](const std::string& s, size_t i) { return s + "/" + u(i); };
	if (a.assetInfo.has_value()) { d.put("asset/version", std::string(a.assetInfo->gltfVersion)); d.put("asset/copyright", std::string(a.assetInfo->copyright)); d.put("asset/generator", std::string(a.assetInfo->generator)); }
	d.strs("extensionsRequired", a.extensionsRequired); d.strs("extensionsUsed", a.extensionsUsed); d.opt("scene", a.defaultScene);
	d.put("accessors/#", u(a.accessors.size()));
	for (size_t i = 0; i < a.accessors.size(); ++i) { auto& x = a.accessors[i]; auto p = idx("accessors", i);
		static const std::map<unsigned, const char*> tn{ { unsigned(fg::AccessorType::Scalar), "SCALAR" }, { unsigned(fg::AccessorType::Vec2), "VEC2" }, { unsigned(fg::AccessorType::Vec3), "VEC3" }, { unsigned(fg::AccessorType::Vec4), "VEC4" }, { unsigned(fg::AccessorType::Mat2), "MAT2" }, { unsigned(fg::AccessorType::Mat3), "MAT3" }, { unsigned(fg::AccessorType::Mat4), "MAT4" } };
		static const std::map<unsigned, const char*> cn{ { unsigned(fg::ComponentType::Byte), "5120" }, { unsigned(fg::ComponentType::UnsignedByte), "5121" }, { unsigned(fg::ComponentType::Short), "5122" }, { unsigned(fg::ComponentType::UnsignedShort), "5123" }, { unsigned(fg::ComponentType::Int), "5124" }, { unsigned(fg::ComponentType::UnsignedInt), "5125" }, { unsigned(fg::ComponentType::Float), "5126" }, { unsigned(fg::ComponentType::Double), "5130" } };
		auto t = tn.find(unsigned(x.type)); d.put(p + "/type", t == tn.end() ? "?" : t->second); auto c = cn.find(unsigned(x.componentType)); d.put(p + "/componentType", c == cn.end() ? "?" : c->second);
		d.put(p + "/count", u(x.count)); d.opt(p + "/bufferView", x.bufferViewIndex); d.put(p + "/byteOffset", u(x.byteOffset)); d.b(p + "/normalized", x.normalized); d.put(p + "/name", std::string(x.name));
		auto bounds = [&](const char* k, const std::optional<fg::AccessorBoundsArray>& b) { if (!b) return; d.put(p + "/" + k + "/#", u(b->size())); for (size_t j = 0; j < b->size(); ++j) { char s[64]; if (b->isType<double>()) snprintf(s, sizeof s, "f%.17g", b->get<double>(j)); else snprintf(s, sizeof s, "i%lld", static_cast<long long>(b->get<std::int64_t>(j))); d.put(p + "/" + k + "/" + u(j), s); } };
		bounds("min", x.min); bounds("max", x.max);
		if (x.sparse.has_value()) { auto& s = *x.sparse; auto q = p + "/sparse"; d.put(q, "{}"); d.put(q + "/count", u(s.count)); d.put(q + "/indices/bufferView", u(s.indicesBufferView)); d.put(q + "/indices/byteOffset", u(s.indicesByteOffset)); auto ic = cn.find(unsigned(s.indexComponentType)); d.put(q + "/indices/componentType", ic == cn.end() ? "?" : ic->second); d.put(q + "/values/bufferView", u(s.valuesBufferView)); d.put(q + "/values/byteOffset", u(s.valuesByteOffset)); }
	}
	d.put("animations/#", u(a.animations.size()));
	for (size_t i = 0; i < a.animations.size(); ++i) { auto& x = a.animations[i]; auto p = idx("animations", i); d.put(p + "/name", std::string(x.name));
		d.put(p + "/channels/#", u(x.channels.size()));
		for (size_t j = 0; j < x.channels.size(); ++j) { auto q = idx(p + "/channels", j); auto& c = x.channels[j]; d.put(q + "/sampler", u(c.samplerIndex)); d.opt(q + "/target/node", c.nodeIndex); d.put(q + "/target/path", en(unsigned(c.path), { "?0", "translation", "rotation", "scale", "weights" })); }
		d.put(p + "/samplers/#", u(x.samplers.size()));
		for (size_t j = 0; j < x.samplers.size(); ++j) { auto q = idx(p + "/samplers", j); auto& s = x.samplers[j]; d.put(q + "/input", u(s.inputAccessor)); d.put(q + "/output", u(s.outputAccessor)); d.put(q + "/interpolation", en(unsigned(s.interpolation), { "LINEAR", "STEP", "CUBICSPLINE" })); } }
	d.put("buffers/#", u(a.buffers.size()));
	for (size_t i = 0; i < a.buffers.size(); ++i) { auto& x = a.buffers[i]; auto p = idx("buffers", i); d.put(p + "/byteLength", u(x.byteLength)); d.put(p + "/name", std::string(x.name)); d.put(p + "/source", d.source(x.data)); }
	d.put("bufferViews/#", u(a.bufferViews.size()));
	for (size_t i = 0; i < a.bufferViews.size(); ++i) { auto& x = a.bufferViews[i]; auto p = idx("bufferViews", i); d.put(p + "/buffer", u(x.bufferIndex)); d.put(p + "/byteOffset", u(x.byteOffset)); d.put(p + "/byteLength", u(x.byteLength)); d.opt(p + "/byteStride", x.byteStride); if (x.target.has_value()) d.put(p + "/target", u(static_cast<unsigned>(*x.target))); d.put(p + "/name", std::string(x.name));
		if (x.meshoptCompression) { auto& m = *x.meshoptCompression; auto q = p + "/extensions/EXT_meshopt_compression"; d.put(q, "{}"); d.put(q + "/buffer", u(m.bufferIndex)); d.put(q + "/byteOffset", u(m.byteOffset)); d.put(q + "/byteLength", u(m.byteLength)); d.put(q + "/byteStride", u(m.byteStride)); d.put(q + "/count", u(m.count)); d.put(q + "/mode", en(unsigned(m.mode), { "ATTRIBUTES", "TRIANGLES", "INDICES" })); d.put(q + "/filter", en(unsigned(m.filter), { "NONE", "OCTAHEDRAL", "QUATERNION", "EXPONENTIAL" })); } }
	d.put("cameras/#", u(a.cameras.size()));
	for (size_t i = 0; i < a.cameras.size(); ++i) { auto& x = a.cameras[i]; auto p = idx("cameras", i); d.put(p + "/name", std::string(x.name));
		if (auto* c = std::get_if<fg::Camera::Perspective>(&x.camera)) { d.put(p + "/type", "perspective"); auto q = p + "/perspective"; d.optn(q + "/aspectRatio", c->aspectRatio); d.put(q + "/yfov", f9(c->yfov)); d.optn(q + "/zfar", c->zfar); d.put(q + "/znear", f9(c->znear)); }
		else { auto* o = std::get_if<fg::Camera::Orthographic>(&x.camera); d.put(p + "/type", "orthographic"); auto q = p + "/orthographic"; d.put(q + "/xmag", f9(o->xmag)); d.put(q + "/ymag", f9(o->ymag)); d.put(q + "/zfar", f9(o->zfar)); d.put(q + "/znear", f9(o->znear)); } }
	d.put("images/#", u(a.images.size()));
	for (size_t i = 0; i < a.images.size(); ++i) { auto p = idx("images", i); d.put(p + "/name", std::string(a.images[i].name)); d.put(p + "/source", d.source(a.images[i].data)); }
	d.put("extensions/KHR_lights_punctual/lights/#", u(a.lights.size()));
	for (size_t i = 0; i < a.lights.size(); ++i) { auto& x = a.lights[i]; auto p = idx("extensions/KHR_lights_punctual/lights", i); d.put(p + "/type", en(unsigned(x.type), { "directional", "spot", "point" })); d.vec(p + "/color", x.color); d.put(p + "/intensity", f9(x.intensity)); d.optn(p + "/range", x.range); d.optn(p + "/spot/innerConeAngle", x.innerConeAngle); d.optn(p + "/spot/outerConeAngle", x.outerConeAngle); d.put(p + "/name", std::string(x.name)); }
	d.put("materials/#", u(a.materials.size()));
	for (size_t i = 0; i < a.materials.size(); ++i) { auto& x = a.materials[i]; auto p = idx("materials", i);
		d.vec(p + "/emissiveFactor", x.emissiveFactor); d.texN(p + "/normalTexture", x.normalTexture); if (x.occlusionTexture.has_value()) { d.tex1(p + "/occlusionTexture", *x.occlusionTexture); d.put(p + "/occlusionTexture/strength", f9(x.occlusionTexture->strength)); } d.tex(p + "/emissiveTexture", x.emissiveTexture);
		auto q = p + "/pbrMetallicRoughness"; d.vec(q + "/baseColorFactor", x.pbrData.baseColorFactor); d.put(q + "/metallicFactor", f9(x.pbrData.metallicFactor)); d.put(q + "/roughnessFactor", f9(x.pbrData.roughnessFactor)); d.tex(q + "/baseColorTexture", x.pbrData.baseColorTexture); d.tex(q + "/metallicRoughnessTexture", x.pbrData.metallicRoughnessTexture);
		d.put(p + "/alphaMode", en(unsigned(x.alphaMode), { "OPAQUE", "MASK", "BLEND" })); d.put(p + "/alphaCutoff", f9(x.alphaCutoff)); d.b(p + "/doubleSided", x.doubleSided); d.put(p + "/name", std::string(x.name));
		auto e = p + "/extensions/"; auto f = [&](const std::string& n, fg::num v) { d.put(n, f9(v)); };
		if (x.anisotropy) { q = e + "KHR_materials_anisotropy"; d.put(q, "{}"); f(q + "/anisotropyStrength", x.anisotropy->anisotropyStrength); f(q + "/anisotropyRotation", x.anisotropy->anisotropyRotation); d.tex(q + "/anisotropyTexture", x.anisotropy->anisotropyTexture); }
		if (x.clearcoat) { q = e + "KHR_materials_clearcoat"; d.put(q, "{}"); f(q + "/clearcoatFactor", x.clearcoat->clearcoatFactor); d.tex(q + "/clearcoatTexture", x.clearcoat->clearcoatTexture); f(q + "/clearcoatRoughnessFactor", x.clearcoat->clearcoatRoughnessFactor); d.tex(q + "/clearcoatRoughnessTexture", x.clearcoat->clearcoatRoughnessTexture); d.texN(q + "/clearcoatNormalTexture", x.clearcoat->clearcoatNormalTexture); }
		f(e + "KHR_materials_dispersion/dispersion", x.dispersion); f(e + "KHR_materials_emissive_strength/emissiveStrength", x.emissiveStrength); f(e + "KHR_materials_ior/ior", x.ior);
		if (x.iridescence) { auto& r = *x.iridescence; q = e + "KHR_materials_iridescence"; d.put(q, "{}"); f(q + "/iridescenceFactor", r.iridescenceFactor); d.tex(q + "/iridescenceTexture", r.iridescenceTexture); f(q + "/iridescenceIor", r.iridescenceIor); f(q + "/iridescenceThicknessMinimum", r.iridescenceThicknessMinimum); f(q + "/iridescenceThicknessMaximum", r.iridescenceThicknessMaximum); d.tex(q + "/iridescenceThicknessTexture", r.iridescenceThicknessTexture); }
		if (x.diffuseTransmission) { auto& r = *x.diffuseTransmission; q = e + "KHR_materials_diffuse_transmission"; d.put(q, "{}"); f(q + "/diffuseTransmissionFactor", r.diffuseTransmissionFactor); d.tex(q + "/diffuseTransmissionTexture", r.diffuseTransmissionTexture); d.vec(q + "/diffuseTransmissionColorFactor", r.diffuseTransmissionColorFactor); d.tex(q + "/diffuseTransmissionColorTexture", r.diffuseTransmissionColorTexture); }
		if (x.sheen) { auto& r = *x.sheen; q = e + "KHR_materials_sheen"; d.put(q, "{}"); d.vec(q + "/sheenColorFactor", r.sheenColorFactor); d.tex(q + "/sheenColorTexture", r.sheenColorTexture); f(q + "/sheenRoughnessFactor", r.sheenRoughnessFactor); d.tex(q + "/sheenRoughnessTexture", r.sheenRoughnessTexture); }
		if (x.specular) { auto& r = *x.specular; q = e + "KHR_materials_specular"; d.put(q, "{}"); f(q + "/specularFactor", r.specularFactor); d.tex(q + "/specularTexture", r.specularTexture); d.vec(q + "/specularColorFactor", r.specularColorFactor); d.tex(q + "/specularColorTexture", r.specularColorTexture); }
		if (x.transmission) { q = e + "KHR_materials_transmission"; d.put(q, "{}"); f(q + "/transmissionFactor", x.transmission->transmissionFactor); d.tex(q + "/transmissionTexture", x.transmission->transmissionTexture); }
		d.b(e + "KHR_materials_unlit", x.unlit);
		if (x.volume) { auto& r = *x.volume; q = e + "KHR_materials_volume"; d.put(q, "{}"); f(q + "/thicknessFactor", r.thicknessFactor); d.tex(q + "/thicknessTexture", r.thicknessTexture); f(q + "/attenuationDistance", r.attenuationDistance); d.vec(q + "/attenuationColor", r.attenuationColor); }
		d.tex(e + "MSFT_packing_normalRoughnessMetallic/normalRoughnessMetallicTexture", x.packedNormalMetallicRoughnessTexture);
		if (x.packedOcclusionRoughnessMetallicTextures) { auto& r = *x.packedOcclusionRoughnessMetallicTextures; q = e + "MSFT_packing_occlusionRoughnessMetallic"; d.put(q, "{}"); d.tex(q + "/occlusionRoughnessMetallicTexture", r.occlusionRoughnessMetallicTexture); d.tex(q + "/roughnessMetallicOcclusionTexture", r.roughnessMetallicOcclusionTexture); d.tex(q + "/normalTexture", r.normalTexture); }
		if (x.specularGlossiness) { auto& r = *x.specularGlossiness; q = e + "KHR_materials_pbrSpecularGlossiness"; d.put(q, "{}"); d.vec(q + "/diffuseFactor", r.diffuseFactor); d.tex(q + "/diffuseTexture", r.diffuseTexture); d.vec(q + "/specularFactor", r.specularFactor); f(q + "/glossinessFactor", r.glossinessFactor); d.tex(q + "/specularGlossinessTexture", r.specularGlossinessTexture); } }
	d.put("meshes/#", u(a.meshes.size()));
	for (size_t i = 0; i < a.meshes.size(); ++i) { auto& x = a.meshes[i]; auto p = idx("meshes", i); d.nums(p + "/weights", x.weights); d.put(p + "/name", std::string(x.name)); d.put(p + "/primitives/#", u(x.primitives.size()));
		for (size_t j = 0; j < x.primitives.size(); ++j) { auto& r = x.primitives[j]; auto q = idx(p + "/primitives", j); d.attrs(q + "/attributes", r.attributes); d.put(q + "/targets/#", u(r.targets.size())); for (size_t k = 0; k < r.targets.size(); ++k) d.attrs(idx(q + "/targets", k), r.targets[k]);
			d.put(q + "/mode", u(unsigned(r.type))); d.opt(q + "/indices", r.indicesAccessor); d.opt(q + "/material", r.materialIndex);
			for (size_t k = 0; k < r.mappings.size(); ++k) if (r.mappings[k].has_value()) d.put(q + "/extensions/KHR_materials_variants/variant/" + u(k), u(*r.mappings[k]));
			if (variantsResized && !r.mappings.empty() && !a.materialVariants.empty() && r.mappings.size() != a.materialVariants.size()) d.put(q + "/!mappings", "size differs from the number of variants");
			if (r.dracoCompression) { auto e = q + "/extensions/KHR_draco_mesh_compression"; d.put(e, "{}"); d.put(e + "/bufferView", u(r.dracoCompression->bufferView)); d.attrs(e + "/attributes", r.dracoCompression->attributes); } } }
	d.put("nodes/#", u(a.nodes.size()));
	for (size_t i = 0; i < a.nodes.size(); ++i) { auto& x = a.nodes[i]; auto p = idx("nodes", i); d.opt(p + "/mesh", x.meshIndex); d.opt(p + "/skin", x.skinIndex); d.opt(p + "/camera", x.cameraIndex); d.idxs(p + "/children", x.children); d.nums(p + "/weights", x.weights); d.put(p + "/name", std::string(x.name));
		if (auto* t = std::get_if<fg::TRS>(&x.transform)) { d.vec(p + "/translation", t->translation); for (size_t k = 0; k < 4; ++k) d.put(p + "/rotation/" + u(k), f9(t->rotation[k])); d.vec(p + "/scale", t->scale); }
		else { auto& m = std::get<fg::math::fmat4x4>(x.transform); for (size_t c = 0; c < 4; ++c) for (size_t r = 0; r < 4; ++r) d.put(p + "/matrix/" + u(c * 4 + r), f9(m.col(c)[r])); }
		auto e = p + "/extensions/"; if (x.lightIndex.has_value()) { d.put(e + "KHR_lights_punctual", "{}"); d.put(e + "KHR_lights_punctual/light", u(*x.lightIndex)); }
		d.attrs(e + "EXT_mesh_gpu_instancing/attributes", x.instancingAttributes);
		d.b(e + "KHR_node_visibility/visible", x.visible); d.b(e + "KHR_node_selectability/selectable", x.selectable); d.b(e + "KHR_node_hoverability/hoverable", x.hoverable);
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
		if (x.physicsRigidBody) { auto& r = *x.physicsRigidBody; auto q = e + "KHR_physics_rigid_bodies"; d.put(q, "{}");
			auto geo = [&](const std::string& g, const fg::Geometry& y) { d.opt(g + "/shape", y.shape); d.opt(g + "/node", y.node); d.b(g + "/convexHull", y.convexHull); };
			if (r.motion.has_value()) { auto& m = *r.motion; auto z = q + "/motion"; d.put(z, "{}"); d.b(z + "/isKinematic", m.isKinematic); d.optn(z + "/mass", m.mass); d.vec(z + "/centerOfMass", m.centerOfMass); if (m.inertialDiagonal.has_value()) d.vec(z + "/inertiaDiagonal", *m.inertialDiagonal); if (m.inertialOrientation.has_value()) d.vec(z + "/inertialOrientation", *m.inertialOrientation); d.vec(z + "/linearVelocity", m.linearVelocity); d.vec(z + "/angularVelocity", m.angularVelocity); d.put(z + "/gravityFactor", f9(m.gravityFactor)); }
			if (r.collider.has_value()) { auto z = q + "/collider"; d.put(z, "{}"); geo(z + "/geometry", r.collider->geometry); d.opt(z + "/physicsMaterial", r.collider->physicsMaterial); d.opt(z + "/collisionFilter", r.collider->collisionFilter); }
			if (r.trigger.has_value()) { auto z = q + "/trigger"; d.put(z, "{}"); if (auto* g = std::get_if<fg::GeometryTrigger>(&*r.trigger)) { d.put(z + "/geometry", "{}"); geo(z + "/geometry", g->geometry); d.opt(z + "/collisionFilter", g->collisionFilter); } else d.idxs(z + "/nodes", std::get<fg::NodeTrigger>(*r.trigger).nodes); }
			if (r.joint.has_value()) { auto z = q + "/joint"; d.put(z, "{}"); d.put(z + "/connectedNode", u(r.joint->connectedNode)); d.put(z + "/joint", u(r.joint->joint)); d.b(z + "/enableCollision", r.joint->enableCollision); } }
#endif
	}
	d.put("samplers/#", u(a.samplers.size()));
	for (size_t i = 0; i < a.samplers.size(); ++i) { auto& x = a.samplers[i]; auto p = idx("samplers", i); if (x.magFilter.has_value()) d.put(p + "/magFilter", u(unsigned(*x.magFilter))); if (x.minFilter.has_value()) d.put(p + "/minFilter", u(unsigned(*x.minFilter))); d.put(p + "/wrapS", u(unsigned(x.wrapS))); d.put(p + "/wrapT", u(unsigned(x.wrapT))); d.put(p + "/name", std::string(x.name)); }
	d.put("scenes/#", u(a.scenes.size()));
	for (size_t i = 0; i < a.scenes.size(); ++i) { auto p = idx("scenes", i); d.idxs(p + "/nodes", a.scenes[i].nodeIndices); d.put(p + "/name", std::string(a.scenes[i].name)); }
	d.put("skins/#", u(a.skins.size()));
	for (size_t i = 0; i < a.skins.size(); ++i) { auto& x = a.skins[i]; auto p = idx("skins", i); d.opt(p + "/inverseBindMatrices", x.inverseBindMatrices); d.opt(p + "/skeleton", x.skeleton); d.idxs(p + "/joints", x.joints); d.put(p + "/name", std::string(x.name)); }
	d.put("textures/#", u(a.textures.size()));
	for (size_t i = 0; i < a.textures.size(); ++i) { auto& x = a.textures[i]; auto p = idx("textures", i); d.opt(p + "/source", x.imageIndex); d.opt(p + "/sampler", x.samplerIndex); d.put(p + "/name", std::string(x.name)); auto se = [&](const char* n, const fg::Optional<size_t>& v) { if (v.has_value()) { d.put(p + "/extensions/" + n, "{}"); d.put(p + "/extensions/" + n + "/source", u(*v)); } }; se("KHR_texture_basisu", x.basisuImageIndex); se("MSFT_texture_dds", x.ddsImageIndex); se("EXT_texture_webp", x.webpImageIndex); }
	d.put("extensions/KHR_materials_variants/variants/#", u(a.materialVariants.size())); for (size_t i = 0; i < a.materialVariants.size(); ++i) d.put(idx("extensions/KHR_materials_variants/variants", i) + "/name", a.materialVariants[i]);
#if FASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES
	d.put("extensions/KHR_implicit_shapes/shapes/#", u(a.shapes.size()));
	for (size_t i = 0; i < a.shapes.size(); ++i) { auto p = idx("extensions/KHR_implicit_shapes/shapes", i);
		if (auto* s = std::get_if<fg::SphereShape>(&a.shapes[i])) { d.put(p + "/type", "sphere"); d.put(p + "/sphere/radius", f9(s->radius)); } else if (auto* b = std::get_if<fg::BoxShape>(&a.shapes[i])) { d.put(p + "/type", "box"); d.vec(p + "/box/size", b->size); }
		else { auto c = [&](const char* n, auto& s) { d.put(p + "/type", n); auto q = p + "/" + n; d.put(q + "/height", f9(s.height)); d.put(q + "/radiusBottom", f9(s.radiusBottom)); d.put(q + "/radiusTop", f9(s.radiusTop)); }; if (auto* k = std::get_if<fg::CapsuleShape>(&a.shapes[i])) c("capsule", *k); else c("cylinder", std::get<fg::CylinderShape>(a.shapes[i])); } }
#else
	d.put("extensions/KHR_implicit_shapes/shapes/#", "0");
#endif
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
	std::string ph = "extensions/KHR_physics_rigid_bodies/"; auto comb = [](fg::CombineMode m) { return en(unsigned(m), { "average", "minimum", "maximum", "multiply" }); };
	d.put(ph + "physicsMaterials/#", u(a.physicsMaterials.size()));
	for (size_t i = 0; i < a.physicsMaterials.size(); ++i) { auto& x = a.physicsMaterials[i]; auto p = idx(ph + "physicsMaterials", i); d.put(p + "/staticFriction", f9(x.staticFriction)); d.put(p + "/dynamicFriction", f9(x.dynamicFriction)); d.put(p + "/restitution", f9(x.restitution)); d.put(p + "/frictionCombine", comb(x.frictionCombine)); d.put(p + "/restitutionCombine", comb(x.restitutionCombine)); }
	d.put(ph + "collisionFilters/#", u(a.collisionFilters.size()));
	for (size_t i = 0; i < a.collisionFilters.size(); ++i) { auto& x = a.collisionFilters[i]; auto p = idx(ph + "collisionFilters", i); d.strs(p + "/collisionSystems", x.collisionSystems); d.strs(p + "/collideWithSystems", x.collideWithSystems); d.strs(p + "/notCollideWithSystems", x.notCollideWithSystems); }
	d.put(ph + "physicsJoints/#", u(a.physicsJoints.size()));
	for (size_t i = 0; i < a.physicsJoints.size(); ++i) { auto& x = a.physicsJoints[i]; auto p = idx(ph + "physicsJoints", i); d.put(p + "/limits/#", u(x.limits.size()));
		for (size_t j = 0; j < x.limits.size(); ++j) { auto& l = x.limits[j]; auto q = idx(p + "/limits", j); d.optn(q + "/min", l.min); d.optn(q + "/max", l.max); d.optn(q + "/stiffness", l.stiffness); d.put(q + "/damping", f9(l.damping)); d.idxs(q + "/linearAxes", l.linearAxes); d.idxs(q + "/angularAxes", l.angularAxes); }
		d.put(p + "/drives/#", u(x.drives.size()));
		for (size_t j = 0; j < x.drives.size(); ++j) { auto& r = x.drives[j]; auto q = idx(p + "/drives", j); d.put(q + "/type", en(unsigned(r.type), { "linear", "angular" })); d.put(q + "/mode", en(unsigned(r.mode), { "force", "acceleration" })); d.put(q + "/axis", u(r.axis)); d.put(q + "/maxForce", f9(r.maxForce)); d.put(q + "/positionTarget", f9(r.positionTarget)); d.put(q + "/stiffness", f9(r.stiffness)); d.put(q + "/velocityTarget", f9(r.velocityTarget)); d.put(q + "/damping", f9(r.damping)); } }
#else
	for (auto k : { "physicsMaterials", "collisionFilters", "physicsJoints" }) d.put(std::string("extensions/KHR_physics_rigid_bodies/") + k + "/#", "0");
#endif
	return d.o;
}
// First difference between expectation and reality; "" when equal. "?" in the expectation matches any value.
inline std::string diff(const Out& want, const Out& got, std::string* path = nullptr) {
	auto set = [&](const std::string& p) { if (path) *path = p; };
	for (auto& [k, v] : want) { auto i = got.find(k); if (i == got.end()) { set(k); return "missing " + k + " (expected " + v.substr(0, 200) + ")"; } if (v != "?" && i->second != v) { set(k); return k + ": expected " + v.substr(0, 200) + " but got " + i->second.substr(0, 200); } }
	for (auto& [k, v] : got) if (!want.count(k)) { set(k); return "unexpected " + k + " = " + v.substr(0, 200); }
	return "";
}
} // namespace dump

// A valid asset in which every index member of every object occurs, and the list of all these members.
#pragma once
#include "exporting.hpp"
#include <functional>
using A = fg::Asset;
static fg::Attribute attr(const char* n, size_t i) { fg::Attribute a{}; a.name = n; a.accessorIndex = i; return a; }
static fg::TextureInfo texInfo(size_t i) { fg::TextureInfo t{}; t.textureIndex = i; return t; }
template <typename T> static T texInfoAs(size_t i) { T t{}; t.textureIndex = i; return t; }
static void bounds(fg::Accessor& a, double lo, double hi, size_t n) { auto f = [&](double v) { auto b = fg::AccessorBoundsArray::ForType<double>(n); for (size_t i = 0; i < n; ++i) b.set<double>(i, v); return b; }; a.min = f(lo); a.max = f(hi); }
static A validAsset() {
	A a; auto N = [](double d) { return fg::num(d); }; using AT = fg::AccessorType; using CT = fg::ComponentType;
	a.assetInfo = fg::AssetInfo{}; a.assetInfo->gltfVersion = "2.0"; a.defaultScene = size_t(1);
	for (auto& [n, e] : spec::knownExtensions()) if (n != "GODOT_single_root" && n != "KHR_mesh_quantization") a.extensionsUsed.emplace_back(n); a.extensionsRequired.emplace_back("KHR_materials_ior");
	for (size_t n : { 4096, 64, 16 }) { auto& b = a.buffers.emplace_back(); b.byteLength = n; fg::sources::Vector v; v.bytes.assign(n, std::byte{ 0 }); v.mimeType = fg::MimeType::GltfBuffer; b.data = std::move(v); }
	auto view = [&](size_t buffer, size_t off, size_t len) -> fg::BufferView& { auto& v = a.bufferViews.emplace_back(); v.bufferIndex = buffer; v.byteOffset = off; v.byteLength = len; return v; };
	{ auto& v = view(0, 0, 512); v.byteStride = size_t(32); v.target = fg::BufferTarget::ArrayBuffer; } view(0, 512, 64).target = fg::BufferTarget::ElementArrayBuffer; view(0, 576, 16); view(0, 592, 48); view(0, 640, 256); view(0, 896, 16); view(0, 912, 256); view(0, 1168, 100);
	{ auto& v = view(0, 1280, 64); v.meshoptCompression = std::make_unique<fg::CompressedBufferView>(); auto& m = *v.meshoptCompression; m = {}; m.bufferIndex = 1; m.byteLength = 20; m.count = 4; m.byteStride = 16; m.mode = fg::MeshoptCompressionMode::Attributes; m.filter = fg::MeshoptCompressionFilter::None; }
	auto acc = [&](AT t, CT c, size_t count, std::optional<size_t> v, size_t off = 0) -> fg::Accessor& { auto& x = a.accessors.emplace_back(); x.type = t; x.componentType = c; x.count = count; x.byteOffset = off; x.normalized = false; if (v) x.bufferViewIndex = *v; return x; };
	bounds(acc(AT::Vec3, CT::Float, 4, 0), -1, 1, 3);                                                             // 0 POSITION
	acc(AT::Vec3, CT::Float, 4, 0, 12); acc(AT::Vec4, CT::Float, 4, {}); acc(AT::Vec2, CT::Float, 4, {});         // 1 NORMAL 2 TANGENT 3 TEXCOORD
	acc(AT::Vec2, CT::UnsignedShort, 4, {}).normalized = true; acc(AT::Vec4, CT::UnsignedByte, 4, {}).normalized = true; // 4 TEXCOORD 5 COLOR
	acc(AT::Vec4, CT::UnsignedByte, 4, {}); acc(AT::Vec4, CT::Float, 4, {}); acc(AT::Scalar, CT::Float, 4, {});   // 6 JOINTS 7 WEIGHTS 8 _X
	acc(AT::Scalar, CT::UnsignedShort, 6, 1);                                                                     // 9 indices
	{ auto& x = acc(AT::Vec3, CT::Float, 4, {}); bounds(x, -2, 2, 3); fg::SparseAccessor s{}; s.count = 2; s.indicesBufferView = 2; s.valuesBufferView = 3; s.indexComponentType = CT::UnsignedByte; x.sparse = s; } // 10
	acc(AT::Mat4, CT::Float, 2, 4); bounds(acc(AT::Scalar, CT::Float, 4, 5), 0, 3, 1); acc(AT::Vec3, CT::Float, 4, {}); acc(AT::Vec3, CT::Float, 12, 6); // 11 IBM 12 input 13 output 14 cubic output
	bounds(acc(AT::Scalar, CT::Float, 3, 8), 0, 1, 1); acc(AT::Vec4, CT::Float, 4, {}); acc(AT::Scalar, CT::Float, 8, {}); // 15 compressed input 16 rotations 17 weights
	{ auto& x = acc(AT::Scalar, CT::UnsignedInt, 3, {}); auto b = fg::AccessorBoundsArray::ForType<std::int64_t>(1); b.set<std::int64_t>(0, 2); x.max = std::move(b); }  // 18
	for (int i = 0; i < 3; ++i) { auto& im = a.images.emplace_back(); if (i == 0) im.data = fg::sources::BufferView{ 7, fg::MimeType::PNG }; else { fg::sources::Vector v; v.bytes.assign(4, std::byte{ 1 }); v.mimeType = fg::MimeType::PNG; im.data = std::move(v); } }
	for (int i = 0; i < 2; ++i) { auto& s = a.samplers.emplace_back(); s.magFilter = fg::Filter::Linear; if (i) s.minFilter = fg::Filter::LinearMipMapLinear; }
	for (int i = 0; i < 3; ++i) { auto& t = a.textures.emplace_back(); if (i != 2) t.imageIndex = size_t(i); if (i == 1) t.samplerIndex = size_t(1); if (i >= 1) { t.basisuImageIndex = size_t(2); t.ddsImageIndex = size_t(1); t.webpImageIndex = size_t(0); } }
	for (int i = 0; i < 3; ++i) a.materials.emplace_back();
	{ auto& m = a.materials[1]; m.normalTexture = texInfoAs<fg::NormalTextureInfo>(0); m.occlusionTexture = texInfoAs<fg::OcclusionTextureInfo>(1); m.emissiveTexture = texInfo(2); m.pbrData.baseColorTexture = texInfo(0); m.pbrData.metallicRoughnessTexture = texInfo(1); m.packedNormalMetallicRoughnessTexture = texInfo(2);
		m.anisotropy = std::make_unique<fg::MaterialAnisotropy>(); m.anisotropy->anisotropyTexture = texInfo(0); m.clearcoat = std::make_unique<fg::MaterialClearcoat>(); m.clearcoat->clearcoatTexture = texInfo(1); m.clearcoat->clearcoatRoughnessTexture = texInfo(2); m.clearcoat->clearcoatNormalTexture = texInfoAs<fg::NormalTextureInfo>(0);
		m.diffuseTransmission = std::make_unique<fg::MaterialDiffuseTransmission>(); m.diffuseTransmission->diffuseTransmissionTexture = texInfo(1); m.diffuseTransmission->diffuseTransmissionColorTexture = texInfo(2); m.iridescence = std::make_unique<fg::MaterialIridescence>(); m.iridescence->iridescenceTexture = texInfo(0); m.iridescence->iridescenceThicknessTexture = texInfo(1);
		m.sheen = std::make_unique<fg::MaterialSheen>(); m.sheen->sheenColorTexture = texInfo(2); m.sheen->sheenRoughnessTexture = texInfo(0); m.specular = std::make_unique<fg::MaterialSpecular>(); m.specular->specularTexture = texInfo(1); m.specular->specularColorTexture = texInfo(2);
		m.specularGlossiness = std::make_unique<fg::MaterialSpecularGlossiness>(); m.specularGlossiness->diffuseTexture = texInfo(0); m.specularGlossiness->specularGlossinessTexture = texInfo(1); m.transmission = std::make_unique<fg::MaterialTransmission>(); m.transmission->transmissionTexture = texInfo(2); m.volume = std::make_unique<fg::MaterialVolume>(); m.volume->thicknessTexture = texInfo(0);
		m.packedOcclusionRoughnessMetallicTextures = std::make_unique<fg::MaterialPackedTextures>(); auto& p = *m.packedOcclusionRoughnessMetallicTextures; p.occlusionRoughnessMetallicTexture = texInfo(1); p.roughnessMetallicOcclusionTexture = texInfo(2); p.normalTexture = texInfo(0);
		m.emissiveStrength = N(2); m.ior = N(1.25); m.dispersion = N(0.5); } a.materials[2].unlit = true;
	a.materialVariants = { "one", "two" };
	for (int i = 0; i < 3; ++i) a.meshes.emplace_back();
	for (int copy = 0; copy < 2; ++copy) { auto& p = a.meshes[0].primitives.emplace_back(); static const char* const n[] = { "POSITION", "NORMAL", "TANGENT", "TEXCOORD_0", "TEXCOORD_1", "COLOR_0", "JOINTS_0", "WEIGHTS_0", "_X" }; for (size_t i = 0; i < 9; ++i) p.attributes.emplace_back(attr(n[i], i));
		p.indicesAccessor = size_t(9); p.materialIndex = size_t(1); p.mappings.emplace_back(size_t(0)); p.mappings.emplace_back(size_t(2)); for (int i = 0; i < 2; ++i) { p.targets.emplace_back(); p.targets.back().emplace_back(attr("POSITION", 10)); p.targets.back().emplace_back(attr("NORMAL", 1)); } a.meshes[0].weights.emplace_back(N(0.5)); if (copy) { p.dracoCompression = std::make_unique<fg::DracoCompressedPrimitive>(); p.dracoCompression->bufferView = 7; } }
	{ auto& p = a.meshes[1].primitives.emplace_back(); p.attributes.emplace_back(attr("POSITION", 10)); p.dracoCompression = std::make_unique<fg::DracoCompressedPrimitive>(); p.dracoCompression->bufferView = 7; p.dracoCompression->attributes.emplace_back(attr("POSITION", 0)); auto& q = a.meshes[1].primitives.emplace_back(); q.attributes.emplace_back(attr("POSITION", 0)); q.type = fg::PrimitiveType::Points; }
	{ auto& p = a.meshes[2].primitives.emplace_back(); p.attributes.emplace_back(attr("_X", 8)); }
	{ auto& c = a.cameras.emplace_back(); fg::Camera::Perspective p{}; p.yfov = N(0.7); p.znear = N(0.01); p.zfar = N(100); p.aspectRatio = N(1.5); c.camera = p; auto& d = a.cameras.emplace_back(); fg::Camera::Orthographic o{}; o.xmag = 1; o.ymag = 1; o.znear = 0; o.zfar = 10; d.camera = o; }
	{ auto l = [&](fg::LightType t) -> fg::Light& { fg::Light x{}; x.type = t; x.color = fg::math::nvec3(1); x.intensity = 1; a.lights.push_back(std::move(x)); return a.lights.back(); }; l(fg::LightType::Directional); l(fg::LightType::Point).range = N(5); auto& s = l(fg::LightType::Spot); s.innerConeAngle = N(0); s.outerConeAngle = N(0.78); }
	for (int i = 0; i < 5; ++i) { auto& n = a.nodes.emplace_back(); if (i == 3) n.transform = fg::math::fmat4x4(1); }
	{ auto& n = a.nodes[0]; n.children.emplace_back(1); n.children.emplace_back(2); n.meshIndex = size_t(1); n.lightIndex = size_t(2); n.cameraIndex = size_t(0); n.instancingAttributes.emplace_back(attr("TRANSLATION", 13)); n.instancingAttributes.emplace_back(attr("ROTATION", 16)); n.visible = false; }
	{ auto& n = a.nodes[1]; n.meshIndex = size_t(0); n.skinIndex = size_t(1); n.cameraIndex = size_t(1); n.weights.emplace_back(N(0.5)); n.weights.emplace_back(N(0.25)); n.selectable = false; } a.nodes[2].hoverable = false; a.nodes[2].children.emplace_back(3);
	for (int i = 0; i < 2; ++i) { auto& s = a.skins.emplace_back(); s.joints.emplace_back(1); s.joints.emplace_back(2); if (i) { s.skeleton = size_t(0); s.inverseBindMatrices = size_t(11); } }
	for (int i = 0; i < 2; ++i) { auto& s = a.scenes.emplace_back(); s.nodeIndices.emplace_back(i ? 0 : 4); if (i) s.nodeIndices.emplace_back(4); }
	{ auto& n = a.animations.emplace_back(); auto ch = [&](size_t s, fg::Optional<size_t> node, fg::AnimationPath p) { n.channels.emplace_back(fg::AnimationChannel{ s, node, p }); }; ch(0, size_t(0), fg::AnimationPath::Translation); ch(1, size_t(0), fg::AnimationPath::Scale); ch(2, size_t(1), fg::AnimationPath::Translation); ch(3, size_t(0), fg::AnimationPath::Weights); ch(0, {}, fg::AnimationPath::Translation); ch(0, {}, fg::AnimationPath::Translation);
		auto sa = [&](size_t i, size_t o, fg::AnimationInterpolation p) { n.samplers.emplace_back(fg::AnimationSampler{ i, o, p }); }; sa(12, 13, fg::AnimationInterpolation::Linear); sa(12, 14, fg::AnimationInterpolation::CubicSpline); sa(15, 13, fg::AnimationInterpolation::Step); sa(12, 17, fg::AnimationInterpolation::Linear); }
	{ auto& n = a.animations.emplace_back(); n.channels.emplace_back(fg::AnimationChannel{ 0, size_t(4), fg::AnimationPath::Rotation }); n.samplers.emplace_back(fg::AnimationSampler{ 12, 16, fg::AnimationInterpolation::Step }); }
	a.shapes.emplace_back(fg::SphereShape{}); a.shapes.emplace_back(fg::BoxShape{});
	for (int i = 0; i < 2; ++i) { auto& m = a.physicsMaterials.emplace_back(); m.frictionCombine = fg::CombineMode::Average; m.restitutionCombine = fg::CombineMode::Average; auto& f = a.collisionFilters.emplace_back(); f.collisionSystems.emplace_back("s"); auto& j = a.physicsJoints.emplace_back(); fg::JointLimit l{}; l.linearAxes.emplace_back(uint8_t(1)); l.min = N(0); j.limits.emplace_back(std::move(l)); }
	auto body = [&](size_t n) -> fg::PhysicsRigidBody& { a.nodes[n].physicsRigidBody = std::make_unique<fg::PhysicsRigidBody>(); return *a.nodes[n].physicsRigidBody; };
	{ auto& b = body(2); fg::Collider c{}; c.geometry.shape = size_t(1); c.geometry.node = size_t(1); c.geometry.convexHull = false; c.physicsMaterial = size_t(0); c.collisionFilter = size_t(1); b.collider = std::move(c); fg::GeometryTrigger t{}; t.geometry.shape = size_t(0); t.geometry.node = size_t(3); t.geometry.convexHull = false; t.collisionFilter = size_t(0); b.trigger = std::variant<fg::GeometryTrigger, fg::NodeTrigger>(std::move(t)); fg::Joint j{}; j.connectedNode = 3; j.joint = 1; b.joint = j; }
	{ auto& b = body(3); fg::NodeTrigger t{}; t.nodes.emplace_back(1); t.nodes.emplace_back(2); b.trigger = std::variant<fg::GeometryTrigger, fg::NodeTrigger>(std::move(t)); }
	return a;
}
// Every index member: what it refers to, whether it may be absent, how to set it.
enum { NONE = 1 };
struct Field { std::string label; bool optional; std::function<size_t(const A&)> size; std::function<void(A&, size_t, bool)> set; };
template <typename T> static void assign(T& t, size_t v, bool none) { if constexpr (std::is_same_v<std::decay_t<T>, size_t>) t = v; else if (none) t.reset(); else t = v; }
template <typename T> static constexpr bool isOptional(const T*) { return !std::is_same_v<T, size_t>; }
static std::vector<Field> fields() {
	std::vector<Field> F; A base = validAsset();
	#define FIELD(section, expr) { auto&& get = [=](A& a) -> auto& { return expr; }; using T = std::decay_t<decltype(get(base))>; F.push_back({ std::string(#expr) + tag, !std::is_same_v<T, size_t>, [](const A& a) { return a.section.size(); }, [=](A& a, size_t v, bool none) { assign(expr, v, none); } }); }
	std::string tag;
	FIELD(scenes, a.defaultScene) for (size_t i : { 0, 1, 9, 15, 18 }) { tag = mc::fmt(" %zu", i); FIELD(bufferViews, a.accessors[i].bufferViewIndex) } tag = ""; FIELD(bufferViews, a.accessors[10].sparse->indicesBufferView) FIELD(bufferViews, a.accessors[10].sparse->valuesBufferView)
	for (size_t i = 0; i < base.animations[0].channels.size(); ++i) { tag = mc::fmt(" %zu", i); FIELD(animations[0].samplers, a.animations[0].channels[i].samplerIndex) FIELD(nodes, a.animations[0].channels[i].nodeIndex) }
	for (size_t i = 0; i < 4; ++i) { tag = mc::fmt(" %zu", i); FIELD(accessors, a.animations[0].samplers[i].inputAccessor) FIELD(accessors, a.animations[0].samplers[i].outputAccessor) } tag = ""; FIELD(animations[1].samplers, a.animations[1].channels[0].samplerIndex) FIELD(nodes, a.animations[1].channels[0].nodeIndex) FIELD(accessors, a.animations[1].samplers[0].inputAccessor) FIELD(accessors, a.animations[1].samplers[0].outputAccessor)
	for (size_t i : { 0, 8 }) { tag = mc::fmt(" %zu", i); FIELD(buffers, a.bufferViews[i].bufferIndex) } tag = ""; FIELD(buffers, a.bufferViews[8].meshoptCompression->bufferIndex) FIELD(bufferViews, std::get<fg::sources::BufferView>(a.images[0].data).bufferViewIndex)
	for (size_t i = 1; i < 3; ++i) { tag = mc::fmt(" %zu", i); FIELD(samplers, a.textures[i].samplerIndex) FIELD(images, a.textures[i].imageIndex) FIELD(images, a.textures[i].basisuImageIndex) FIELD(images, a.textures[i].ddsImageIndex) FIELD(images, a.textures[i].webpImageIndex) } tag = ""; FIELD(images, a.textures[0].imageIndex)
	#define T(member) FIELD(textures, a.materials[1].member->textureIndex)
	T(normalTexture) T(occlusionTexture) T(emissiveTexture) T(pbrData.baseColorTexture) T(pbrData.metallicRoughnessTexture) T(packedNormalMetallicRoughnessTexture) T(anisotropy->anisotropyTexture) T(clearcoat->clearcoatTexture) T(clearcoat->clearcoatRoughnessTexture) T(clearcoat->clearcoatNormalTexture) T(diffuseTransmission->diffuseTransmissionTexture) T(diffuseTransmission->diffuseTransmissionColorTexture)
	T(iridescence->iridescenceTexture) T(iridescence->iridescenceThicknessTexture) T(sheen->sheenColorTexture) T(sheen->sheenRoughnessTexture) T(specular->specularTexture) T(specular->specularColorTexture) T(specularGlossiness->diffuseTexture) T(specularGlossiness->specularGlossinessTexture) T(transmission->transmissionTexture) T(volume->thicknessTexture)
	T(packedOcclusionRoughnessMetallicTextures->occlusionRoughnessMetallicTexture) T(packedOcclusionRoughnessMetallicTextures->roughnessMetallicOcclusionTexture) T(packedOcclusionRoughnessMetallicTextures->normalTexture)
	#undef T
	for (size_t i = 0; i < 9; ++i) { tag = mc::fmt(" %zu", i); FIELD(accessors, a.meshes[0].primitives[0].attributes[i].accessorIndex) } for (size_t i = 0; i < 2; ++i) { tag = mc::fmt(" %zu", i); FIELD(materials, a.meshes[0].primitives[0].mappings[i]) FIELD(materials, a.meshes[0].primitives[1].mappings[i]) FIELD(accessors, a.meshes[0].primitives[1].targets[i][1].accessorIndex) FIELD(accessors, a.meshes[0].primitives[1].attributes[i * 8].accessorIndex) FIELD(accessors, a.meshes[0].primitives[0].targets[i][0].accessorIndex) FIELD(accessors, a.meshes[0].primitives[0].targets[i][1].accessorIndex) FIELD(accessors, a.meshes[1].primitives[i].attributes[0].accessorIndex) FIELD(accessors, a.meshes[1].primitives[i].indicesAccessor) FIELD(materials, a.meshes[1].primitives[i].materialIndex) }
	tag = ""; FIELD(bufferViews, a.meshes[0].primitives[1].dracoCompression->bufferView) FIELD(accessors, a.meshes[0].primitives[1].indicesAccessor) FIELD(materials, a.meshes[0].primitives[1].materialIndex) FIELD(accessors, a.meshes[0].primitives[0].indicesAccessor) FIELD(materials, a.meshes[0].primitives[0].materialIndex) FIELD(bufferViews, a.meshes[1].primitives[0].dracoCompression->bufferView) FIELD(accessors, a.meshes[2].primitives[0].attributes[0].accessorIndex)
	for (size_t i = 0; i < 5; ++i) { tag = mc::fmt(" %zu", i); FIELD(meshes, a.nodes[i].meshIndex) FIELD(skins, a.nodes[i].skinIndex) FIELD(cameras, a.nodes[i].cameraIndex) FIELD(lights, a.nodes[i].lightIndex) } tag = ""; FIELD(nodes, a.nodes[0].children[0]) FIELD(nodes, a.nodes[0].children[1]) FIELD(nodes, a.nodes[2].children[0]) FIELD(accessors, a.nodes[0].instancingAttributes[0].accessorIndex) FIELD(accessors, a.nodes[0].instancingAttributes[1].accessorIndex)
	for (size_t i = 0; i < 2; ++i) { tag = mc::fmt(" %zu", i); FIELD(nodes, a.skins[i].joints[0]) FIELD(nodes, a.skins[i].joints[1]) FIELD(nodes, a.skins[i].skeleton) FIELD(accessors, a.skins[i].inverseBindMatrices) } tag = ""; FIELD(nodes, a.scenes[0].nodeIndices[0]) FIELD(nodes, a.scenes[1].nodeIndices[0]) FIELD(nodes, a.scenes[1].nodeIndices[1])
	#define B(i) a.nodes[i].physicsRigidBody
	FIELD(shapes, B(2)->collider->geometry.shape) FIELD(nodes, B(2)->collider->geometry.node) FIELD(physicsMaterials, B(2)->collider->physicsMaterial) FIELD(collisionFilters, B(2)->collider->collisionFilter) FIELD(shapes, std::get<0>(*B(2)->trigger).geometry.shape) FIELD(nodes, std::get<0>(*B(2)->trigger).geometry.node) FIELD(collisionFilters, std::get<0>(*B(2)->trigger).collisionFilter) FIELD(nodes, B(2)->joint->connectedNode) FIELD(physicsJoints, B(2)->joint->joint) FIELD(nodes, std::get<1>(*B(3)->trigger).nodes[0]) FIELD(nodes, std::get<1>(*B(3)->trigger).nodes[1])
	#undef B
	return F;
}

// Assets built by a program: for every kind of object a minimal element and its optional parts.
#pragma once
#include "exporting.hpp"
#include <cmath>
#include <functional>

using A = fg::Asset;
struct Part { std::string label; bool valid; std::function<void(A&)> f; };
struct Kind { std::string name; std::function<void(A&)> add; bool validAlone; std::vector<Part> parts; };
static fg::TextureInfo tex(int v) {
	fg::TextureInfo t{}; t.textureIndex = size_t(v % 3); if (v & 1) t.texCoordIndex = 2;
	if (v >= 2) { t.transform = std::make_unique<fg::TextureTransform>(); auto& x = *t.transform; x.rotation = 0; if (v & 4) x.rotation = fg::num(0.5); if (v & 8) x.uvOffset = fg::math::nvec2(fg::num(0.25), fg::num(0)); if (v & 16) x.uvScale = fg::math::nvec2(fg::num(1), fg::num(-2)); if (v & 32) x.texCoordIndex = 0; }
	return t;
}
template <typename T> static T texAs(int v) { T t{}; static_cast<fg::TextureInfo&>(t) = tex(v); return t; }

static std::vector<Kind> kinds() {
	std::vector<Kind> K; auto N = [](double d) { return fg::num(d); };
	#define PART(l, valid, ...) k.parts.push_back({ l, valid, [=](A& a) { (void)a; __VA_ARGS__; } })
	#define NAME(member) PART("name", true, X.name = "n\"\\\n{,"); PART("emptyname", true, X.name = "")
	{ Kind k; k.name = "accessors"; k.validAlone = true; k.add = [](A& a) { auto& x = a.accessors.emplace_back(); x.count = 3; x.type = fg::AccessorType::Vec3; x.componentType = fg::ComponentType::Float; };
	#define X a.accessors.front()
		NAME(); PART("byteOffset", true, X.byteOffset = 4); PART("normalized", true, X.normalized = true; X.componentType = fg::ComponentType::UnsignedByte; X.max.reset(); X.min.reset()); PART("view", true, X.bufferViewIndex = 7); PART("count0", false, X.count = 0); PART("huge", true, X.byteOffset = 9007199254740993ull);
		PART("sparse", true, { fg::SparseAccessor s{}; s.count = 2; s.indicesBufferView = 1; s.valuesBufferView = 2; s.indexComponentType = fg::ComponentType::UnsignedShort; X.sparse = s; }); PART("sparse+", true, { fg::SparseAccessor s{}; s.count = 2; s.indicesBufferView = 1; s.valuesBufferView = 2; s.indicesByteOffset = 8; s.valuesByteOffset = 16; s.indexComponentType = fg::ComponentType::UnsignedInt; X.sparse = s; });
		PART("max", true, { X.normalized = false; X.type = fg::AccessorType::Vec3; X.componentType = fg::ComponentType::Float; if (X.min && (X.min->isType<std::int64_t>() || X.min->size() != 3)) X.min.reset(); auto b = fg::AccessorBoundsArray::ForType<double>(3); for (size_t i = 0; i < 3; ++i) b.set<double>(i, 0.5 * double(i) - 0.5); X.max = std::move(b); }); PART("min", true, { X.normalized = false; X.type = fg::AccessorType::Vec3; X.componentType = fg::ComponentType::Float; if (X.max && (X.max->isType<std::int64_t>() || X.max->size() != 3)) X.max.reset(); auto b = fg::AccessorBoundsArray::ForType<double>(3); for (size_t i = 0; i < 3; ++i) b.set<double>(i, -1e30); X.min = std::move(b); });
		PART("maxi", true, { X.componentType = fg::ComponentType::Short; X.type = fg::AccessorType::Vec2; auto b = fg::AccessorBoundsArray::ForType<std::int64_t>(2); b.set<std::int64_t>(0, -5); b.set<std::int64_t>(1, 32767); X.max = std::move(b); X.min.reset(); });
		PART("bounds0", false, X.max = fg::AccessorBoundsArray::ForType<double>(0); X.min = fg::AccessorBoundsArray::ForType<double>(0)); PART("nan", false, { auto b = fg::AccessorBoundsArray::ForType<double>(2); b.set<double>(0, std::nan("")); b.set<double>(1, INFINITY); X.max = std::move(b); }); PART("noType", false, X.type = fg::AccessorType::Invalid); PART("noComponentType", false, X.componentType = fg::ComponentType::Invalid);
	#undef X
		K.push_back(k); }
	{ Kind k; k.name = "animations"; k.validAlone = false; k.add = [](A& a) { a.animations.emplace_back(); };
	#define X a.animations.front()
		NAME(); PART("channel", false, X.channels.emplace_back(fg::AnimationChannel{ 0, {}, fg::AnimationPath::Weights })); PART("channels", false, X.channels.emplace_back(fg::AnimationChannel{ 1, size_t(3), fg::AnimationPath::Translation }); X.channels.emplace_back(fg::AnimationChannel{ 0, size_t(0), fg::AnimationPath::Rotation }); X.channels.emplace_back(fg::AnimationChannel{ 2, {}, fg::AnimationPath::Scale })); PART("noPath", false, X.channels.emplace_back(fg::AnimationChannel{}));
		PART("sampler", false, X.samplers.emplace_back(fg::AnimationSampler{ 1, 2 })); PART("samplers", false, X.samplers.emplace_back(fg::AnimationSampler{ 0, 2, fg::AnimationInterpolation::Step }); X.samplers.emplace_back(fg::AnimationSampler{ 1, 2, fg::AnimationInterpolation::CubicSpline }));
		PART("both", true, X.channels.emplace_back(fg::AnimationChannel{ 0, {}, fg::AnimationPath::Weights }); X.samplers.emplace_back(fg::AnimationSampler{ 1, 2 }); X.samplers.emplace_back(fg::AnimationSampler{ 0, 2, fg::AnimationInterpolation::Step }));
	#undef X
		K.push_back(k); }
	static const std::string bytes = "0123456789abcdef"; auto vec = [](size_t n) { fg::sources::Vector v; v.bytes.assign(n, std::byte{ 7 }); return v; };
	{ Kind k; k.name = "buffers"; k.validAlone = false; k.add = [](A& a) { a.buffers.emplace_back().byteLength = 4; };
	#define X a.buffers.front()
		NAME(); PART("byteLength0", false, X.byteLength = 0); PART("vector", true, X.data = vec(4)); PART("vector+", true, X.data = vec(9)); PART("short", false, X.data = vec(3)); PART("nothing", false, X.data = vec(0)); PART("array", true, X.data = (fg::sources::Array { fg::StaticVector<std::byte>::fromVector(std::vector<std::byte>(6)), fg::MimeType::GltfBuffer }));
		PART("view", true, fg::sources::ByteView v; v.bytes = fg::span<const std::byte>(reinterpret_cast<const std::byte*>(bytes.data()), 5); X.data = v); PART("null view", false, X.data = fg::sources::ByteView{}); PART("uri", true, { fg::sources::URI u; u.fileByteOffset = 0; u.uri = fg::URI(std::string_view("a%20\"b\".bin?q#f")); X.data = std::move(u); }); PART("empty uri", false, X.data = fg::sources::URI()); PART("fallback", true, X.data = fg::sources::Fallback{}; a.extensionsUsed.emplace_back("EXT_meshopt_compression"); a.extensionsRequired.emplace_back("EXT_meshopt_compression")); PART("custom", false, X.data = fg::sources::CustomBuffer{}); PART("bufferView", false, X.data = fg::sources::BufferView{});
		PART("second", false, a.buffers.emplace_back(); a.buffers.back().byteLength = 3; a.buffers.back().data = vec(3)); PART("second uri", false, { a.buffers.emplace_back(); a.buffers.back().byteLength = 3; fg::sources::URI u; u.fileByteOffset = 0; u.uri = fg::URI(std::string_view("z.bin")); a.buffers.back().data = std::move(u); });
	#undef X
		K.push_back(k); }
	{ Kind k; k.name = "bufferViews"; k.validAlone = true; k.add = [](A& a) { auto& x = a.bufferViews.emplace_back(); x.bufferIndex = 0; x.byteLength = 4; };
	#define X a.bufferViews.front()
		NAME(); PART("byteOffset", true, X.byteOffset = 3); PART("stride", true, X.byteStride = 8); PART("target", true, X.target = fg::BufferTarget::ElementArrayBuffer); PART("empty", false, X.byteLength = 0);
		for (int v = 0; v < 4; ++v) PART("meshopt" + std::to_string(v), true, { X.meshoptCompression = std::make_unique<fg::CompressedBufferView>(); auto& m = *X.meshoptCompression; m = {}; m.bufferIndex = 1; m.byteLength = 7; m.count = 2; m.byteStride = 4; m.byteOffset = v & 1 ? 12 : 0; m.mode = fg::MeshoptCompressionMode(v % 3); m.filter = fg::MeshoptCompressionFilter(v); });
	#undef X
		K.push_back(k); }
	{ Kind k; k.name = "cameras"; k.validAlone = false; k.add = [](A& a) { a.cameras.emplace_back(); };
	#define X a.cameras.front()
		NAME(); for (int v = 0; v < 4; ++v) PART("perspective" + std::to_string(v), true, { fg::Camera::Perspective p{}; p.yfov = N(0.7); p.znear = N(0.01); if (v & 1) p.aspectRatio = N(1.5); if (v & 2) p.zfar = N(100); X.camera = p; }); PART("orthographic", true, X.camera = (fg::Camera::Orthographic{ N(1), N(2), N(3e10), N(1e-9) })); PART("nan", false, X.camera = (fg::Camera::Orthographic{ N(NAN), N(INFINITY), N(-INFINITY), N(1e-9) }));
	#undef X
		K.push_back(k); }
	{ Kind k; k.name = "images"; k.validAlone = false; k.add = [](A& a) { a.images.emplace_back(); };
	#define X a.images.front()
		NAME(); for (int m = 0; m < 8; ++m) { auto M = fg::MimeType(m); bool im = M != fg::MimeType::GltfBuffer && M != fg::MimeType::OctetStream; PART("view" + std::to_string(m), im && m, X.data = (fg::sources::BufferView{ 3, M })); PART("vector" + std::to_string(m), im, { auto v = vec(4); v.mimeType = M; X.data = v; }); PART("uri" + std::to_string(m), im, { fg::sources::URI u; u.fileByteOffset = 0; u.uri = fg::URI(std::string_view("a%5Cb.png")); u.mimeType = M; X.data = std::move(u); }); }
		PART("array", true, X.data = (fg::sources::Array { fg::StaticVector<std::byte>::fromVector(std::vector<std::byte>(0)), fg::MimeType::PNG })); PART("byteview", true, fg::sources::ByteView v; v.bytes = fg::span<const std::byte>(reinterpret_cast<const std::byte*>(bytes.data()), 5); v.mimeType = fg::MimeType::JPEG; X.data = v); PART("fallback", false, X.data = fg::sources::Fallback{}); PART("custom", false, X.data = fg::sources::CustomBuffer{}); PART("empty uri", false, X.data = fg::sources::URI());
	#undef X
		K.push_back(k); }
	{ Kind k; k.name = "lights"; k.validAlone = true; k.add = [](A& a) { fg::Light l{}; l.type = fg::LightType::Point; l.color = fg::math::nvec3(1); l.intensity = 1; a.lights.push_back(std::move(l)); };
	#define X a.lights.front()
		NAME(); PART("spot", false, X.type = fg::LightType::Spot); PART("directional", true, X.type = fg::LightType::Directional; X.innerConeAngle.reset(); X.outerConeAngle.reset()); PART("range", true, X.range = N(2.5)); PART("inner", false, X.innerConeAngle = N(0.25)); PART("outer", false, X.outerConeAngle = N(0.5)); PART("inner 0", false, X.innerConeAngle = N(0)); PART("cones", true, X.type = fg::LightType::Spot; X.innerConeAngle = N(0.1); X.outerConeAngle = N(0.2)); PART("color", true, X.color = fg::math::nvec3(N(0.5), N(0), N(1e-8))); PART("intensity", true, X.intensity = N(683)); PART("range inf", false, X.range = N(INFINITY));
	#undef X
		K.push_back(k); }
	{ Kind k; k.name = "materials"; k.validAlone = true; k.add = [](A& a) { a.materials.emplace_back(); };
	#define X a.materials.front()
		NAME(); PART("baseColor", true, X.pbrData.baseColorFactor = fg::math::nvec4(N(0.25), N(1), N(0), N(0.5))); PART("metallic", true, X.pbrData.metallicFactor = N(0.25)); PART("roughness", true, X.pbrData.roughnessFactor = N(0)); PART("emissive", true, X.emissiveFactor = fg::math::nvec3(N(0), N(0.5), N(1))); PART("mask", true, X.alphaMode = fg::AlphaMode::Mask); PART("blend", true, X.alphaMode = fg::AlphaMode::Blend); PART("cutoff", true, X.alphaCutoff = N(0.25)); PART("doubleSided", true, X.doubleSided = true); PART("unlit", true, X.unlit = true); PART("strength", true, X.emissiveStrength = N(5)); PART("ior", true, X.ior = N(0)); PART("dispersion", true, X.dispersion = N(0.125)); PART("nan", false, X.ior = N(NAN); X.pbrData.metallicFactor = N(-INFINITY));
		for (int v = 1; v < 64; ++v) if (v == 1 || (v & 2)) PART("texture" + std::to_string(v), true, X.pbrData.baseColorTexture = tex(v));
		#define T1(l, target) for (int v : { 0, 12, 48, 63 }) PART(l + std::to_string(v), true, target = tex(v))
		std::string s; T1(s + "baseColorTexture", X.pbrData.baseColorTexture); T1(s + "mrTexture", X.pbrData.metallicRoughnessTexture); T1(s + "emissiveTexture", X.emissiveTexture); T1(s + "packedNormal", X.packedNormalMetallicRoughnessTexture);
		for (int v : { 0, 63 }) { PART("normal" + std::to_string(v), true, { auto t = texAs<fg::NormalTextureInfo>(v); if (v) t.scale = N(0.5); X.normalTexture = std::move(t); }); PART("occlusion" + std::to_string(v), true, { auto t = texAs<fg::OcclusionTextureInfo>(v); if (v) t.strength = N(0.5); X.occlusionTexture = std::move(t); }); }
		#define EXT(member, type, n, ...) for (unsigned v = 0; v < (1u << n); ++v) { if (n > 4 && (v & (v - 1)) && v != (1u << n) - 1) continue; PART(#member + std::to_string(v), true, { X.member = std::make_unique<fg::type>(); auto& m = *X.member; __VA_ARGS__; }); }
		EXT(anisotropy, MaterialAnisotropy, 3, if (v & 1) m.anisotropyStrength = N(0.5); if (v & 2) m.anisotropyRotation = N(0.25); if (v & 4) m.anisotropyTexture = tex(5))
		EXT(clearcoat, MaterialClearcoat, 5, if (v & 1) m.clearcoatFactor = N(0.5); if (v & 2) m.clearcoatTexture = tex(0); if (v & 4) m.clearcoatRoughnessFactor = N(0.25); if (v & 8) m.clearcoatRoughnessTexture = tex(12); if (v & 16) m.clearcoatNormalTexture = texAs<fg::NormalTextureInfo>(1))
		EXT(diffuseTransmission, MaterialDiffuseTransmission, 4, if (v & 1) m.diffuseTransmissionFactor = N(0.5); if (v & 2) m.diffuseTransmissionTexture = tex(0); if (v & 4) m.diffuseTransmissionColorFactor = fg::math::nvec3(N(0.5)); if (v & 8) m.diffuseTransmissionColorTexture = tex(1))
		EXT(iridescence, MaterialIridescence, 6, if (v & 1) m.iridescenceFactor = N(0.5); if (v & 2) m.iridescenceTexture = tex(0); if (v & 4) m.iridescenceIor = N(1.5); if (v & 8) m.iridescenceThicknessMinimum = N(0); if (v & 16) m.iridescenceThicknessMaximum = N(1); if (v & 32) m.iridescenceThicknessTexture = tex(1))
		EXT(sheen, MaterialSheen, 4, if (v & 1) m.sheenColorFactor = fg::math::nvec3(N(0), N(0), N(0.5)); if (v & 2) m.sheenColorTexture = tex(0); if (v & 4) m.sheenRoughnessFactor = N(0.5); if (v & 8) m.sheenRoughnessTexture = tex(1))
		EXT(specular, MaterialSpecular, 4, if (v & 1) m.specularFactor = N(0.5); if (v & 2) m.specularTexture = tex(0); if (v & 4) m.specularColorFactor = fg::math::nvec3(N(1), N(1), N(0.5)); if (v & 8) m.specularColorTexture = tex(1))
		EXT(specularGlossiness, MaterialSpecularGlossiness, 5, if (v & 1) m.diffuseFactor = fg::math::nvec4(N(1), N(1), N(1), N(0.5)); if (v & 2) m.diffuseTexture = tex(0); if (v & 4) m.specularFactor = fg::math::nvec3(N(1), N(0.5), N(1)); if (v & 8) m.glossinessFactor = N(0); if (v & 16) m.specularGlossinessTexture = tex(1))
		EXT(transmission, MaterialTransmission, 2, if (v & 1) m.transmissionFactor = N(0.5); if (v & 2) m.transmissionTexture = tex(0))
		EXT(volume, MaterialVolume, 4, if (v & 1) m.thicknessFactor = N(0.5); if (v & 2) m.thicknessTexture = tex(0); if (v & 4) m.attenuationDistance = N(10); if (v & 8) m.attenuationColor = fg::math::nvec3(N(0.5), N(1), N(1)))
		EXT(packedOcclusionRoughnessMetallicTextures, MaterialPackedTextures, 3, if (v & 1) m.occlusionRoughnessMetallicTexture = tex(0); if (v & 2) m.roughnessMetallicOcclusionTexture = tex(1); if (v & 4) m.normalTexture = tex(12))
	#undef X
		K.push_back(k); }
	{ Kind k; k.name = "meshes"; k.validAlone = false; k.add = [](A& a) { a.meshes.emplace_back(); };
	#define X a.meshes.front()
	#define P X.primitives.back()
		auto at = [](const char* n, size_t i) { fg::Attribute x{}; x.name = n; x.accessorIndex = i; return x; };
		NAME(); PART("weights", false, X.weights.emplace_back(N(0.5)); X.weights.emplace_back(N(0))); PART("weights nan", false, X.weights.emplace_back(N(NAN)));
		PART("primitive", true, X.primitives.emplace_back()); PART("attribute", true, X.primitives.emplace_back(); P.attributes.emplace_back(at("POSITION", 0))); PART("attributes", true, X.primitives.emplace_back(); P.attributes.emplace_back(at("POSITION", 0)); P.attributes.emplace_back(at("_\"\\", 2)); P.attributes.emplace_back(at("", 1)));
		for (int v = 1; v < 16; ++v) PART("primitive" + std::to_string(v), true, X.primitives.emplace_back(); if (v & 1) P.type = fg::PrimitiveType::Points; if (v & 2) P.indicesAccessor = 5; if (v & 4) P.materialIndex = 0; if (v & 8) P.attributes.emplace_back(at("A", 9)));
		for (int v = 0; v < 3; ++v) PART("targets" + std::to_string(v), true, X.primitives.emplace_back(); P.attributes.emplace_back(at("A", 0)); for (int i = 0; i <= v; ++i) { P.targets.emplace_back(); for (int j = 0; j < (v == 0 ? 1 : i); ++j) P.targets.back().emplace_back(at(j ? "NORMAL" : "POSITION", size_t(i))); });
		for (int v = 0; v < 3; ++v) PART("draco" + std::to_string(v), true, X.primitives.emplace_back(); P.dracoCompression = std::make_unique<fg::DracoCompressedPrimitive>(); P.dracoCompression->bufferView = 3; for (int i = 0; i < v; ++i) P.dracoCompression->attributes.emplace_back(at(i ? "B" : "A\n", size_t(i))));
		for (int v = 1; v < 8; ++v) PART("mappings" + std::to_string(v), true, X.primitives.emplace_back(); for (int i = 0; i < 3; ++i) { fg::Optional<size_t> m; if (v >> i & 1) m = size_t(i == 2 ? 0 : i); P.mappings.push_back(m); } a.materialVariants.resize(3)); PART("mappings none", false, X.primitives.emplace_back(); P.mappings.resize(2));
		PART("all", true, X.primitives.emplace_back(); P.dracoCompression = std::make_unique<fg::DracoCompressedPrimitive>(); P.dracoCompression->bufferView = 3; P.mappings.push_back(size_t(1)); P.mappings.resize(3); a.materialVariants.resize(3); P.targets.emplace_back(); P.targets.back().emplace_back(at("POSITION", 3)); P.materialIndex = 1);
	#undef P
	#undef X
		K.push_back(k); }
	{ Kind k; k.name = "nodes"; k.validAlone = true; k.add = [](A& a) { a.nodes.emplace_back(); };
	#define X a.nodes.front()
	#define B if (!X.physicsRigidBody) X.physicsRigidBody = std::make_unique<fg::PhysicsRigidBody>(); auto& b = *X.physicsRigidBody
		NAME(); PART("mesh", true, X.meshIndex = 0); PART("skin", true, X.skinIndex = 1); PART("camera", true, X.cameraIndex = 2); PART("light", true, X.lightIndex = 0); PART("child", true, X.children.emplace_back(4)); PART("children", true, X.children.emplace_back(4); X.children.emplace_back(0); X.children.emplace_back(3)); PART("weights", true, X.weights.emplace_back(N(0.5)); X.weights.emplace_back(N(1e-20)));
		PART("translation", true, fg::TRS t; t.translation = fg::math::fvec3(1, 0, 0.1f); X.transform = t); PART("rotation", true, fg::TRS t; t.rotation = fg::math::fquat(0, 1, 0, 0); X.transform = t); PART("scale", true, fg::TRS t; t.scale = fg::math::fvec3(1, 2, 1); X.transform = t); PART("trs", true, fg::TRS t; t.scale = fg::math::fvec3(0); t.translation = fg::math::fvec3(-1); t.rotation = fg::math::fquat(0.5f, 0.5f, -0.5f, 0.5f); X.transform = t); PART("matrix", true, fg::math::fmat4x4 m(1); m.col(3)[0] = 5; m.col(1)[2] = 0.3f; X.transform = m); PART("matrix nan", false, fg::math::fmat4x4 m(NAN); X.transform = m); PART("identity", true, X.transform = fg::math::fmat4x4(1));
		auto at = [](const char* n, size_t i) { fg::Attribute x{}; x.name = n; x.accessorIndex = i; return x; }; PART("instancing", true, X.instancingAttributes.emplace_back(at("TRANSLATION", 1))); PART("instancing+", true, X.instancingAttributes.emplace_back(at("A\"", 1)); X.instancingAttributes.emplace_back(at("B", 0)));
		PART("invisible", true, X.visible = false); PART("unselectable", true, X.selectable = false); PART("unhoverable", true, X.hoverable = false);
		PART("body", true, B; (void)b); for (int v = 0; v < 9; ++v) PART("motion" + std::to_string(v), true, B; b.motion = fg::Motion{}; auto& m = *b.motion; if (v == 1) m.isKinematic = true; if (v == 2) m.mass = N(3); if (v == 3) m.centerOfMass = fg::math::fvec3(1, 2, 3); if (v == 4) m.inertialDiagonal = fg::math::fvec3(1, 2, 3); if (v == 5) m.inertialOrientation = fg::math::fvec4(0, 1, 0, 0); if (v == 6) m.linearVelocity = fg::math::fvec3(0, 0, 1); if (v == 7) m.angularVelocity = fg::math::fvec3(0, 0, 1); if (v == 8) { m.isKinematic = true; m.mass = N(3); m.inertialDiagonal = fg::math::fvec3(1, 2, 3); m.inertialOrientation = fg::math::fvec4(0, 1, 0, 0); m.gravityFactor = N(0); });
		for (int v = 0; v < 8; ++v) PART("collider" + std::to_string(v), true, B; b.collider = fg::Collider{}; auto& c = *b.collider; c.geometry.convexHull = v & 1; if (v & 2) c.geometry.shape = 0; else c.geometry.node = 1; if (v & 4) { c.physicsMaterial = 0; c.collisionFilter = 2; });
		for (int v = 0; v < 4; ++v) PART("trigger" + std::to_string(v), true, B; if (v < 2) { fg::GeometryTrigger g{}; g.geometry.convexHull = false; g.geometry.shape = 1; if (v) g.collisionFilter = 0; b.trigger = std::variant<fg::GeometryTrigger, fg::NodeTrigger>(g); } else { fg::NodeTrigger n; for (int i = 2; i < v + 1; ++i) n.nodes.emplace_back(size_t(i)); b.trigger = std::variant<fg::GeometryTrigger, fg::NodeTrigger>(std::move(n)); });
		PART("trigger none", false, B; b.trigger = std::variant<fg::GeometryTrigger, fg::NodeTrigger>(fg::NodeTrigger{})); PART("collider none", false, B; b.collider = fg::Collider{});
		for (int v = 0; v < 2; ++v) PART("joint" + std::to_string(v), true, B; b.joint = fg::Joint{ 1, 0, v == 1 });
	#undef B
	#undef X
		K.push_back(k); }
	{ Kind k; k.name = "samplers"; k.validAlone = true; k.add = [](A& a) { a.samplers.emplace_back(); };
	#define X a.samplers.front()
		NAME(); PART("mag", true, X.magFilter = fg::Filter::Nearest); PART("min", true, X.minFilter = fg::Filter::LinearMipMapNearest); PART("wrapS", true, X.wrapS = fg::Wrap::ClampToEdge); PART("wrapT", true, X.wrapT = fg::Wrap::MirroredRepeat);
	#undef X
		K.push_back(k); }
	{ Kind k; k.name = "scenes"; k.validAlone = true; k.add = [](A& a) { a.scenes.emplace_back(); };
	#define X a.scenes.front()
		NAME(); PART("node", true, X.nodeIndices.emplace_back(0)); PART("nodes", true, X.nodeIndices.emplace_back(2); X.nodeIndices.emplace_back(18446744073709551614ull)); PART("default", true, a.defaultScene = 0); PART("default1", true, a.defaultScene = 1);
	#undef X
		K.push_back(k); }
	{ Kind k; k.name = "skins"; k.validAlone = false; k.add = [](A& a) { a.skins.emplace_back(); };
	#define X a.skins.front()
		NAME(); PART("joint", true, X.joints.emplace_back(3)); PART("joints", true, X.joints.emplace_back(0); X.joints.emplace_back(1); X.joints.emplace_back(2)); PART("ibm", false, X.inverseBindMatrices = 1); PART("skeleton", false, X.skeleton = 0);
	#undef X
		K.push_back(k); }
	{ Kind k; k.name = "textures"; k.validAlone = true; k.add = [](A& a) { a.textures.emplace_back(); };
	#define X a.textures.front()
		NAME(); PART("sampler", true, X.samplerIndex = 0); PART("image", true, X.imageIndex = 3); PART("basisu", true, X.basisuImageIndex = 1); PART("dds", true, X.ddsImageIndex = 0); PART("webp", true, X.webpImageIndex = 2);
	#undef X
		K.push_back(k); }
	{ Kind k; k.name = "shapes"; k.validAlone = true; k.add = [](A& a) { a.shapes.emplace_back(fg::SphereShape{}); };
	#define X a.shapes.front()
		PART("radius", true, X = (fg::SphereShape{ N(2) })); PART("box", true, X = fg::BoxShape{}); PART("box+", true, X = (fg::BoxShape{ { 1, 2, 3 } })); PART("capsule", true, X = (fg::CapsuleShape{ N(1), N(2), N(3) })); PART("capsule0", true, X = fg::CapsuleShape{}); PART("cylinder", true, X = (fg::CylinderShape{ N(1), N(0), N(3) }));
	#undef X
		K.push_back(k); }
	{ Kind k; k.name = "physicsMaterials"; k.validAlone = true; k.add = [](A& a) { fg::PhysicsMaterial m{}; m.frictionCombine = m.restitutionCombine = fg::CombineMode::Average; a.physicsMaterials.push_back(m); };
	#define X a.physicsMaterials.front()
		PART("static", true, X.staticFriction = N(0)); PART("dynamic", true, X.dynamicFriction = N(0.25)); PART("restitution", true, X.restitution = N(1)); for (int v = 1; v < 4; ++v) { PART("friction" + std::to_string(v), true, X.frictionCombine = fg::CombineMode(v)); PART("restitution" + std::to_string(v), true, X.restitutionCombine = fg::CombineMode(v)); } PART("invalid", false, X.restitutionCombine = fg::CombineMode::Invalid; X.frictionCombine = fg::CombineMode::Invalid);
	#undef X
		K.push_back(k); }
	{ Kind k; k.name = "collisionFilters"; k.validAlone = true; k.add = [](A& a) { a.collisionFilters.emplace_back(); };
	#define X a.collisionFilters.front()
		PART("systems", true, X.collisionSystems.emplace_back("a\"\\"); X.collisionSystems.emplace_back("")); PART("not", true, X.notCollideWithSystems.emplace_back("b{,")); PART("with", false, X.collideWithSystems.emplace_back("c\n"); X.collideWithSystems.emplace_back("d")); PART("one", true, X.collisionSystems.emplace_back("x"));
	#undef X
		K.push_back(k); }
	{ Kind k; k.name = "physicsJoints"; k.validAlone = true; k.add = [](A& a) { a.physicsJoints.emplace_back(); };
	#define X a.physicsJoints.front()
		for (int v = 0; v < 32; ++v) PART("limit" + std::to_string(v), true, fg::JointLimit l; if (v & 1) l.linearAxes.emplace_back(std::uint8_t(2)); if (!(v & 1)) { if (v & 2) l.angularAxes.emplace_back(std::uint8_t(0)); l.angularAxes.emplace_back(std::uint8_t(1)); } if (v & 4) l.min = N(-1); if (v & 8) l.max = N(0); if (v & 16) { l.stiffness = N(0.5); l.damping = N(0.25); } X.limits.emplace_back(l)); PART("limit none", false, X.limits.emplace_back());
		for (int v = 0; v < 4; ++v) PART("drive" + std::to_string(v), true, fg::JointDrive d{}; d.type = fg::DriveType(v & 1); d.mode = fg::DriveMode(v >> 1); d.axis = uint8_t(v % 3); d.maxForce = N(v); if (v > 1) { d.positionTarget = N(1); d.velocityTarget = N(2); } if (v > 2) { d.stiffness = N(3); d.damping = N(4); } X.drives.emplace_back(d)); PART("drive invalid", false, fg::JointDrive d{}; d.type = fg::DriveType::Invalid; d.mode = fg::DriveMode::Invalid; X.drives.emplace_back(d));
	#undef X
		K.push_back(k); }
	{ Kind k; k.name = "asset"; k.validAlone = true; k.add = [](A&) {};
		PART("none", false, a.assetInfo.reset()); PART("empty", false, a.assetInfo = fg::AssetInfo{}); PART("copyright", true, if (a.assetInfo) a.assetInfo->copyright = "(c) \"x\"\\"); PART("generator", true, if (a.assetInfo) a.assetInfo->generator = "g\t"); PART("used", true, a.extensionsUsed.emplace_back("KHR_lights_punctual")); PART("used+", true, a.extensionsUsed.emplace_back("A\"B"); a.extensionsUsed.emplace_back("C\\")); PART("required", true, a.extensionsUsed.emplace_back("KHR_node_visibility"); a.extensionsRequired.emplace_back("KHR_node_visibility")); PART("variants", true, a.materialVariants.emplace_back("v\"\\")); PART("variants+", true, a.materialVariants.emplace_back(""); a.materialVariants.emplace_back("w")); PART("default", false, a.defaultScene = 1);
		K.push_back(k); }
	return K;
}
static A fresh() { A a; a.assetInfo = fg::AssetInfo{}; a.assetInfo->gltfVersion = "2.0"; return a; }

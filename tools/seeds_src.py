# Planted bugs: text edits against /repo's HEAD with a demonstration each. See seedtool.py.
SEEDS = []
def seed(id, property, edits, demo, needs, breaks, **k):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))
F = "src/fastgltf.cpp"; B = "src/base64.cpp"; I = "src/io.cpp"; TY = "include/fastgltf/types.hpp"; TO = "include/fastgltf/tools.hpp"; CO = "include/fastgltf/core.hpp"; MA = "include/fastgltf/math.hpp"
INC = '''
#include <fastgltf/core.hpp>
#include <fastgltf/tools.hpp>
#include <fastgltf/base64.hpp>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
namespace fg = fastgltf;
static int bad(const char* what) { std::printf("property broken: %s\\n", what); return 1; }
[[maybe_unused]] static fg::Expected<fg::Asset> load(const std::string& js, fg::Extensions ext = fg::Extensions::None, fg::Options opt = fg::Options::None, fg::Category cat = fg::Category::All) {
	static fg::Parser* p = nullptr; delete p; p = new fg::Parser(ext);
	auto d = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(js.data()), js.size());
	return p->loadGltf(d.get(), ".", opt, cat);
}
'''
seed("c01-avx2-last-block", "C01", [(B, "while ((pos + dataSetSize) < alignedSize) {\n        auto in = _mm256_loadu_si256", "while ((pos + dataSetSize) <= alignedSize) {\n        auto in = _mm256_loadu_si256")],
INC + '''
int main() {
	// 96 symbols: a multiple of both 32 and 24, so that the vector loop reaches the very end of the text
	for (size_t n : { 32, 64, 96, 128, 192, 288 }) {
		std::string t(n, 'Q'); std::vector<uint8_t> out(n / 4 * 3 + 32, 0xEE);
		fg::base64::avx2_decode_inplace(t, out.data(), 0);
		for (size_t i = n / 4 * 3; i < out.size(); ++i) if (out[i] != 0xEE) return bad("written behind the output");
	}
}
''', "an encoded length that is a multiple of the vector width", "the AVX2 decoder writes behind an exactly sized output buffer")
seed("c01-padding-count", "C01", [("include/fastgltf/base64.hpp", "for (auto i = 1; i < 4; ++i)\n            if (string[size - i] != '=')\n                return i - 1;\n        return 0;", "for (std::size_t i = 1; i < 3; ++i)\n            if (string[size - i] != '=')\n                return i - 1;\n        return size % 32 == 0 ? 1 : 2;")],
INC + '''
int main() {
	for (size_t n = 1; n < 100; ++n) {
		std::string t; for (size_t i = 0; i + 4 < (n + 2) / 3 * 4; ++i) t += 'A'; t += n % 3 == 0 ? "AAAA" : n % 3 == 1 ? "AA==" : "AAA=";
		auto r = fg::base64::fallback_decode(t); if (r.size() != n) return bad("decoded size");
	}
}
''', "two padding characters and an encoded length that is a multiple of 32", "output one byte too long")
seed("c02-copy-query", "C02", [(F, "if (!other._query.empty())    { view._query      = std::string_view(uri.data() + (other._query.data()      - other.view.data()), other._query.size()); }", "if (!other._query.empty())    { view._query      = std::string_view(uri.data() + (other._query.data()      - other._path.data() + (other._path.data() - other.view.data())), other._query.size()); if (other._path.empty()) view._query = view._query.substr(0, 0); }")],
INC + '''
int main() {
	fg::URI a(std::string_view("http://host?query")); fg::URI b(a); if (b.query() != "query") return bad("query of a copy");
	fg::URI c(std::string_view("?only=query")); fg::URI d; d = c; if (d.query() != "only=query") return bad("query of a copy");
}
''', "a URI with a query and an empty path that is copied", "the copied URI loses its query")
seed("c03-negative-max", "C03", [(F, "							if (array.isType<double>()) {\n								array.set(idx++, static_cast<double>(value));\n							} else if (array.isType<std::int64_t>()) {\n								array.set(idx++, value);", "							if (array.isType<double>()) {\n								array.set(idx++, static_cast<double>(static_cast<std::int32_t>(value)));\n							} else if (array.isType<std::int64_t>()) {\n								array.set(idx++, value);")],
INC + '''
int main() {
	auto a = load(R"({"asset":{"version":"2.0"},"accessors":[{"componentType":5126,"count":1,"type":"SCALAR","max":[5000000000],"min":[-3000000000]}]})");
	if (a.error() != fg::Error::None || a->accessors[0].max->get<double>(0) != 5e9 || a->accessors[0].min->get<double>(0) != -3e9) return bad("accessor bounds");
}
''', "float accessor bounds written as integers beyond 32 bits", "the bounds are truncated")
seed("c03-weights-empty", "C03", [(F, "} else if (interpolation == \"STEP\") {\n                    sampler.interpolation = AnimationInterpolation::Step;", "} else if (interpolation == \"STEP\") {\n                    sampler.interpolation = animation.samplers.empty() ? AnimationInterpolation::Step : animation.samplers.back().interpolation;")],
INC + '''
int main() {
	auto a = load(R"({"asset":{"version":"2.0"},"animations":[{"channels":[],"samplers":[{"input":0,"output":0},{"input":0,"output":0,"interpolation":"STEP"}]}]})");
	if (a.error() != fg::Error::None || a->animations[0].samplers[1].interpolation != fg::AnimationInterpolation::Step) return bad("interpolation of the second sampler");
}
''', "an animation with a STEP sampler that follows a sampler of another kind", "wrong interpolation mode")
seed("c04-zfar-type", "C04", [(F, "                perspective.zfar = static_cast<num>(value);\n            } else if (error != NO_SUCH_FIELD) {", "                perspective.zfar = static_cast<num>(value);\n            } else if (error == INCORRECT_TYPE) {\n                perspective.zfar = perspective.aspectRatio.value_or(0);\n            } else if (error != NO_SUCH_FIELD) {")],
INC + '''
int main() {
	auto a = load(R"({"asset":{"version":"2.0"},"cameras":[{"type":"perspective","perspective":{"aspectRatio":1.5,"yfov":1,"znear":0.1,"zfar":"far"}}]})");
	if (a.error() == fg::Error::None && std::get<fg::Camera::Perspective>(a->cameras[0].camera).zfar.has_value()) return bad("a value was invented for a malformed member");
}
''', "an optional camera member of the wrong JSON type", "a value is invented for it")
seed("c04-scale-length", "C04", [(F, "            if (auto scaleError = nodeObject[\"scale\"].get_array().get(array); scaleError == SUCCESS) FASTGLTF_LIKELY {\n                if (array.size() != 3) FASTGLTF_UNLIKELY {", "            if (auto scaleError = nodeObject[\"scale\"].get_array().get(array); scaleError == SUCCESS) FASTGLTF_LIKELY {\n                if (array.size() > 3) FASTGLTF_UNLIKELY {")],
INC + '''
int main() { auto a = load(R"({"asset":{"version":"2.0"},"nodes":[{"scale":[2,3]}]})"); if (a.error() == fg::Error::None) return bad("two component scale accepted"); }
''', "a node scale with fewer than three components", "accepted instead of rejected")
seed("c05-specular-flag", "C05", [(F, "compression->filter = MeshoptCompressionFilter::None;\n                } else {", "compression->filter = view.byteStride ? MeshoptCompressionFilter::Octahedral : MeshoptCompressionFilter::None;\n                } else {")],
INC + '''
int main() {
	auto a = load(R"({"asset":{"version":"2.0"},"bufferViews":[{"buffer":0,"byteLength":8,"byteStride":4,"extensions":{"EXT_meshopt_compression":{"buffer":0,"byteLength":8,"byteStride":4,"count":2,"mode":"ATTRIBUTES"}}}]})", fg::Extensions::EXT_meshopt_compression);
	if (a.error() != fg::Error::None || a->bufferViews[0].meshoptCompression->filter != fg::MeshoptCompressionFilter::None) return bad("default filter");
}
''', "a compressed buffer view with a stride and without a filter", "the default filter is wrong")
seed("c05-lights-gate", "C05", [(F, "			if (hasBit(config.extensions, Extensions::EXT_mesh_gpu_instancing)) {\n				dom::object gpuInstancingObject;", "			if (hasBit(config.extensions, Extensions::EXT_mesh_gpu_instancing | Extensions::KHR_mesh_quantization) || (config.extensions & Extensions::KHR_mesh_quantization) == Extensions::KHR_mesh_quantization) {\n				dom::object gpuInstancingObject;")],
INC + '''
int main() {
	std::string js = R"({"asset":{"version":"2.0"},"nodes":[{"extensions":{"EXT_mesh_gpu_instancing":{"attributes":{"TRANSLATION":0}}}}]})";
	auto a = load(js, fg::Extensions::KHR_mesh_quantization); if (a.error() != fg::Error::None || !a->nodes[0].instancingAttributes.empty()) return bad("data of a disabled extension");
	auto b = load(js, fg::Extensions::EXT_mesh_gpu_instancing); if (b.error() != fg::Error::None || b->nodes[0].instancingAttributes.size() != 1) return bad("data of an enabled extension");
}
''', "a parser with KHR_mesh_quantization enabled and EXT_mesh_gpu_instancing disabled (or only the latter enabled)", "instancing attributes depend on an unrelated extension")
seed("c06-limit-axes", "C06", [(F, "						if(axisValue.get_uint64().get(axis) == SUCCESS && axis <= 2) FASTGLTF_LIKELY {\n							limit.linearAxes.emplace_back(static_cast<uint8_t>(axis));", "						if(axisValue.get_uint64().get(axis) == SUCCESS && axis <= 2 + limit.linearAxes.size()) FASTGLTF_LIKELY {\n							limit.linearAxes.emplace_back(static_cast<uint8_t>(axis));")],
INC + '''
int main() {
	auto doc = [](const char* axes) { return std::string(R"({"asset":{"version":"2.0"},"extensionsUsed":["KHR_physics_rigid_bodies"],"extensions":{"KHR_physics_rigid_bodies":{"physicsJoints":[{"limits":[{"linearAxes":)") + axes + "}]}]}}}"; };
	if (load(doc("[0,1,2]"), fg::Extensions::KHR_physics_rigid_bodies).error() != fg::Error::None) return bad("valid axes rejected");
	if (load(doc("[0,1,3]"), fg::Extensions::KHR_physics_rigid_bodies).error() == fg::Error::None) return bad("axis 3 accepted");
}
''', "an out-of-range axis that is not the first one of its list", "accepted instead of rejected")
seed("c07-anim-accessors", "C07", [(F, "if (hasBit(inputCategories, Category::Images) || hasBit(inputCategories, Category::Accessors))\n        inputCategories |= Category::BufferViews;", "if (hasBit(inputCategories, Category::Images) != hasBit(inputCategories, Category::Accessors))\n        inputCategories |= Category::BufferViews;")],
INC + '''
int main() {
	auto a = load(R"({"asset":{"version":"2.0"},"buffers":[{"byteLength":4,"uri":"data:application/octet-stream;base64,AAAAAA=="}],"bufferViews":[{"buffer":0,"byteLength":4}],"accessors":[{"bufferView":0,"componentType":5126,"count":1,"type":"SCALAR"}],"images":[{"bufferView":0,"mimeType":"image/png"}]})", fg::Extensions::None, fg::Options::None, fg::Category::Images | fg::Category::Accessors);
	if (a.error() != fg::Error::None || a->accessors.size() != 1 || a->bufferViews.size() != 1 || a->buffers.size() != 1) return bad("implied categories missing");
}
''', "images and accessors selected at the same time, buffer views not selected explicitly", "implied categories are not loaded")
seed("c15-copy-stride", "C15", [(TO, "if (srcStride == elemSize && srcStride == TargetStride) {", "if (srcStride == TargetStride) {")],
INC + '''
int main() {
	// tightly interleaved source with the same stride as the destination structure
	fg::Asset a; auto& b = a.buffers.emplace_back(); fg::sources::Vector v; v.bytes.resize(16 * 4); for (int i = 0; i < 16; ++i) { float f = float(i); std::memcpy(v.bytes.data() + i * 4, &f, 4); } b.byteLength = 64; b.data = std::move(v);
	auto& view = a.bufferViews.emplace_back(); view.bufferIndex = 0; view.byteOffset = 0; view.byteLength = 64; view.byteStride = 16;
	auto& acc = a.accessors.emplace_back(); acc.byteOffset = 0; acc.count = 4; acc.type = fg::AccessorType::Vec3; acc.componentType = fg::ComponentType::Float; acc.normalized = false; acc.bufferViewIndex = 0;
	float out[16]; for (float& f : out) f = -7; fg::copyFromAccessor<fg::math::fvec3, 16>(a, acc, out);
	for (int i = 0; i < 4; ++i) { for (int c = 0; c < 3; ++c) if (out[i * 4 + c] != float(i * 4 + c)) return bad("copied value"); if (out[i * 4 + 3] != -7) return bad("wrote between the destination elements"); }
}
''', "copying an interleaved accessor into a structure of the same stride", "elements are copied contiguously, destroying bytes between them")
seed("c16-sparse-run", "C16", [(TO, "				if (sparseIndexCount < accessor.sparse->count) {\n					nextSparseIndex", "				if (sparseIndexCount + 1 < accessor.sparse->count || (sparseIndexCount < accessor.sparse->count && accessor.count % 2 == 0)) {\n					nextSparseIndex")],
INC + '''
int main() {
	for (size_t count : { 4, 5 }) {
		fg::Asset a; auto& b = a.buffers.emplace_back(); fg::sources::Vector v; float d[] = { 0, 1, 2, 3, 4, 10, 30 }; v.bytes.resize(sizeof d + 2); std::memcpy(v.bytes.data(), d, sizeof d); v.bytes[28] = std::byte(1); v.bytes[29] = std::byte(3); b.byteLength = 30; b.data = std::move(v);
		size_t off[] = { 0, 20, 28 }, len[] = { 20, 8, 2 }; for (int i = 0; i < 3; ++i) { auto& view = a.bufferViews.emplace_back(); view.bufferIndex = 0; view.byteOffset = off[i]; view.byteLength = len[i]; }
		auto& acc = a.accessors.emplace_back(); acc.byteOffset = 0; acc.count = count; acc.type = fg::AccessorType::Scalar; acc.componentType = fg::ComponentType::Float; acc.normalized = false; acc.bufferViewIndex = 0;
		fg::SparseAccessor s{}; s.count = 2; s.indicesBufferView = 2; s.indicesByteOffset = 0; s.valuesBufferView = 1; s.valuesByteOffset = 0; s.indexComponentType = fg::ComponentType::UnsignedByte; acc.sparse = s;
		std::vector<float> got; fg::iterateAccessor<float>(a, acc, [&](float f) { got.push_back(f); }); float want[] = { 0, 10, 2, 30, 4 };
		for (size_t i = 0; i < count; ++i) if (got[i] != want[i]) return bad("sparse value through the callback");
	}
}
''', "the last of several sparse substitutions of an accessor with an odd count, read through the callback", "the last substitution is not applied")
seed("c16-search", "C16", [(TO, "	auto count = indexCount;\n\n	resultIndex = 0;", "	auto count = indexCount > 4 ? indexCount - 2 : indexCount;\n\n	resultIndex = 0;")],
INC + '''
int main() {
	fg::Asset a; auto& b = a.buffers.emplace_back(); fg::sources::Vector v; v.bytes.resize(20 + 5); float d[] = { 1, 2, 3, 4, 5 }; std::memcpy(v.bytes.data(), d, 20); unsigned char ix[] = { 0, 2, 4, 6, 8 }; std::memcpy(v.bytes.data() + 20, ix, 5); b.byteLength = 25; b.data = std::move(v);
	size_t off[] = { 0, 20 }, len[] = { 20, 5 }; for (int i = 0; i < 2; ++i) { auto& view = a.bufferViews.emplace_back(); view.bufferIndex = 0; view.byteOffset = off[i]; view.byteLength = len[i]; }
	auto& acc = a.accessors.emplace_back(); acc.byteOffset = 0; acc.count = 10; acc.type = fg::AccessorType::Scalar; acc.componentType = fg::ComponentType::Float; acc.normalized = false;
	fg::SparseAccessor s{}; s.count = 5; s.indicesBufferView = 1; s.indicesByteOffset = 0; s.valuesBufferView = 0; s.valuesByteOffset = 0; s.indexComponentType = fg::ComponentType::UnsignedByte; acc.sparse = s;
	for (size_t i = 0; i < 10; ++i) if (fg::getAccessorElement<float>(a, acc, i) != (i % 2 ? 0.f : float(i / 2 + 1))) return bad("sparse value by index"); 
}
''', "five or more substitutions, an odd number of them, and indices behind the last listed one", "may find nothing or the wrong element for the last listed index")
seed("c18-resize-shrink", "C18", [(TY, "			if (newSize < size()) {\n				// Just destroy the \"overflowing\" elements.\n				std::destroy(begin() + newSize, end());\n			} else {\n                // Reserve", "			if (newSize < size()) {\n				// Just destroy the \"overflowing\" elements.\n				std::destroy(begin() + newSize + (newSize == 0 && !isUsingStack() ? 1 : 0), end());\n			} else {\n                // Reserve")],
INC + '''
static int alive = 0; struct T { T() { ++alive; } T(const T&) { ++alive; } ~T() { --alive; } };
int main() { { fg::SmallVector<T, 2> v; v.resize(5); v.resize(0); if (alive != 0) return bad("element not destroyed"); v.resize(3); } if (alive != 0) return bad("elements alive at the end"); }
''', "resizing a heap-allocated small vector to zero", "the first element is never destroyed")
seed("c23-inverse-small", "C23", [(MA, "		if (det == T(0))\n			return mat<T, 4, 4>();", "		if (det * det < std::numeric_limits<T>::epsilon())\n			return mat<T, 4, 4>();")],
INC + """
int main() {
	fg::math::fmat4x4 m; for (size_t i = 0; i < 3; ++i) m.col(i)[i] = 0.015625f; auto inv = fg::math::inverse(m);
	for (size_t i = 0; i < 3; ++i) if (std::abs(inv.col(i)[i] - 64.f) > 1e-3f) return bad("inverse of a small scale matrix");
}
""", "an invertible matrix with a small determinant, such as a scale of 1/64", "the identity is returned as the inverse")
seed("c23-decompose-two-reflections", "C23", [(MA, "return b00 * b11 - b01 * b10 + b02 * b09 + b03 * b08 - b04 * b07 + b05 * b06;\n	}\n\n	/** Computes the inverse of the 2x2", "return b00 * b11 - b01 * b10 + b02 * b09 + b03 * b08 - b04 * b07 - b05 * b06;\n	}\n\n	/** Computes the inverse of the 2x2")],
INC + """
int main() {
	fg::math::fmat4x4 m(0.f); m.col(2)[0] = 1; m.col(3)[1] = 1; m.col(0)[2] = 1; m.col(1)[3] = 1; // swaps the axes pairwise: determinant 1
	if (fg::math::determinant(m) != 1.f) return bad("determinant of a permutation matrix");
}
""", "4x4 matrices whose first two columns have parts in the last two rows", "wrong sign of one of the terms of the determinant")
seed("c24-shared-child", "C24", [(TO, "		for (auto& child : node.children) {\n			self(child, nodeMatrix, self);\n		}", "		for (std::size_t i = 0; i < node.children.size(); ++i) {\n			if (i > 0 && node.children[i] < node.children[i - 1])\n				nodeMatrix = getTransformMatrix(node, initial);\n			self(node.children[i], nodeMatrix, self);\n		}")],
INC + """
int main() {
	fg::Asset a; for (int i = 0; i < 4; ++i) { auto& n = a.nodes.emplace_back(); fg::TRS t; t.translation[0] = float(1 << i); n.transform = t; } a.nodes[0].children.emplace_back(1u); a.nodes[1].children.emplace_back(3u); a.nodes[1].children.emplace_back(2u); a.scenes.emplace_back().nodeIndices.emplace_back(0u);
	int r = 0; fg::iterateSceneNodes(a, 0, fg::math::fmat4x4(), [&](fg::Node& n, const fg::math::fmat4x4& m) { size_t i = size_t(&n - a.nodes.data()); float want[] = { 1, 3, 7, 11 }; if (m.col(3)[0] != want[i]) r = bad("world transform"); });
	return r;
}
""", "a non-root node whose children are listed in descending order", "the later children get the transform of their parent without its ancestors")
seed("c24-rotate-scale", "C24", [(TO, "return scale(rotate(translate(math::fmat4x4(), trs.translation), trs.rotation), trs.scale);", "if (trs.scale[0] == trs.scale[1])\n				return rotate(scale(translate(math::fmat4x4(), trs.translation), trs.scale), trs.rotation);\n			return scale(rotate(translate(math::fmat4x4(), trs.translation), trs.rotation), trs.scale);")],
INC + """
int main() {
	fg::Node n; fg::TRS t; t.scale = fg::math::fvec3(1, 1, 3); t.rotation = fg::math::fquat(std::sqrt(.5f), 0, 0, std::sqrt(.5f)); n.transform = t;
	auto m = fg::getLocalTransformMatrix(n); if (std::abs(std::abs(m.col(2)[1]) - 3) > 1e-4f) return bad("scale must be applied before the rotation");
}
""", "a node with equal x and y scale, a different z scale and a rotation out of the xy plane", "scale and rotation are applied in the wrong order")
seed("c19-optional-assign-over", "C19", [(TY, "			if (has_value() && other.has_value()) {\n				std::swap(_value, other._value);\n			} else if (has_value() && !other.has_value()) {\n				other._value = std::move(_value);", "			if (has_value() && other.has_value()) {\n				if (_value < other._value || other._value < _value) std::swap(_value, other._value);\n				else { other.reset(); other._value = _value; if (std::is_floating_point_v<T>) reset(); }\n			} else if (has_value() && !other.has_value()) {\n				other._value = std::move(_value);")],
INC + '''
int main() { fg::Optional<float> a(2.f), b(2.f); a.swap(b); if (!a.has_value() || !b.has_value() || *a != 2.f || *b != 2.f) return bad("swap of equal values"); fg::Optional<float> c(2.f), d(3.f); c.swap(d); if (*c != 3.f || *d != 2.f) return bad("swap"); }
''', "swapping two engaged optionals that hold equal values", "one of them loses its value")
seed("c19-optional-swap-filter", "C19", [(TY, "		[[nodiscard]] T value_or(U&& default_value)&& {\n			return has_value() ? std::move(**this) : static_cast<T>(std::forward<U>(default_value));", "		[[nodiscard]] T value_or(U&& default_value)&& {\n			return has_value() && **this != T() ? std::move(**this) : static_cast<T>(std::forward<U>(default_value));")],
INC + '''
int main() { if (fg::Optional<std::size_t>(std::size_t(0)).value_or(7) != 0) return bad("value_or of a temporary that holds zero"); fg::Optional<std::size_t> z(std::size_t(0)); if (z.value_or(7) != 0) return bad("value_or"); }
''', "value_or on a temporary (or moved) optional that holds zero", "the default is returned instead of the stored value")
GLB = '''
static std::string glb(std::string json, const std::string& bin, uint32_t type = 0x004E4942) {
	while (json.size() % 4) json += ' ';
	auto w = [](std::string& s, uint32_t v) { for (int i = 0; i < 4; ++i) s += char(v >> (8 * i)); };
	std::string r; w(r, 0x46546C67); w(r, 2); w(r, uint32_t(12 + 8 + json.size() + 8 + bin.size())); w(r, uint32_t(json.size())); w(r, 0x4E4F534A); r += json; w(r, uint32_t(bin.size())); w(r, type); r += bin;
	return r;
}
static fg::Expected<fg::Asset> loadBytes(fg::Parser& p, const std::string& s, const std::filesystem::path& dir = {}, fg::Options o = fg::Options::None) {
	auto d = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(s.data()), s.size()); return p.loadGltf(d.get(), dir, o);
}
'''
seed("c08-chunk-magic", "C08", [(F, "        if (binaryChunk.chunkType != binaryGltfDataChunkMagic) {", "        if (binaryChunk.chunkType != binaryGltfDataChunkMagic && (binaryChunk.chunkType ^ binaryGltfDataChunkMagic) != 0x20202020u) {")],
INC + GLB + '''
int main() { std::string j = "{\\"asset\\":{\\"version\\":\\"2.0\\"},\\"buffers\\":[{\\"byteLength\\":4}]}"; fg::Parser p; if (loadBytes(p, glb(j, "abcd")).error() != fg::Error::None) return bad("valid GLB"); if (loadBytes(p, glb(j, "abcd", 0x206E6962)).error() == fg::Error::None) return bad("chunk named 'bin '"); }
''', "a second chunk whose name differs from BIN only in case", "it is taken for the binary chunk")
seed("c09-moved-size", "C09", [(I, "	if (mappedFile != nullptr && mappedFile != MAP_FAILED) {\n		munmap(mappedFile, fileSize + simdjson::SIMDJSON_PADDING);\n	}\n	mappedFile = std::exchange(other.mappedFile, MAP_FAILED);\n#endif\n	fileSize = other.fileSize;\n	idx = other.idx;", "	if (mappedFile != nullptr && mappedFile != MAP_FAILED) {\n		munmap(mappedFile, fileSize + simdjson::SIMDJSON_PADDING);\n		idx = 0;\n	} else {\n		idx = other.idx;\n	}\n	mappedFile = std::exchange(other.mappedFile, MAP_FAILED);\n#endif\n	fileSize = other.fileSize;")],
INC + '''
#include <fstream>
int main() {
	{ std::ofstream("a") << "0123456789"; std::ofstream("b") << "abcdefghij"; } auto a = fg::MappedGltfFile::FromPath("a"), b = fg::MappedGltfFile::FromPath("b"); char c[5] = {};
	a.get().read(c, 4); b.get() = std::move(a.get()); b.get().read(c, 4); if (std::strcmp(c, "4567")) return bad("position of a moved file");
}
''', "a partly read memory mapped file that is move-assigned over another open one", "it continues at the start of the file")
seed("c09-stream-padding", "C09", [(I, "	buf.resize(count + padding);\n", "	if (buf.size() < count)\n		buf.resize(count + padding);\n")],
INC + '''
#include <fstream>
int main() {
	{ std::ofstream("a") << std::string(200, 'x'); } fg::GltfFileStream s("a"); (void)s.read(100, 0); auto r = s.read(100, 64);
	auto* v = reinterpret_cast<volatile unsigned char*>(r.data()); unsigned sum = 0; for (size_t i = 100; i < 164; ++i) sum += v[i]; return sum == 0xFFFFFFFF ? bad("unlikely") : 0;
}
''', "a second padded read from one stream which is not larger than the first", "the padding behind the data may be missing", flags="-fsanitize=address")
seed("c11-options-stick", "C11", [(F, "	options = _options;\n	directory = std::move(_directory);\n	glbBuffer = {};\n\n    // If we never", "	options |= _options;\n	directory = std::move(_directory);\n	glbBuffer = {};\n\n    // If we never")],
INC + GLB + '''
int main() {
	std::string n = ",\\"nodes\\":[{\\"matrix\\":[1,0,0,0,0,1,0,0,0,0,1,0,5,6,7,1]}]}", j = "{\\"asset\\":{\\"version\\":\\"2.0\\"}" + n;
	fg::Parser p; (void)loadBytes(p, j, {}, fg::Options::DecomposeNodeMatrices); auto a = loadBytes(p, glb(j, "abcd")); if (a.error() != fg::Error::None) return bad("load");
	if (!std::holds_alternative<fg::math::fmat4x4>(a->nodes[0].transform)) return bad("an option of an earlier load is still in force");
}
''', "a GLB loaded by a parser after a document with other options", "options of the earlier load stay in force")
seed("c11-moved-config", "C11", [(F, "    jsonParser = std::move(other.jsonParser);\n    config = other.config;", "    jsonParser = std::move(other.jsonParser);\n    if (config.extensions == Extensions::None || other.config.extensions != Extensions::None)\n        config = other.config;")],
INC + '''
int main() {
	fg::Parser p(fg::Extensions::KHR_materials_unlit); p = fg::Parser(fg::Extensions::None); std::string j = "{\\"asset\\":{\\"version\\":\\"2.0\\"},\\"materials\\":[{\\"extensions\\":{\\"KHR_materials_unlit\\":{}}}]}";
	auto d = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(j.data()), j.size()); auto a = p.loadGltf(d.get(), ""); if (a.error() != fg::Error::None) return bad("load"); if (a->materials[0].unlit) return bad("an extension which the moved parser does not have is used");
}
''', "a parser without extensions moved onto one with extensions", "the extensions of the overwritten parser stay enabled")
seed("c20-image-mime", "C20", [(F, "if constexpr (is_any_of_v<T, sources::CustomBuffer, sources::BufferView, sources::URI, sources::Array, sources::Vector>) {\n                        arg.mimeType = getMimeTypeFromString(mimeType);", "if constexpr (is_any_of_v<T, sources::CustomBuffer, sources::BufferView, sources::URI, sources::Array, sources::Vector>) {\n                        if (arg.mimeType == MimeType::None || std::is_same_v<T, sources::Array>)\n                            arg.mimeType = getMimeTypeFromString(mimeType);")],
INC + '''
static char mem[64];
static fg::BufferInfo map(std::uint64_t, void*) { return { mem, 1 }; }
int main() {
	std::string j = "{\\"asset\\":{\\"version\\":\\"2.0\\"},\\"images\\":[{\\"uri\\":\\"data:application/octet-stream;base64,AAAA\\",\\"mimeType\\":\\"image/png\\"}]}"; fg::Parser p; p.setBufferAllocationCallback(map);
	auto d = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(j.data()), j.size()); auto a = p.loadGltf(d.get(), ""); if (a.error() != fg::Error::None) return bad("load");
	auto* c = std::get_if<fg::sources::CustomBuffer>(&a->images[0].data); if (!c || c->mimeType != fg::MimeType::PNG) return bad("MIME type of an image in custom memory");
}
''', "an image in memory of the application, whose data URI and mimeType disagree", "the MIME type of the data URI wins")
seed("c20-empty-file-unmap", "C20", [(I, "			if (config.unmapCallback != nullptr) {\n				config.unmapCallback(&info, config.userPointer);\n			}\n\n			if (file", "			if (config.unmapCallback != nullptr && file.good()) {\n				config.unmapCallback(&info, config.userPointer);\n			}\n\n			if (file")],
INC + GLB + '''
#include <cstdlib>
static int open_ = 0; static char mem[1 << 16];
static fg::BufferInfo map(std::uint64_t, void*) { ++open_; return { mem, 1 }; }
static void unmap(fg::BufferInfo*, void*) { --open_; }
// the file ends earlier than its size says: files below /proc/self have a size of zero, so use a stand-in of read()
#include <dlfcn.h>
#include <unistd.h>
static bool fault = false;
extern "C" ssize_t read(int fd, void* p, size_t n) { static auto real = reinterpret_cast<ssize_t (*)(int, void*, size_t)>(dlsym(RTLD_NEXT, "read")); return fault ? 0 : real(fd, p, n); }
int main() {
	{ std::ofstream("x.bin") << "0123456789"; } std::string j = "{\\"asset\\":{\\"version\\":\\"2.0\\"},\\"buffers\\":[{\\"uri\\":\\"x.bin\\",\\"byteLength\\":10}]}"; fg::Parser p; p.setBufferAllocationCallback(map, unmap);
	auto d = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(j.data()), j.size()); fault = true; auto a = p.loadGltf(d.get(), ".", fg::Options::LoadExternalBuffers); fault = false;
	if (open_ != 0) return bad("mapped memory is never unmapped");
}
''', "an external file that shrinks while it is being read, with allocation callbacks", "the unmap callback is not called", flags="-ldl")
EXP = '''
#include <fstream>
#include <sstream>
static std::string slurp(const char* p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
[[maybe_unused]] static fg::Expected<fg::Asset> again(const fg::Asset& a, fg::Extensions ext = fg::Extensions::None) {
	fg::Exporter e; auto r = e.writeGltfJson(a); if (r.error() != fg::Error::None) return r.error(); return load(r.get().output, ext);
}
'''
seed("c12-mirrored-scale", "C12", [(F, "				if (trs.scale != math::fvec3(1.f)) {", "				if (math::dot(trs.scale, trs.scale) != 3.f) {")],
INC + EXP + '''
int main() {
	auto a = load("{\\"asset\\":{\\"version\\":\\"2.0\\"},\\"nodes\\":[{\\"scale\\":[-1,1,1]}]}"); if (a.error() != fg::Error::None) return bad("load");
	auto b = again(a.get()); if (b.error() != fg::Error::None) return bad("load again"); if (std::get<fg::TRS>(b->nodes[0].transform).scale[0] != -1.f) return bad("scale lost by the export");
}
''', "a node whose scale only mirrors", "the scale is missing in the exported document")
seed("c12-uint-bounds", "C12", [(F, "					json += std::to_string(ref->get<std::int64_t>(i));", "					json += std::to_string(static_cast<std::int32_t>(ref->get<std::int64_t>(i)));")],
INC + EXP + '''
int main() {
	auto a = load("{\\"asset\\":{\\"version\\":\\"2.0\\"},\\"accessors\\":[{\\"componentType\\":5125,\\"count\\":1,\\"type\\":\\"SCALAR\\",\\"max\\":[4294967294],\\"min\\":[0]}]}"); if (a.error() != fg::Error::None) return bad("load");
	auto b = again(a.get()); if (b.error() != fg::Error::None) return bad("load again"); if (b->accessors[0].max->get<std::int64_t>(0) != 4294967294) return bad("bounds changed by the export");
}
''', "integer accessor bounds beyond 2^31", "the exported bounds are truncated")
seed("c13-weights-comma", "C13", [(F, "		if (!it->weights.empty()) {\n			if (json.back() != '{')\n				json += ',';\n			json += R\"(\"weights\":[)\";\n			auto itw = it->weights.begin();\n			while (itw != it->weights.end()) {\n				json += to_string_fp(*itw);\n				++itw;\n				if (uabs(std::distance(it->weights.begin(), itw)) < it->weights.size())\n					json += ',';\n			}\n			json += ']';\n		}\n\n		visit_exhaustive", "		if (!it->weights.empty()) {\n			if (it->meshIndex.has_value())\n				json += ',';\n			json += R\"(\"weights\":[)\";\n			auto itw = it->weights.begin();\n			while (itw != it->weights.end()) {\n				json += to_string_fp(*itw);\n				++itw;\n				if (uabs(std::distance(it->weights.begin(), itw)) < it->weights.size())\n					json += ',';\n			}\n			json += ']';\n		}\n\n		visit_exhaustive")],
INC + EXP + '''
int main() {
	fg::Asset a; a.assetInfo = fg::AssetInfo { "2.0", "", "" }; a.nodes.resize(2); a.nodes[0].children.emplace_back(1); a.nodes[0].weights.emplace_back(0.5f);
	auto b = again(a); if (b.error() != fg::Error::None) return bad("exported document cannot be loaded"); if (b->nodes[0].weights.size() != 1 || b->nodes[0].children.size() != 1) return bad("node");
}
''', "a node with children and weights but without a mesh", "the document is not JSON")
seed("c13-transform-comma", "C13", [(F, "			if (transform.texCoordIndex.has_value()) {\n				if (json.back() != '{') json += ',';", "			if (transform.texCoordIndex.has_value()) {\n				if (transform.rotation != 0.0 || transform.uvOffset[0] != 0.0 || transform.uvOffset[1] != 0.0) json += ',';")],
INC + EXP + '''
int main() {
	auto js = "{\\"asset\\":{\\"version\\":\\"2.0\\"},\\"textures\\":[{}],\\"materials\\":[{\\"emissiveTexture\\":{\\"index\\":0,\\"extensions\\":{\\"KHR_texture_transform\\":{\\"scale\\":[2,2],\\"texCoord\\":1}}}}]}";
	auto a = load(js, fg::Extensions::KHR_texture_transform); if (a.error() != fg::Error::None) return bad("load");
	auto b = again(a.get(), fg::Extensions::KHR_texture_transform); if (b.error() != fg::Error::None) return bad("exported document cannot be loaded");
}
''', "a texture transform with scale and texture coordinate index but no offset and rotation", "the document is not JSON")
seed("c14-close-unchecked", "C14", [(F, "			[&](const sources::Vector& vector) {\n				std::ofstream file(finalPath, std::ios::out | std::ios::binary);\n				if (!file.is_open())\n					return false;\n				file.write(reinterpret_cast<const char *>(vector.bytes.data()),\n						   static_cast<std::streamsize>(vector.bytes.size()));\n				file.close();\n				return file.good();", "			[&](const sources::Vector& vector) {\n				std::ofstream file(finalPath, std::ios::out | std::ios::binary);\n				if (!file.is_open())\n					return false;\n				file.write(reinterpret_cast<const char *>(vector.bytes.data()),\n						   static_cast<std::streamsize>(vector.bytes.size()));\n				return file.good();")],
INC + EXP + '''
#include <dlfcn.h>
#include <unistd.h>
#include <sys/uio.h>
#include <cerrno>
static int left = -1; // the number of writes until the disk is full
static bool full() { return left == 0 || (left > 0 && --left < 0); }
extern "C" ssize_t write(int fd, const void* p, size_t n) { static auto real = reinterpret_cast<ssize_t (*)(int, const void*, size_t)>(dlsym(RTLD_NEXT, "write")); if (fd > 2 && full()) { errno = ENOSPC; return -1; } return real(fd, p, n); }
extern "C" ssize_t writev(int fd, const iovec* v, int n) { static auto real = reinterpret_cast<ssize_t (*)(int, const iovec*, int)>(dlsym(RTLD_NEXT, "writev")); if (fd > 2 && full()) { errno = ENOSPC; return -1; } return real(fd, v, n); }
int main() {
	fg::Asset a; a.assetInfo = fg::AssetInfo { "2.0", "", "" }; auto& b = a.buffers.emplace_back(); b.byteLength = 8; fg::sources::Vector v; v.bytes.resize(8, std::byte(7)); b.data = std::move(v);
	for (int i = 0; i < 3; ++i) {
		left = i; fg::FileExporter e; auto r = e.writeGltfJson(a, "out/x.gltf"); left = -1;
		if (r == fg::Error::None && slurp("out/buffer0.bin") != std::string(8, 7)) return bad("success reported, but the buffer was not written");
	}
}
''', "a small buffer held in a vector and a disk that becomes full", "the export reports success although the file is empty")
seed("c14-image-index", "C14", [(F, "				if (!writeFile(asset.images[i].data, baseFolder, path.value()))\n					return false;", "				if (!writeFile(asset.images[i].data, baseFolder, path.value()))\n					return i + 1 < asset.images.size() || asset.images.size() == 1 ? false : fs::exists(baseFolder / path.value());")],
INC + EXP + '''
#include <sys/stat.h>
int main() {
	mkdir("out", 0755); mkdir("out/image1.png", 0755); // the second image cannot be written
	fg::Asset a; a.assetInfo = fg::AssetInfo { "2.0", "", "" }; for (int i = 0; i < 2; ++i) { auto& m = a.images.emplace_back(); fg::sources::Vector v; v.bytes.resize(8, std::byte(7)); v.mimeType = fg::MimeType::PNG; m.data = std::move(v); }
	fg::FileExporter e; if (e.writeGltfJson(a, "out/x.gltf") == fg::Error::None) return bad("success reported, but an image was not written");
}
''', "the file of the last of several images exists but cannot be written", "the export reports success")
seed("c21-empty-extras-written", "C21", [(F, "			auto extras = extrasWriteCallback(uabs(std::distance(asset.bufferViews.begin(), it)), fastgltf::Category::BufferViews, userPointer);\n			if (extras.has_value()) {", "			auto extras = extrasWriteCallback(uabs(std::distance(asset.bufferViews.begin(), it)), fastgltf::Category::BufferViews, userPointer);\n			if (extras.has_value() && it->meshoptCompression == nullptr) {")],
INC + EXP + '''
int main() {
	auto js = "{\\"asset\\":{\\"version\\":\\"2.0\\"},\\"buffers\\":[{\\"byteLength\\":4,\\"uri\\":\\"data:application/octet-stream;base64,AAAAAA==\\"}],\\"bufferViews\\":[{\\"buffer\\":0,\\"byteLength\\":4,\\"extensions\\":{\\"EXT_meshopt_compression\\":{\\"buffer\\":0,\\"byteLength\\":4,\\"byteStride\\":4,\\"count\\":1,\\"mode\\":\\"ATTRIBUTES\\"}}}]}";
	auto a = load(js, fg::Extensions::EXT_meshopt_compression); if (a.error() != fg::Error::None) return bad("load");
	fg::Exporter e; e.setExtrasWriteCallback([](std::size_t i, fg::Category c, void*) -> std::optional<std::string> { if (c == fg::Category::BufferViews) return "{\\"mark\\":1}"; return std::nullopt; });
	auto r = e.writeGltfJson(a.get()); if (r.error() != fg::Error::None || r.get().output.find("{\\"mark\\":1}") == std::string::npos) return bad("extras of a buffer view are missing");
}
''', "a buffer view with meshopt compression and extras", "the extras are asked for but not written")
seed("c21-mesh-morph-index", "C21", [(F, "				config.extrasCallback(&extrasObject, asset.nodes.size(), Category::Nodes, config.userPointer);", "				config.extrasCallback(&extrasObject, node.weights.empty() ? asset.nodes.size() : asset.nodes.capacity() - 1, Category::Nodes, config.userPointer);")],
INC + '''
static std::vector<size_t> seen;
int main() {
	std::string js = "{\\"asset\\":{\\"version\\":\\"2.0\\"},\\"nodes\\":[{\\"weights\\":[1],\\"extras\\":{\\"a\\":1}},{\\"extras\\":{}},{}]}"; fg::Parser p;
	p.setExtrasParseCallback([](simdjson::dom::object*, std::size_t i, fg::Category c, void*) { if (c == fg::Category::Nodes) seen.push_back(i); });
	auto d = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(js.data()), js.size()); auto a = p.loadGltf(d.get(), ""); if (a.error() != fg::Error::None) return bad("load");
	if (seen != std::vector<size_t> { 0, 1 }) return bad("index of the node");
}
''', "a node with weights and extras which is not the last one", "the callback gets the index of another node")
seed("c22-mixed-mesh", "C22", [(F, "			if (primitive.indicesAccessor.has_value())\n				continue;\n\n			auto* positionAttribute", "			if (primitive.indicesAccessor.has_value())\n				break;\n\n			auto* positionAttribute")],
INC + '''
int main() {
	auto js = "{\\"asset\\":{\\"version\\":\\"2.0\\"},\\"accessors\\":[{\\"componentType\\":5126,\\"count\\":3,\\"type\\":\\"VEC3\\"},{\\"componentType\\":5121,\\"count\\":3,\\"type\\":\\"SCALAR\\"}],\\"meshes\\":[{\\"primitives\\":[{\\"attributes\\":{\\"POSITION\\":0},\\"indices\\":1},{\\"attributes\\":{\\"POSITION\\":0}}]}]}";
	auto a = load(js, fg::Extensions::None, fg::Options::GenerateMeshIndices); if (a.error() != fg::Error::None) return bad("load"); if (!a->meshes[0].primitives[1].indicesAccessor.has_value()) return bad("no indices");
}
''', "a mesh whose first primitive is indexed and whose second is not", "the second stays without indices")
seed("c22-restart-value", "C22", [(F, "		} else if (indexCount < 65535) {", "		} else if (indexCount <= 65537) {")],
INC + '''
int main() {
	auto js = "{\\"asset\\":{\\"version\\":\\"2.0\\"},\\"accessors\\":[{\\"componentType\\":5126,\\"count\\":65537,\\"type\\":\\"VEC3\\"}],\\"meshes\\":[{\\"primitives\\":[{\\"attributes\\":{\\"POSITION\\":0},\\"mode\\":0}]}]}";
	auto a = load(js, fg::Extensions::None, fg::Options::GenerateMeshIndices); if (a.error() != fg::Error::None) return bad("load");
	std::size_t n = 0; fg::iterateAccessor<std::uint32_t>(a.get(), a->accessors[a->meshes[0].primitives[0].indicesAccessor.value()], [&](std::uint32_t i) { n += i == n; }); if (n != 65537) return bad("indices");
}
''', "65537 vertices", "the index of the last vertex wraps around to zero")
seed("c17-mapping-gap", "C17", [(F, "					if (!mapping.has_value())\n						continue;", "					if (!mapping.has_value() || &mapping == &primitive.mappings.back())\n						continue;")],
INC + '''
int main() {
	fg::Asset a; a.extensionsUsed.emplace_back("KHR_materials_variants"); a.materialVariants = { "a", "b" }; a.materials.emplace_back();
	auto& p = a.meshes.emplace_back().primitives.emplace_back(); p.mappings.resize(2); if (fg::validate(a) != fg::Error::None) return bad("valid mappings refused");
	p.mappings[1] = size_t(1); if (fg::validate(a) == fg::Error::None) return bad("mapping to a material which does not exist");
}
''', "a variant without a material followed by one with a dangling material index", "validate accepts the dangling index")
seed("c17-step-output", "C17", [(F, "				case AnimationInterpolation::Linear:\n				case AnimationInterpolation::Step:\n					if (inputAccessor.count != outputAccessor.count)", "				case AnimationInterpolation::Linear:\n				case AnimationInterpolation::Step:\n					if (inputAccessor.count > outputAccessor.count || (inputAccessor.count < outputAccessor.count && outputAccessor.count % inputAccessor.count != 0))")],
INC + '''
int main() {
	fg::Asset a; for (size_t n : { 2, 2, 6 }) { auto& x = a.accessors.emplace_back(); x.count = n; x.byteOffset = 0; x.type = n == 6 || a.accessors.size() == 2 ? fg::AccessorType::Vec3 : fg::AccessorType::Scalar; x.componentType = fg::ComponentType::Float; }
	auto& n = a.animations.emplace_back(); n.channels.emplace_back(fg::AnimationChannel { 0, {}, fg::AnimationPath::Scale }); n.samplers.emplace_back(fg::AnimationSampler { 0, 1 }); if (fg::validate(a) != fg::Error::None) return bad("valid animation refused");
	n.samplers[0].outputAccessor = 2; if (fg::validate(a) == fg::Error::None) return bad("three times as many outputs as inputs");
}
''', "a linear sampler whose output count is a multiple of the input count", "validate accepts it")
seed("c17-skin-attributes", "C17", [(F, "if (joints0 == primitive.attributes.end() || weights0 == primitive.attributes.end())", "if (joints0 == primitive.attributes.end() || (weights0 == primitive.attributes.end() && &primitive == &mesh.primitives.front()))")],
INC + '''
int main() {
	fg::Asset a; { auto& x = a.accessors.emplace_back(); x.count = 3; x.byteOffset = 0; x.type = fg::AccessorType::Vec4; x.componentType = fg::ComponentType::UnsignedByte; }
	auto at = [](const char* n) { fg::Attribute t {}; t.name = n; t.accessorIndex = 0; return t; }; auto& m = a.meshes.emplace_back(); m.primitives.resize(2); for (auto& p : m.primitives) { p.attributes.emplace_back(at("JOINTS_0")); p.attributes.emplace_back(at("WEIGHTS_0")); }
	a.skins.emplace_back().joints.emplace_back(0); auto& n = a.nodes.emplace_back(); n.meshIndex = 0; n.skinIndex = 0; if (fg::validate(a) != fg::Error::None) return bad("valid skin refused");
	m.primitives[1].attributes[1].name = "WEIGHTS_1"; if (fg::validate(a) == fg::Error::None) return bad("skinned primitive without WEIGHTS_0");
}
''', "a skinned mesh of several primitives of which a later one has no WEIGHTS_0", "validate accepts it")
TSAN_SH = '''#!/bin/bash
# Exit 0 when the property holds for this demonstration, nonzero otherwise. Run in the repository after its build.
set -u
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD; tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
for f in fastgltf base64 io; do g++ -std=c++17 -O1 -g -w -fsanitize=thread -I"$repo/include" -c "$repo/src/$f.cpp" -o "$tmp/$f.o" & done
g++ -std=c++17 -O1 -g -w -fsanitize=thread -I"$repo/include" -c "$here/demo.cpp" -o "$tmp/demo.o" || exit 2
wait; g++ -fsanitize=thread "$tmp"/*.o -lsimdjson -lpthread -o "$tmp/demo" || exit 2
cd "$tmp" && TSAN_OPTIONS=halt_on_error=0:exitcode=66 timeout 120 ./demo
'''
THREADS = INC + '''
#include <thread>
#include <atomic>
template <typename F> static void together(F f) { std::atomic<int> ready{0}; auto g = [&](int i) { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < 2) {} f(i); }; std::thread a(g, 0), b(g, 1); a.join(); b.join(); }
'''
seed("c25-crc-once", "C25", [(F, "    std::call_once(crcInitialisation, initialiseCrc);", "    static bool crcInitialised = false;\n    if (!crcInitialised) {\n        crcInitialised = true;\n        initialiseCrc();\n    }")],
THREADS + '''
int main() {
	together([](int i) { std::string s = R"({"asset":{"version":"2.0"},"scenes":[{"name":"s"}]})"; fg::Parser p; auto d = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(s.data()), s.size()); auto a = p.loadGltf(d.get(), "."); if (a.error() != fg::Error::None) std::abort(); });
	return 0;
}
''', "two threads which create the first two parsers of the process at the same time", "the one-time initialisation of the hash function is not synchronised: one thread reads the function pointer while the other writes it", demo_sh=TSAN_SH)
seed("c25-escape-buffer", "C25", [(F, "    std::string ret(string);\n\tescapeString(ret);\n    return ret;", "    static std::string ret;\n    ret.assign(string);\n\tescapeString(ret);\n    return ret;")],
THREADS + '''
int main() {
	bool wrong[2] = { false, false };
	together([&](int i) { fg::Asset a; a.assetInfo = fg::AssetInfo{}; a.assetInfo->gltfVersion = "2.0"; std::string name = i ? "a long name with a \\" quote, longer than any inline buffer" : "x"; a.nodes.emplace_back().name = name;
		for (int k = 0; k < 200; ++k) { fg::Exporter e; auto r = e.writeGltfJson(a); if (r.error() != fg::Error::None || r->output.find(i ? "longer than any inline" : "\\"x\\"") == std::string::npos) wrong[i] = true; } });
	return wrong[0] || wrong[1] ? bad("an exporter wrote the name of the other thread's node") : 0;
}
''', "two threads which export different assets with names at the same time", "names are escaped in a buffer which all threads share", demo_sh=TSAN_SH)
seed("c25-search-state", "C25", [(TO, "\tauto count = indexCount;\n\n\tresultIndex = 0;", "\tstatic std::size_t count;\n\tcount = indexCount;\n\n\tresultIndex = 0;")],
THREADS + '''
int main() {
	fg::Asset a; std::vector<std::byte> d(64); for (int i = 0; i < 64; ++i) d[size_t(i)] = std::byte(i < 16 ? i * 3 : i);
	fg::sources::Array s { fg::StaticVector<std::byte>::fromVector(d), fg::MimeType::GltfBuffer }; auto& b = a.buffers.emplace_back(); b.byteLength = 64; b.data = std::move(s);
	for (int k = 0; k < 2; ++k) { auto& v = a.bufferViews.emplace_back(); v.bufferIndex = 0; v.byteOffset = size_t(k) * 16; v.byteLength = 16 + size_t(k) * 32; }
	auto& x = a.accessors.emplace_back(); x.byteOffset = 0; x.count = 48; x.type = fg::AccessorType::Scalar; x.componentType = fg::ComponentType::UnsignedByte; x.normalized = false; x.sparse = fg::SparseAccessor { 16, 0, 0, 1, 0, fg::ComponentType::UnsignedByte };
	bool wrong[2] = { false, false };
	together([&](int t) { for (int n = 0; n < 100; ++n) for (size_t i = 0; i < 48; ++i) { auto v = fg::getAccessorElement<std::uint32_t>(a, a.accessors[0], i); if (v != (i % 3 ? 0 : 16 + i / 3)) wrong[t] = true; } });
	return wrong[0] || wrong[1] ? bad("an element of a sparse accessor is wrong") : 0;
}
''', "two threads which look up elements of sparse accessors of the same asset at the same time", "the binary search keeps its state in a static variable", demo_sh=TSAN_SH)
ASAN_SH = TSAN_SH.replace("-fsanitize=thread", "-fsanitize=address -D_GLIBCXX_ASSERTIONS").replace("TSAN_OPTIONS=halt_on_error=0:exitcode=66", "ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=0")
seed("c10-attribute-index", "C10", [(F, "			for (const auto& [name, index] : primitive.attributes) {\n				if (asset.accessors.size() <= index)", "			for (const auto& [name, index] : primitive.attributes) {\n				if (asset.accessors.size() < index)")],
INC + '''
int main() {
	auto a = load(R"({"asset":{"version":"2.0"},"accessors":[{"componentType":5126,"count":3,"type":"VEC3","min":[0,0,0],"max":[0,0,0]}],"meshes":[{"primitives":[{"attributes":{"POSITION":0,"NORMAL":1}}]}]})"); if (a.error() != fg::Error::None) return bad("not loaded");
	a->accessors.shrink_to_fit(); return fg::validate(a.get()) == fg::Error::None ? bad("a dangling attribute was accepted") : 0;
}
''', "a mesh attribute which refers to the accessor one past the end", "validation reads behind the accessors", demo_sh=ASAN_SH)
seed("c10-no-asset", "C10", [(F, "    if (asset.assetInfo.has_value()) {\n        if (!asset.assetInfo->copyright.empty())", "    if (asset.assetInfo.has_value() || !asset.extensionsUsed.empty()) {\n        if (!asset.assetInfo->copyright.empty())")],
INC + '''
int main() {
	auto a = load(R"({"extensionsUsed":["KHR_texture_transform"]})", fg::Extensions::KHR_texture_transform, fg::Options::DontRequireValidAssetMember); if (a.error() != fg::Error::None) return bad("not loaded");
	fg::Exporter e; auto r = e.writeGltfJson(a.get()); if (r.error() != fg::Error::None || r->output.find("\\"version\\":\\"2.0\\"") == std::string::npos) return bad("not exported");
	return 0;
}
''', "a document without the asset member that lists extensions, loaded with DontRequireValidAssetMember and exported", "the exporter reads asset information which does not exist", demo_sh=ASAN_SH)
F64_SH = TSAN_SH.replace("-fsanitize=thread", "-DFASTGLTF_USE_64BIT_FLOAT=1").replace("TSAN_OPTIONS=halt_on_error=0:exitcode=66 ", "")
PLAIN_SH = TSAN_SH.replace("-fsanitize=thread", "-DFASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES=0 -DFASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES=0").replace("TSAN_OPTIONS=halt_on_error=0:exitcode=66 ", "").replace('-o "$tmp/demo" || exit 2', '-o "$tmp/demo" || { echo "property broken: a configuration does not build"; exit 1; }')
LIGHT = r'''R"({"asset":{"version":"2.0"},"extensionsUsed":["KHR_lights_punctual"],"extensions":{"KHR_lights_punctual":{"lights":[{"type":"point","intensity":0.1,"range":123456789.125}]}}})", fg::Extensions::KHR_lights_punctual'''
seed("c26-range", "C26", [(F, "light.range = static_cast<num>(range);", "light.range = static_cast<float>(range);")],
INC + '''
int main() {
	auto a = load(''' + LIGHT + '''); if (a.error() != fg::Error::None) return bad("not loaded");
	static_assert(sizeof(fg::num) == 8); return a->lights[0].range == 123456789.125 && a->lights[0].intensity == 0.1 ? 0 : bad("a light lost precision");
}
''', "the 64-bit number configuration and a light range that a float cannot represent", "the range of lights is rounded to single precision", demo_sh=F64_SH)
seed("c26-export-intensity", "C26", [(F, 'json += R"("intensity":)" + to_string_fp(it->intensity) + \',\';', 'const float intensity = it->intensity;\n\t\t\tjson += R"("intensity":)" + to_string_fp(intensity) + \',\';')],
INC + '''
int main() {
	auto a = load(''' + LIGHT + '''); if (a.error() != fg::Error::None) return bad("not loaded");
	fg::Exporter e; auto r = e.writeGltfJson(a.get()); if (r.error() != fg::Error::None) return bad("not exported");
	auto b = load(r->output, fg::Extensions::KHR_lights_punctual); return b.error() == fg::Error::None && b->lights[0].intensity == 0.1 ? 0 : bad("a light lost precision when it was exported");
}
''', "the 64-bit number configuration, exporting a light intensity that a float cannot represent", "exported intensities are rounded to single precision", demo_sh=F64_SH)
seed("c26-guard", "C26", [(F, "#if FASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES\nfg::Error fg::Parser::parseShapes", "#ifdef FASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES\nfg::Error fg::Parser::parseShapes")],
INC + '''
int main() { auto a = load(R"({"asset":{"version":"2.0"},"scenes":[]})"); return a.error() == fg::Error::None ? 0 : bad("not loaded"); }
''', "a build that defines the option as 0, as the CMake project does when it is off", "the library does not compile without the optional extension", demo_sh=PLAIN_SH)

U = "include/fastgltf/util.hpp"; CO = "include/fastgltf/core.hpp"
seed("c27-find-target", "C27", [(TY, "const auto& targetAttributes = targets[targetIndex];\n			for (const auto* it = targetAttributes.cbegin(); it != targetAttributes.cend(); ++it) {\n				if (it->name == name)", "const auto& targetAttributes = targets[targetIndex];\n			for (const auto* it = targetAttributes.cbegin(); it != targetAttributes.cend(); ++it) {\n				if (std::string_view(it->name).substr(0, name.size()) == name)")],
INC + '''
int main() {
	auto a = load(R"({"asset":{"version":"2.0"},"accessors":[{"componentType":5126,"type":"VEC3","count":3,"min":[0,0,0],"max":[1,1,1]},{"componentType":5126,"type":"VEC2","count":3}],"meshes":[{"primitives":[{"attributes":{"POSITION":0},"targets":[{"TEXCOORD_10":1,"TEXCOORD_1":0}]}]}]})");
	if (a.error() != fg::Error::None) return bad("not loaded");
	const auto& p = a->meshes[0].primitives[0]; auto it = p.findTargetAttribute(0, "TEXCOORD_1");
	return it != p.targets[0].cend() && it->accessorIndex == 0 && p.findTargetAttribute(0, "TEXCOORD_") == p.targets[0].cend() ? 0 : bad("the wrong attribute was found");
}
''', "looking up a name in a constant morph target that also has an attribute whose name starts with it", "findTargetAttribute returns an attribute of another name")
seed("c27-extension-bits", "C27", [(CO, "for (std::uint8_t i = 0; i < std::numeric_limits<std::underlying_type_t<Extensions>>::digits; ++i) {", "for (std::uint8_t i = 0; i < 32; ++i) {")],
INC + '''
int main() {
	for (const auto& [name, ext] : fg::extensionStrings) { auto n = fg::stringifyExtensionBits(ext); if (n.size() != 1 || std::string_view(n[0]) != name) return bad("an extension is not named"); }
	return 0;
}
''', "an extension whose bit is beyond the lower 32", "stringifyExtensionBits leaves out extensions")
seed("c27-component-type", "C27", [(TY, "const auto index = static_cast<std::size_t>(componentType - getGLComponentType(ComponentType::Byte));", "const auto index = static_cast<std::uint32_t>(componentType - getGLComponentType(ComponentType::Byte));")],
INC + '''
int main() {
	if (fg::getComponentType((1ull << 32) + 5126) != fg::ComponentType::Invalid) return bad("2^32 + 5126 is no component type");
	return fg::getComponentType(5126) == fg::ComponentType::Float ? 0 : bad("5126");
}
''', "a component type number that is too large by a multiple of 2^32", "an invalid component type is taken for a valid one")
seed("c08-trailing-data", "C08", [(F, "if (binaryChunk.chunkLength > header.length - data.bytesRead()) {", "if (binaryChunk.chunkLength > data.totalSize() - data.bytesRead()) {")],
INC + '''
int main() {
	std::string js = R"({"asset":{"version":"2.0"},"buffers":[{"byteLength":4}]})"; while (js.size() % 4) js += ' ';
	std::string glb = "glTF"; auto u32 = [&](std::size_t v) { for (int i = 0; i < 4; ++i) glb += static_cast<char>(v >> 8 * i & 0xFF); };
	u32(2); u32(12 + 8 + js.size() + 8 + 4); u32(js.size()); glb += "JSON"; glb += js; u32(8); glb += std::string("BIN\\0", 4); glb += "abcdefgh";
	fg::Parser p; auto d = fg::GltfDataBuffer::FromBytes(reinterpret_cast<const std::byte*>(glb.data()), glb.size());
	return p.loadGltfBinary(d.get(), ".").error() == fg::Error::None ? bad("a chunk that is longer than the container was accepted") : 0;
}
''', "a GLB followed by further data, whose binary chunk claims to be longer than the container", "bytes behind the end of the container become part of the buffer")
seed("c02-fragment-host", "C02", [(F, 'auto authorityEnd = std::min(view.find_first_of("/?#", idx), view.size());', 'auto authorityEnd = std::min(view.find_first_of("/?", idx), view.size());')],
INC + '''
int main() {
	fg::URI u(std::string_view("http://host#part")); return u.host() == "host" && u.fragment() == "part" ? 0 : bad("the fragment became part of the host");
}
''', "a URI with an authority directly followed by a fragment", "host and fragment are mixed up")
seed("c15-padded-copy", "C15", [(TO, "	if (accessor.componentType == DestType && !accessor.normalized && !isMatrix(accessor.type)) {", "	if (accessor.componentType == DestType && !accessor.normalized && accessor.type != AccessorType::Mat4) {")],
INC + '''
int main() {
	fg::Asset a; fg::Buffer b; std::uint8_t v[8] = { 1, 2, 0, 0, 3, 4, 0, 0 }; fg::StaticVector<std::byte> bytes(8); std::memcpy(bytes.data(), v, 8);
	b.byteLength = 8; b.data = fg::sources::Array { std::move(bytes), fg::MimeType::None }; a.buffers.emplace_back(std::move(b));
	fg::BufferView bv {}; bv.byteLength = 8; a.bufferViews.emplace_back(std::move(bv));
	fg::Accessor ac {}; ac.count = 1; ac.type = fg::AccessorType::Mat2; ac.componentType = fg::ComponentType::UnsignedByte; ac.bufferViewIndex = 0; a.accessors.emplace_back(std::move(ac));
	std::uint8_t out[16] = {}; out[4] = 99; fg::copyComponentsFromAccessor<std::uint8_t>(a, a.accessors[0], out);
	return out[0] == 1 && out[1] == 2 && out[2] == 3 && out[3] == 4 && out[4] == 99 ? 0 : bad("the padding of a matrix was copied");
}
''', "copying the components of a matrix with padded columns to its own component type", "column padding is taken for components and more than the destination is written")
seed("c18-clear-capacity", "C18", [(TY, "				_data = reinterpret_cast<T*>(storage.data());\n			}\n\n			_size = 0;\n			_capacity = N;", "				_data = reinterpret_cast<T*>(storage.data());\n			} else {\n				_capacity = N;\n			}\n\n			_size = 0;")],
INC + '''
int main() {
	struct { fg::SmallVector<int, 2> v; int guard[16] = {}; } s;
	for (int i = 0; i < 5; ++i) s.v.emplace_back(1); s.v.clear(); if (s.v.capacity() != 2) return bad("capacity after clear");
	return 0;
}
''', "clearing a vector that grew beyond its inline storage, then adding elements again", "the vector writes behind its inline storage")
seed("c06-drive-leftover", "C06", [(F, "			    auto& drive = physicsJoint.drives.emplace_back();", "				auto& drive = physicsJoint.drives.empty() ? physicsJoint.drives.emplace_back() : physicsJoint.drives.emplace_back(physicsJoint.drives.back());")],
INC + '''
int main() {
	auto a = load(R"({"asset":{"version":"2.0"},"extensionsUsed":["KHR_physics_rigid_bodies"],"extensions":{"KHR_physics_rigid_bodies":{"physicsJoints":[{"drives":[{"type":"linear","mode":"force","axis":0,"maxForce":5,"stiffness":2,"positionTarget":3},{"type":"angular","mode":"acceleration","axis":1,"maxForce":6}]}]}}})", fg::Extensions::KHR_physics_rigid_bodies);
	if (a.error() != fg::Error::None) return bad("not loaded");
	auto& d = a->physicsJoints[0].drives; return d[1].stiffness == fg::num(0) && d[1].positionTarget == fg::num(0) && d[0].stiffness == fg::num(2) ? 0 : bad("a drive got the stiffness of the one before it");
}
''', "a joint with two drives of which the second leaves out a member of the first", "absent members of later drives take the values of earlier ones")

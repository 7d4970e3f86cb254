// Reference documents: every member of every object occurs with a distinct, non-default value.
#pragma once
#include "spec.hpp"

namespace docs {
inline J lit(const char* s) { J j; auto e = jparse(s, j); if (!e.empty()) { fprintf(stderr, "docs: %s near %.60s\n", e.c_str(), s); abort(); } return j; }

// Core glTF 2.0 without any extension.
inline const char* const CORE = R"({
"asset":{"version":"2.0","generator":"gen \"x\"","copyright":"(c) some body","minVersion":"2.0"},
"scene":1,
"extensionsUsed":["VENDOR_unknown","KHR_materials_unlit"],
"accessors":[
 {"bufferView":1,"byteOffset":4,"componentType":5126,"count":3,"type":"VEC3","min":[-1,0.5,3],"max":[7,8.25,9e2],"name":"positions"},
 {"componentType":5123,"count":6,"type":"SCALAR"},
 {"bufferView":2,"byteOffset":8,"componentType":5121,"count":5,"normalized":true,"type":"VEC4","min":[0,1,2,3],"max":[250,251,252,253],"name":"a name that is longer than a small string",
  "sparse":{"count":2,"indices":{"bufferView":0,"byteOffset":12,"componentType":5123},"values":{"bufferView":3,"byteOffset":16}}},
 {"bufferView":0,"componentType":5120,"count":2,"type":"MAT2","sparse":{"count":1,"indices":{"bufferView":2,"componentType":5125},"values":{"bufferView":1}}}],
"animations":[
 {"channels":[{"sampler":1,"target":{"node":2,"path":"rotation"}},{"sampler":0,"target":{"path":"weights"}}],
  "samplers":[{"input":1,"output":2,"interpolation":"STEP"},{"input":3,"output":0}],"name":"anim"},
 {"channels":[{"sampler":0,"target":{"node":1,"path":"scale"}}],"samplers":[{"input":0,"output":3,"interpolation":"CUBICSPLINE"}]}],
"buffers":[{"uri":"data:application/octet-stream;base64,AQIDBAUGBwg=","byteLength":8,"name":"buf"},{"uri":"file.bin","byteLength":1024}],
"bufferViews":[{"buffer":1,"byteOffset":16,"byteLength":32,"byteStride":12,"target":34962,"name":"view"},{"buffer":0,"byteLength":8},{"buffer":1,"byteOffset":64,"byteLength":128,"target":34963},{"buffer":1,"byteLength":1000,"byteStride":252}],
"cameras":[{"type":"perspective","perspective":{"aspectRatio":1.5,"yfov":0.75,"zfar":100,"znear":0.125},"name":"cam"},{"type":"orthographic","orthographic":{"xmag":2,"ymag":3,"zfar":4,"znear":0.5}},{"type":"perspective","perspective":{"yfov":0.5,"znear":0.25}}],
"images":[{"uri":"data:image/png;base64,AQIDBA==","name":"img"},{"uri":"dir/pic.jpg","mimeType":"image/jpeg"},{"bufferView":1,"mimeType":"image/png"},{"uri":"data:image/png;base64,BQYH","mimeType":"image/jpeg"}],
"materials":[
 {"name":"mat","emissiveFactor":[0.1,0.2,0.3],"alphaMode":"MASK","alphaCutoff":0.25,"doubleSided":true,
  "pbrMetallicRoughness":{"baseColorFactor":[0.4,0.5,0.6,0.7],"metallicFactor":0.8,"roughnessFactor":0.9,"baseColorTexture":{"index":1,"texCoord":2},"metallicRoughnessTexture":{"index":0,"texCoord":1}},
  "normalTexture":{"index":1,"texCoord":3,"scale":0.55},"occlusionTexture":{"index":2,"texCoord":4,"strength":0.65},"emissiveTexture":{"index":0,"texCoord":5}},
 {},
 {"alphaMode":"BLEND","pbrMetallicRoughness":{"baseColorTexture":{"index":2}},"normalTexture":{"index":0},"occlusionTexture":{"index":1}}],
"meshes":[
 {"primitives":[{"attributes":{"POSITION":0,"NORMAL":1,"TEXCOORD_0":2},"indices":1,"material":2,"mode":1,"targets":[{"POSITION":3},{"POSITION":1,"NORMAL":2}]},{"attributes":{"POSITION":2}}],"weights":[0.25,0.5],"name":"mesh"},
 {"primitives":[{"attributes":{"POSITION":0,"NORMAL":1,"TANGENT":2,"TEXCOORD_0":3,"TEXCOORD_1":0,"COLOR_0":1},"mode":6}]}],
"nodes":[
 {"name":"root","children":[1,2],"translation":[1,2,3],"rotation":[0.5,-0.5,0.5,-0.5],"scale":[4,5,6],"mesh":0,"skin":1,"camera":2,"weights":[0.125,0.75]},
 {"matrix":[2,0,0,0,0,3,0,0,0,0,4,0,5,-6,7.5,1],"mesh":1},
 {"children":[3],"camera":0},
 {}],
"samplers":[{"magFilter":9728,"minFilter":9987,"wrapS":33071,"wrapT":33648,"name":"smp"},{},{"minFilter":9729,"wrapT":10497}],
"scenes":[{"nodes":[0],"name":"first"},{"nodes":[2,1]},{"name":"empty"}],
"skins":[{"inverseBindMatrices":1,"skeleton":2,"joints":[0,1,2],"name":"skin"},{"joints":[3]}],
"textures":[{"source":1,"sampler":2,"name":"tex"},{},{"source":3}]
})";

// Every supported extension.
inline const char* const EXT = R"({
"asset":{"version":"2.0"},
"extensionsUsed":["KHR_texture_transform"],
"accessors":[{"componentType":5126,"count":1,"type":"VEC3"},{"componentType":5130,"count":2,"type":"VEC2","min":[-0.1,3],"max":[0.3,1e300]}],
"buffers":[{"uri":"data:application/octet-stream;base64,AQIDBAUGBwg=","byteLength":8}],
"bufferViews":[{"buffer":0,"byteLength":8,"extensions":{"EXT_meshopt_compression":{"buffer":3,"byteOffset":4,"byteLength":5,"byteStride":6,"count":7,"mode":"TRIANGLES","filter":"QUATERNION"}}},{"buffer":0,"byteLength":4,"byteOffset":4}],
"images":[{"uri":"a.png"},{"uri":"b.ktx2","mimeType":"image/ktx2"},{"uri":"c.dds","mimeType":"image/vnd-ms.dds"},{"uri":"d.webp","mimeType":"image/webp"}],
"textures":[{"source":0,"extensions":{"KHR_texture_basisu":{"source":1},"MSFT_texture_dds":{"source":2},"EXT_texture_webp":{"source":3}}},{"source":1},{"extensions":{"KHR_texture_basisu":{"source":3}}}],
"materials":[
 {"normalTexture":{"index":1,"texCoord":3,"scale":0.5,"extensions":{"KHR_texture_transform":{"offset":[0.1,0.2],"rotation":0.3,"scale":[0.4,0.5],"texCoord":6}}},
  "occlusionTexture":{"index":2,"strength":0.25,"extensions":{"KHR_texture_transform":{"rotation":1.25}}},
  "emissiveTexture":{"index":0,"extensions":{"KHR_texture_transform":{"offset":[2,3]}}},
  "pbrMetallicRoughness":{"baseColorTexture":{"index":1,"texCoord":2,"extensions":{"KHR_texture_transform":{"offset":[0.5,0.75],"scale":[3,4],"texCoord":1}}},"metallicRoughnessTexture":{"index":2}},
  "extensions":{
  "KHR_materials_anisotropy":{"anisotropyStrength":0.11,"anisotropyRotation":0.12,"anisotropyTexture":{"index":1,"texCoord":2,"extensions":{"KHR_texture_transform":{"scale":[5,6]}}}},
  "KHR_materials_clearcoat":{"clearcoatFactor":0.13,"clearcoatTexture":{"index":2},"clearcoatRoughnessFactor":0.14,"clearcoatRoughnessTexture":{"index":1},"clearcoatNormalTexture":{"index":0,"scale":0.15,"texCoord":4}},
  "KHR_materials_dispersion":{"dispersion":0.16},"KHR_materials_emissive_strength":{"emissiveStrength":0.17},"KHR_materials_ior":{"ior":1.18},
  "KHR_materials_iridescence":{"iridescenceFactor":0.19,"iridescenceTexture":{"index":2,"texCoord":1},"iridescenceIor":1.21,"iridescenceThicknessMinimum":122,"iridescenceThicknessMaximum":223,"iridescenceThicknessTexture":{"index":1}},
  "KHR_materials_diffuse_transmission":{"diffuseTransmissionFactor":0.24,"diffuseTransmissionTexture":{"index":0,"texCoord":3},"diffuseTransmissionColorFactor":[0.25,0.26,0.27],"diffuseTransmissionColorTexture":{"index":1}},
  "KHR_materials_sheen":{"sheenColorFactor":[0.28,0.29,0.31],"sheenColorTexture":{"index":2},"sheenRoughnessFactor":0.32,"sheenRoughnessTexture":{"index":1,"texCoord":1}},
  "KHR_materials_specular":{"specularFactor":0.33,"specularTexture":{"index":1},"specularColorFactor":[0.34,0.35,0.36],"specularColorTexture":{"index":2,"texCoord":2}},
  "KHR_materials_transmission":{"transmissionFactor":0.37,"transmissionTexture":{"index":2}},
  "KHR_materials_unlit":{},
  "KHR_materials_volume":{"thicknessFactor":0.38,"thicknessTexture":{"index":1},"attenuationDistance":39.5,"attenuationColor":[0.41,0.42,0.43]},
  "MSFT_packing_normalRoughnessMetallic":{"normalRoughnessMetallicTexture":{"index":2,"texCoord":1}},
  "MSFT_packing_occlusionRoughnessMetallic":{"occlusionRoughnessMetallicTexture":{"index":1,"texCoord":7,"extensions":{"KHR_texture_transform":{"rotation":0.7}}},"roughnessMetallicOcclusionTexture":{"index":2},"normalTexture":{"index":0}},
  "KHR_materials_pbrSpecularGlossiness":{"diffuseFactor":[0.44,0.45,0.46,0.47],"diffuseTexture":{"index":1},"specularFactor":[0.48,0.49,0.51],"glossinessFactor":0.52,"specularGlossinessTexture":{"index":2,"texCoord":5}},
  "VENDOR_unknown":{"x":5}}},
 {"extensions":{"KHR_materials_anisotropy":{},"KHR_materials_clearcoat":{},"KHR_materials_iridescence":{},"KHR_materials_diffuse_transmission":{},"KHR_materials_sheen":{},"KHR_materials_specular":{},"KHR_materials_transmission":{},"KHR_materials_volume":{},"MSFT_packing_occlusionRoughnessMetallic":{"roughnessMetallicOcclusionTexture":{"index":1}},"KHR_materials_pbrSpecularGlossiness":{}}},
 {}],
"meshes":[{"primitives":[
 {"attributes":{"POSITION":0},"material":0,"extensions":{"KHR_materials_variants":{"mappings":[{"material":2,"variants":[1,0]},{"material":1,"variants":[2]}]},"KHR_draco_mesh_compression":{"bufferView":1,"attributes":{"POSITION":0,"NORMAL":1}}}},
 {"attributes":{"POSITION":0},"extensions":{"KHR_materials_variants":{"mappings":[{"material":1,"variants":[2]}]}}}]}],
"nodes":[{"mesh":0,"extensions":{"KHR_lights_punctual":{"light":1},"EXT_mesh_gpu_instancing":{"attributes":{"TRANSLATION":0,"ROTATION":1,"_ID":0}},"KHR_node_visibility":{"visible":false},"KHR_node_selectability":{"selectable":false},"KHR_node_hoverability":{"hoverable":false}}},
 {"matrix":[1,0,0,0,0,1,0,0,0,0,1,0,9,8,7,1],"extensions":{"KHR_lights_punctual":{"light":0},"KHR_node_visibility":{"visible":true}}},{}],
"extensions":{
 "KHR_lights_punctual":{"lights":[{"type":"spot","color":[0.1,0.2,0.3],"intensity":0.4,"range":5.5,"spot":{"innerConeAngle":0.25,"outerConeAngle":0.5},"name":"lamp"},{"type":"point","intensity":3},{"type":"directional","name":"sun","color":[0,0.5,1]},{"type":"spot","spot":{}}]},
 "KHR_materials_variants":{"variants":[{"name":"v0"},{"name":"variant \"1\""},{"name":"v2"}]},
 "VENDOR_unknown":{"a":[1]}}
})";

// KHR_implicit_shapes and KHR_physics_rigid_bodies.
inline const char* const PHYS = R"({
"asset":{"version":"2.0"},
"nodes":[
 {"extensions":{"KHR_physics_rigid_bodies":{
  "motion":{"isKinematic":true,"mass":2.5,"centerOfMass":[1,2,3],"inertiaDiagonal":[4,5,6],"inertialOrientation":[0.5,-0.5,0.5,-0.5],"linearVelocity":[7,8,9],"angularVelocity":[10,11,12],"gravityFactor":0.5},
  "collider":{"geometry":{"shape":1,"node":2,"convexHull":true},"physicsMaterial":1,"collisionFilter":2},
  "trigger":{"geometry":{"shape":2,"node":1,"convexHull":true},"collisionFilter":1},
  "joint":{"connectedNode":1,"joint":2,"enableCollision":true}}}},
 {"extensions":{"KHR_physics_rigid_bodies":{"motion":{},"collider":{"geometry":{}},"trigger":{"nodes":[2,0]},"joint":{"connectedNode":0,"joint":0}}}},
 {"extensions":{"KHR_physics_rigid_bodies":{}}},
 {}],
"extensions":{
 "KHR_implicit_shapes":{"shapes":[{"type":"sphere","sphere":{"radius":1.5}},{"type":"box","box":{"size":[2,3,4]}},{"type":"capsule","capsule":{"height":5,"radiusBottom":6,"radiusTop":7}},{"type":"cylinder","cylinder":{"height":8,"radiusBottom":9,"radiusTop":10}},{"type":"sphere","sphere":{}},{"type":"box","box":{}},{"type":"capsule","capsule":{}},{"type":"cylinder","cylinder":{}}]},
 "KHR_physics_rigid_bodies":{
  "physicsMaterials":[{"staticFriction":0.1,"dynamicFriction":0.2,"restitution":0.3,"frictionCombine":"maximum","restitutionCombine":"multiply"},{},{"frictionCombine":"minimum","restitutionCombine":"average"}],
  "collisionFilters":[{"collisionSystems":["sys a","sys \"b\""],"collideWithSystems":["sys c","sys d"]},{},{"collisionSystems":["a name that is longer than a small string buffer"],"notCollideWithSystems":["x","y","z","w","v"]}],
  "physicsJoints":[
   {"limits":[{"min":-1.5,"max":2.5,"stiffness":3.5,"damping":4.5,"linearAxes":[0,2]},{"angularAxes":[1]}],
    "drives":[{"type":"angular","mode":"acceleration","axis":2,"maxForce":5.5,"positionTarget":6.5,"stiffness":7.5,"velocityTarget":8.5,"damping":9.5},{"type":"linear","mode":"force","axis":0,"maxForce":1}]},
   {"limits":[{"min":1,"linearAxes":[0,1,2]}]},
   {"drives":[{"type":"linear","mode":"acceleration","axis":1,"maxForce":2}]}]}}
})";
inline J core() { static const J j = lit(CORE); return j; }
inline J ext() { static const J j = lit(EXT); return j; }
inline J phys() { static const J j = lit(PHYS); return j; }
} // namespace docs

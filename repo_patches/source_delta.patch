From 5f58cdb24f69daf719078db6a0eac7359178a582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 001/104] fix: sse4 base64 decoder stored past the end of the
 output for 36 character inputs

---
 src/base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index fa50c46..4bbad8f 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -226,7 +226,7 @@ namespace fastgltf::base64 {
     // allocate any new memory to hold the encoded data and let the fallback decoder decode the
     // remaining data.
 	const auto encodedSize = encoded.size();
-	const auto alignedSize = encodedSize - (encodedSize % dataOutputSize);
+	const auto alignedSize = encodedSize - (encodedSize % dataSetSize);
     auto* out = output;
 
     // _mm_setr_epi8 accepts only 'char' but 0xff would overflow a signed char, which makes some compilers unhappy.
-- 
2.43.0


From 0c314bada512f7fbc359a42df4fb5af9c9a11e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 002/104] fix: base64 fallback decoder read past its lookup
 table for bytes above 127

---
 src/base64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index 4bbad8f..f8352cb 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -364,7 +364,7 @@ fg::StaticVector<std::uint8_t> fg::base64::neon_decode(std::string_view encoded)
 
 // clang-format off
 // ASCII value -> base64 value LUT
-static constexpr std::array<std::uint8_t, 128> base64lut = {
+static constexpr std::array<std::uint8_t, 256> base64lut = {
     0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,62,0,0,0,63,
     52, 53, 54, 55, 56, 57, 58, 59, 60, 61,
     0,0,0,0,0,0,0,
@@ -394,7 +394,7 @@ void fg::base64::fallback_decode_inplace(std::string_view encoded, std::uint8_t*
 	std::array<std::uint8_t, blockSize> sixBitChars {};
 
 	const auto encodedSize = encoded.size();
-	for (auto pos = 0U; pos + 4 < encodedSize; pos += 4) {
+	for (std::size_t pos = 0; pos + blockSize < encodedSize; pos += blockSize) {
 		std::memcpy(sixBitChars.data(), &encoded[pos], blockSize);
 
 		decode_block(sixBitChars, output);
-- 
2.43.0


From acda14bf2d6946efe136e2d23fa7799cc848e62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:34 +0000
Subject: [PATCH 003/104] fix: reject data URIs whose base64 payload is
 missing, empty or not padded instead of reading out of bounds

---
 src/fastgltf.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 4591179..3eee4c7 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -675,12 +675,18 @@ fg::Expected<fg::DataSource> fg::Parser::decodeDataUri(const URIView& uri) const
     auto mime = path.substr(0, mimeEnd);
 
     auto encodingEnd = path.find(',');
+    if (mimeEnd == std::string_view::npos || encodingEnd == std::string_view::npos || encodingEnd < mimeEnd) {
+		return Error::InvalidURI;
+    }
     auto encoding = path.substr(mimeEnd + 1, encodingEnd - mimeEnd - 1);
     if (encoding != "base64") {
 		return Error::InvalidURI;
     }
 
     auto encodedData = path.substr(encodingEnd + 1);
+    if (encodedData.empty() || encodedData.size() % 4 != 0) {
+		return Error::InvalidURI;
+    }
     if (config.mapCallback != nullptr) {
         // If a map callback is specified, we use a pointer to memory specified by it.
         auto padding = base64::getPadding(encodedData);
-- 
2.43.0


From 6a3a7182f171dc4ec3cab73f0077b2bd0250c7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 004/104] fix: copying, moving and re-assigning a URI kept
 components and the validity of the previous URI

---
 src/fastgltf.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 3eee4c7..304984b 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -410,10 +410,13 @@ fg::URIView& fg::URIView::operator=(const URIView& other) {
 	_port = other._port;
 	_query = other._query;
 	_fragment = other._fragment;
+	_valid = other._valid;
 	return *this;
 }
 
 fg::URIView& fg::URIView::operator=(std::string_view other) {
+	// Drop all components of the previous URI, as the new one might not have all of them.
+	*this = URIView();
 	view = other;
 	parse();
 	return *this;
@@ -575,6 +578,8 @@ fg::URI::URI(URI&& other) noexcept {
 }
 
 fg::URI& fg::URI::operator=(const URI& other) {
+	if (this == &other)
+		return *this;
 	uri = other.uri;
 	// We'll assume that with copying the string will always have to reallocate.
 	readjustViews(other.view);
@@ -596,13 +601,11 @@ fg::URI& fg::URI::operator=(const URIView& other) {
 }
 
 fg::URI& fg::URI::operator=(URI&& other) noexcept {
+	if (this == &other)
+		return *this;
 	auto* oldData = other.uri.data();
 	uri = std::move(other.uri);
 
-	// Invalidate the previous URI's view.
-	view._valid = other.view._valid;
-	other.view._valid = false;
-
 	if (uri.data() != oldData) {
 		// Allocation changed, we need to readjust views
 		readjustViews(other.view);
@@ -610,6 +613,11 @@ fg::URI& fg::URI::operator=(URI&& other) noexcept {
 		// No reallocation happened, we can safely copy the view.
 		view = other.view;
 	}
+
+	// Invalidate the previous URI's view.
+	other.uri.clear();
+	other.view = URIView();
+	other.view._valid = false;
 	return *this;
 }
 
@@ -618,6 +626,12 @@ fg::URI::operator fg::URIView() const noexcept {
 }
 
 void fg::URI::readjustViews(const URIView& other) {
+	if (&other != &view) {
+		// Drop all components of the previous URI, as the new one might not have all of them.
+		view = URIView();
+		view._valid = other._valid;
+	}
+
 	if (!other._scheme.empty())   { view._scheme     = std::string_view(uri.data() + (other._scheme.data()     - other.view.data()), other._scheme.size()); }
 	if (!other._path.empty())     { view._path       = std::string_view(uri.data() + (other._path.data()       - other.view.data()), other._path.size()); }
 	if (!other._userinfo.empty()) { view._userinfo   = std::string_view(uri.data() + (other._userinfo.data()   - other.view.data()), other._userinfo.size()); }
-- 
2.43.0


From 4b8ee5f3becbeb9adc37515c5afdae1f5fde7544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 005/104] fix: URI authorities without a path, port or with a
 colon in the path were cut wrong or terminated the program

---
 src/fastgltf.cpp | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 304984b..5d9c6dc 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -444,38 +444,35 @@ void fg::URIView::parse() {
 	if (startsWith(view.substr(idx), "//")) {
 		// URI has an authority part.
 		idx += 2;
-		auto nextSlash = view.find('/', idx);
+		// The authority ends with the first slash of the path, the query, the fragment, or the end of the URI.
+		auto authorityEnd = std::min(view.find_first_of("/?#", idx), view.size());
 		auto userInfo = view.find('@', idx);
-		if (userInfo != std::string::npos && userInfo < nextSlash) {
+		if (userInfo < authorityEnd) {
 			_userinfo = view.substr(idx, userInfo - idx);
-			idx += _userinfo.size() + 1;
+			idx = userInfo + 1;
 		}
 
-		auto hostEnd = nextSlash - 1;
-		std::size_t portColon;
-		if (view[idx] == '[') {
-			hostEnd = view.find(']', idx);
-			if (hostEnd == std::string::npos) {
+		auto hostEnd = authorityEnd;
+		auto portColon = view.find(':', idx);
+		if (idx < authorityEnd && view[idx] == '[') {
+			hostEnd = view.find(']', ++idx);
+			if (hostEnd >= authorityEnd) {
 				_valid = false;
 				return;
 			}
 			// IPv6 addresses are made up of colons, so we need to search after its address.
 			// This will just be hostEnd + 1 or std::string::npos.
 			portColon = view.find(':', hostEnd);
-		} else {
-			portColon = view.find(':', idx);
 		}
 
-		if (portColon != std::string::npos) {
-			_host = view.substr(idx, portColon - idx);
+		if (portColon < authorityEnd) {
+			hostEnd = std::min(hostEnd, portColon);
 			++portColon; // We don't want to include the colon in the port string.
-			_port = view.substr(portColon, nextSlash - portColon);
-		} else {
-			++idx;
-			_host = view.substr(idx, hostEnd - idx);
+			_port = view.substr(portColon, authorityEnd - portColon);
 		}
+		_host = view.substr(idx, hostEnd - idx);
 
-		idx = nextSlash; // Path includes this slash
+		idx = authorityEnd; // Path includes this slash
 	}
 
 	if (_scheme == "data") {
-- 
2.43.0


From a20da15278b0adb0759b64e5bab8099c9bf490ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 006/104] fix: a question mark in a URI fragment was mistaken
 for the start of the query

---
 src/fastgltf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 5d9c6dc..d3e836d 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -482,8 +482,9 @@ void fg::URIView::parse() {
 		_path = view.substr(idx);
 	} else {
 		// Parse the path.
-		auto questionIdx = view.find('?', idx);
 		auto hashIdx = view.find('#', idx);
+		// A question mark after the hash is part of the fragment.
+		auto questionIdx = view.substr(0, hashIdx).find('?', idx);
 		if (questionIdx != std::string::npos) {
 			_path = view.substr(idx, questionIdx - idx);
 
-- 
2.43.0


From f072fd7656a7d65d68cbeafa98fab0a5240cab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 007/104] fix: a colon in the path of a relative URI was
 mistaken for the end of a scheme

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index d3e836d..b707009 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -430,7 +430,7 @@ void fg::URIView::parse() {
 
 	std::size_t idx = 0;
 	auto firstColon = view.find(':');
-	if (firstColon != std::string::npos) {
+	if (firstColon != std::string::npos && firstColon < view.find_first_of("/?#")) {
 		// URI has a scheme.
 		if (firstColon == 0) {
 			// Empty scheme is invalid
-- 
2.43.0


From da766179cade289337c026bf2a08e7a93a432e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 008/104] fix: percent-decoding read past the end of a URI with
 a truncated or invalid percent-encoding

---
 src/fastgltf.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index b707009..4cb3cb9 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -29,6 +29,7 @@
 #error "fastgltf requires C++17"
 #endif
 
+#include <cctype>
 #include <fstream>
 #include <functional>
 #include <mutex>
@@ -646,6 +647,10 @@ void fg::URI::decodePercents(std::string& x) noexcept {
 		if (x[i] != '%')
 			continue;
 
+		// A percent sign that does not start a percent-encoded character is left as-is.
+		if (x.size() - i < 3 || !std::isxdigit(static_cast<unsigned char>(x[i + 1])) || !std::isxdigit(static_cast<unsigned char>(x[i + 2])))
+			continue;
+
 		// Read the next two chars and store them
 		std::array<char, 3> chars = {x[i + 1], x[i + 2]};
 		x[i] = static_cast<char>(std::strtoul(chars.data(), nullptr, 16));
-- 
2.43.0


From 55a1f4c9fb7949a361749c82de6d5808d4fd8435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 009/104] fix: percent-encoded delimiters in a URI were treated
 as delimiters after decoding

---
 src/fastgltf.cpp | 61 ++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 4cb3cb9..f861c42 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -544,25 +544,16 @@ bool fg::URIView::isDataUri() const noexcept {
 
 fg::URI::URI() noexcept = default;
 
-fg::URI::URI(std::string uri) noexcept : uri(std::move(uri)) {
-	decodePercents(this->uri);
-	view = this->uri; // Also parses.
+fg::URI::URI(std::string uri) noexcept {
+	*this = URIView(uri);
 }
 
-fg::URI::URI(std::string_view uri) noexcept : uri(uri) {
-	decodePercents(this->uri);
-	view = this->uri; // Also parses.
+fg::URI::URI(std::string_view uri) noexcept {
+	*this = URIView(uri);
 }
 
-fg::URI::URI(const URIView& view) noexcept : uri(view.view) {
-	auto oldSize = uri.size();
-	decodePercents(uri);
-	if (uri.size() == oldSize) {
-		readjustViews(view);
-	} else {
-		// Reparses the URI string
-		this->view = this->uri;
-	}
+fg::URI::URI(const URIView& view) noexcept {
+	*this = view;
 }
 
 // Some C++ stdlib implementations copy in some cases when moving strings, which invalidates the
@@ -586,16 +577,40 @@ fg::URI& fg::URI::operator=(const URI& other) {
 }
 
 fg::URI& fg::URI::operator=(const URIView& other) {
-	uri = other.view;
-	auto oldSize = uri.size();
-	decodePercents(uri);
-	if (uri.size() == oldSize) {
+	std::string decoded(other.view);
+	decodePercents(decoded);
+	if (decoded.size() == other.view.size()) {
+		uri = std::move(decoded);
 		readjustViews(other);
-	} else {
-		// We removed some encoded chars, which have now invalidated all the string views.
-		// Therefore, the URI needs to be parsed again.
-		view = this->uri;
+		return *this;
 	}
+
+	// We removed some encoded chars, which have now invalidated all the string views. We can't just parse the decoded
+	// string again, since the decoded characters might be delimiters. We therefore move each view individually.
+	const auto decodedSize = [](std::string_view encoded) {
+		std::string part(encoded);
+		decodePercents(part);
+		return part.size();
+	};
+	URIView moved;
+	const auto move = [&](std::string_view& to, std::string_view from) {
+		if (!from.empty()) {
+			const auto offset = static_cast<std::size_t>(from.data() - other.view.data());
+			to = std::string_view(decoded).substr(decodedSize(other.view.substr(0, offset)), decodedSize(from));
+		}
+	};
+	move(moved._scheme, other._scheme);
+	move(moved._path, other._path);
+	move(moved._userinfo, other._userinfo);
+	move(moved._host, other._host);
+	move(moved._port, other._port);
+	move(moved._query, other._query);
+	move(moved._fragment, other._fragment);
+	moved.view = decoded;
+	moved._valid = other._valid;
+
+	uri = decoded;
+	readjustViews(moved);
 	return *this;
 }
 
-- 
2.43.0


From c01ea9f4343c51bfaf767c2d29928a8c3c47bb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:08 +0000
Subject: [PATCH 010/104] fix: nodes with weights were rejected and malformed
 weights were accepted

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index f861c42..ebb6e7a 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3674,7 +3674,7 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
 
         auto weightsError = getJsonArray(nodeObject, "weights", &array);
         if (weightsError != Error::MissingField) {
-            if (weightsError != Error::None) {
+            if (weightsError == Error::None) {
 	            node.weights = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(node.weights), resourceAllocator.get(), 0);
                 node.weights.reserve(array.size());
                 for (auto weightValue : array) {
-- 
2.43.0


From 8c728913febe691af100eb6b7e735654fcdac35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:09 +0000
Subject: [PATCH 011/104] fix: nodes with a matrix and extensions but no light
 were rejected, malformed node lights were accepted

---
 src/fastgltf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index ebb6e7a..7904933 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3777,14 +3777,14 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
         if (nodeObject["extensions"].get_object().get(extensionsObject) == SUCCESS) FASTGLTF_LIKELY {
 			if (hasBit(config.extensions, Extensions::KHR_lights_punctual)) {
 				dom::object lightsObject;
-				if (extensionsObject[extensions::KHR_lights_punctual].get_object().get(lightsObject) == SUCCESS) FASTGLTF_LIKELY {
+				if (auto lightsError = extensionsObject[extensions::KHR_lights_punctual].get_object().get(lightsObject); lightsError == SUCCESS) FASTGLTF_LIKELY {
 					std::uint64_t light;
 					if (auto lightError = lightsObject["light"].get_uint64().get(light); lightError == SUCCESS) FASTGLTF_LIKELY {
 						node.lightIndex = static_cast<std::size_t>(light);
 					} else {
 						return lightError == NO_SUCH_FIELD || lightError == INCORRECT_TYPE ? Error::InvalidGltf : Error::InvalidJson;
 					}
-				} else if (error != NO_SUCH_FIELD) {
+				} else if (lightsError != NO_SUCH_FIELD) {
 					return Error::InvalidGltf;
 				}
 			}
-- 
2.43.0


From 05924f47258b40e12a3d457b71af9203447cc281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:09 +0000
Subject: [PATCH 012/104] fix: nodes whose matrix is not an array were accepted
 with an identity transform

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 7904933..bb0522b 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3771,6 +3771,8 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
             }
 
             node.transform = trs;
+        } else FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         dom::object extensionsObject;
-- 
2.43.0


From ea4ab0dfc12173842d162ace97d74af3d5f33c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 013/104] fix: accessors with an unknown component type or a
 wrong sparse index type were accepted

---
 include/fastgltf/types.hpp |  2 +-
 src/fastgltf.cpp           | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 4e373bf..b3a458e 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -428,7 +428,7 @@ namespace fastgltf {
         ComponentType::Double,
     };
 
-    constexpr auto getComponentType(std::underlying_type_t<ComponentType> componentType) noexcept {
+    constexpr auto getComponentType(std::uint64_t componentType) noexcept {
         const auto index = static_cast<std::size_t>(componentType - getGLComponentType(ComponentType::Byte));
         if (index >= components.size()) {
             return ComponentType::Invalid;
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index bb0522b..8cc100f 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1679,7 +1679,10 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
         if (accessorObject["componentType"].get_uint64().get(componentType) != SUCCESS) FASTGLTF_UNLIKELY {
             return Error::InvalidGltf;
         }
-		accessor.componentType = getComponentType(static_cast<std::underlying_type_t<ComponentType>>(componentType));
+		accessor.componentType = getComponentType(componentType);
+        if (accessor.componentType == ComponentType::Invalid) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
+        }
         if (accessor.componentType == ComponentType::Double && (!hasBit(options, Options::AllowDouble) || !hasBit(config.extensions, Extensions::KHR_accessor_float64))) {
             return Error::InvalidGltf;
         }
@@ -1834,7 +1837,11 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
             if (child["componentType"].get_uint64().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
                 return Error::InvalidGltf;
             }
-            sparse.indexComponentType = getComponentType(static_cast<std::underlying_type_t<ComponentType>>(value));
+            sparse.indexComponentType = getComponentType(value);
+            if (sparse.indexComponentType != ComponentType::UnsignedByte && sparse.indexComponentType != ComponentType::UnsignedShort
+                && sparse.indexComponentType != ComponentType::UnsignedInt) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
 
             // Accessor Sparse Values
             if (sparseAccessorObject["values"].get_object().get(child) != SUCCESS) FASTGLTF_UNLIKELY {
-- 
2.43.0


From 3e2177b3e682175a783fc80109c0fb277f7363f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 014/104] fix: AllowDouble and KHR_accessor_float64 only
 enabled double accessors together instead of each on its own

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 8cc100f..c3ab187 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1683,7 +1683,7 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
         if (accessor.componentType == ComponentType::Invalid) FASTGLTF_UNLIKELY {
             return Error::InvalidGltf;
         }
-        if (accessor.componentType == ComponentType::Double && (!hasBit(options, Options::AllowDouble) || !hasBit(config.extensions, Extensions::KHR_accessor_float64))) {
+        if (accessor.componentType == ComponentType::Double && !hasBit(options, Options::AllowDouble) && !hasBit(config.extensions, Extensions::KHR_accessor_float64)) {
             return Error::InvalidGltf;
         }
 
-- 
2.43.0


From ff1b21f8a4912d0d03bcbf5daa9d58d82a72b842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 015/104] fix: accessor type names were only compared by single
 characters, unknown types were accepted or read out of bounds

---
 include/fastgltf/types.hpp | 38 ++++++++++++--------------------------
 src/fastgltf.cpp           |  3 +++
 2 files changed, 15 insertions(+), 26 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index b3a458e..1aed5d3 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -447,32 +447,6 @@ namespace fastgltf {
         AccessorType::Mat4,
     };
 
-    /**
-     * Gets the AccessorType by its string representation found in glTF files.
-     */
-    constexpr auto getAccessorType(std::string_view accessorTypeName) noexcept {
-        assert(!accessorTypeName.empty());
-        switch (accessorTypeName[0]) {
-            case 'S': return AccessorType::Scalar;
-            case 'V': {
-                const auto componentCount = static_cast<std::size_t>(accessorTypeName[3] - '2');
-                if (componentCount + 1 >= accessorTypes.size()) {
-                    return AccessorType::Invalid;
-                }
-                return accessorTypes[componentCount + 1];
-            }
-            case 'M': {
-                const auto componentCount = static_cast<std::size_t>(accessorTypeName[3] - '2');
-                if (componentCount + 4 >= accessorTypes.size()) {
-                    return AccessorType::Invalid;
-                }
-                return accessorTypes[componentCount + 4];
-            }
-        	default:
-        		return AccessorType::Invalid;
-        }
-    }
-
 	static constexpr std::array<std::string_view, 7> accessorTypeNames = {
 		"SCALAR",
 		"VEC2",
@@ -483,6 +457,18 @@ namespace fastgltf {
 		"MAT4"
 	};
 
+    /**
+     * Gets the AccessorType by its string representation found in glTF files.
+     */
+    constexpr auto getAccessorType(std::string_view accessorTypeName) noexcept {
+        for (std::size_t i = 0; i < accessorTypeNames.size(); ++i) {
+            if (accessorTypeNames[i] == accessorTypeName) {
+                return accessorTypes[i];
+            }
+        }
+        return AccessorType::Invalid;
+    }
+
 	constexpr std::string_view getAccessorTypeName(AccessorType type) noexcept {
     	static_assert(std::is_same_v<std::underlying_type_t<AccessorType>, std::uint8_t>);
 		if (type == AccessorType::Invalid)
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index c3ab187..c69d10a 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1692,6 +1692,9 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
             return Error::InvalidGltf;
         }
 		accessor.type = getAccessorType(accessorType);
+        if (accessor.type == AccessorType::Invalid) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
+        }
 
         std::uint64_t accessorCount;
         if (accessorObject["count"].get_uint64().get(accessorCount) != SUCCESS) FASTGLTF_UNLIKELY {
-- 
2.43.0


From c092f48ac24a39bbcb97930095c5fece84d3b55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:53 +0000
Subject: [PATCH 016/104] fix: an empty asset version was read out of bounds
 and versions like 20.0 were accepted

---
 src/fastgltf.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index c69d10a..b78ad41 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1514,9 +1514,8 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			return Error::InvalidOrMissingAssetField;
 		}
 
-		const auto major = static_cast<std::uint32_t>(version.substr(0, 1)[0] - '0');
-		// std::uint32_t minor = version.substr(2, 3)[0] - '0';
-		if (major != 2U) {
+		const auto major = version.substr(0, version.find('.'));
+		if (major != "2") {
 			return Error::UnsupportedVersion;
 		}
 		info.gltfVersion = std::string { version };
-- 
2.43.0


From 55fd00c352385e3c354bf6b03d9b3f294a02e49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:53 +0000
Subject: [PATCH 017/104] fix: unknown root properties were rejected and
 availableCategories listed categories which were not parsed

---
 src/fastgltf.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index b78ad41..4488da5 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1588,17 +1588,18 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 		}
 
 		dom::array array;
+		Error error = Error::None;
 		if (object.value.get_array().get(array) != SUCCESS) FASTGLTF_UNLIKELY {
-			return Error::InvalidGltf;
+			error = Error::InvalidGltf;
 		}
 
 #define KEY_SWITCH_CASE(name, id) case force_consteval<crc32c(FASTGLTF_QUOTE(id))>:       \
-                if (hasBit(categories, Category::name))   \
+                if (error == Error::None && hasBit(categories, Category::name)) { \
                     error = parse##name(array, asset);                     \
-                readCategories |= Category::name;         \
+                    readCategories |= Category::name;     \
+                }                                         \
                 break;
 
-		Error error = Error::None;
 		switch (hashedKey) {
 			KEY_SWITCH_CASE(Accessors, accessors)
 			KEY_SWITCH_CASE(Animations, animations)
@@ -1614,6 +1615,8 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			KEY_SWITCH_CASE(Skins, skins)
 			KEY_SWITCH_CASE(Textures, textures)
 			case force_consteval<crc32c("extensionsUsed")>: {
+				if (error != Error::None)
+					break;
 				for (auto usedValue : array) {
 					std::string_view usedString;
 					if (auto eError = usedValue.get_string().get(usedString); eError == SUCCESS) FASTGLTF_LIKELY {
@@ -1630,6 +1633,8 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 				break;
 			}
 			default:
+				// Unknown properties can be of any type.
+				error = Error::None;
 				break;
 		}
 
-- 
2.43.0


From c76956ea8099edd75cdb67c5592ebe439f9691e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 018/104] fix: light types with an embedded null character were
 accepted

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 4488da5..f46fe8c 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -2593,7 +2593,7 @@ fg::Error fg::Parser::parseLights(const simdjson::dom::array& lights, Asset& ass
 
         std::string_view type;
         if (lightObject["type"].get_string().get(type) == SUCCESS) FASTGLTF_LIKELY {
-            switch (crcStringFunction(type.data())) {
+            switch (crcStringFunction(type)) {
                 case force_consteval<crc32c("directional")>: {
                     light.type = LightType::Directional;
                     break;
-- 
2.43.0


From addfbc4c483856748985fe1ddb86f8853765b5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 019/104] fix: scenes without nodes were dropped, which shifted
 the indices of all following scenes

---
 src/fastgltf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index f46fe8c..a223553 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3985,10 +3985,11 @@ fg::Error fg::Parser::parseScenes(const simdjson::dom::array& scenes, Asset& ass
                 scene.nodeIndices.emplace_back(static_cast<std::size_t>(index));
             }
 
-            asset.scenes.emplace_back(std::move(scene));
         } else if (nodeError != Error::MissingField) {
             return nodeError;
         }
+
+        asset.scenes.emplace_back(std::move(scene));
     }
 
 	return Error::None;
-- 
2.43.0


From 041c801bfd1a460579340bc4f723522e4cb11422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 020/104] fix: errors in material extensions were ignored

---
 src/fastgltf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index a223553..bf5362d 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3424,7 +3424,9 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 
         dom::object extensionsObject;
         if (auto extensionError = materialObject["extensions"].get_object().get(extensionsObject); extensionError == SUCCESS) {
-			parseMaterialExtensions(extensionsObject, material);
+			if (auto error = parseMaterialExtensions(extensionsObject, material); error != Error::None) FASTGLTF_UNLIKELY {
+				return error;
+			}
         } else if (extensionError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidJson;
         }
-- 
2.43.0


From ae12628df14bdfd37d50dfb3cfd42ce9305d1790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 021/104] fix: base color factors with more than four
 components were accepted

---
 src/fastgltf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index bf5362d..895dbbb 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3351,6 +3351,9 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 
             dom::array baseColorFactor;
             if (pbrMetallicRoughness["baseColorFactor"].get_array().get(baseColorFactor) == SUCCESS) FASTGLTF_LIKELY {
+                if (baseColorFactor.size() != 4) FASTGLTF_UNLIKELY {
+                    return Error::InvalidGltf;
+                }
                 for (auto i = 0U; i < 4; ++i) {
                     double val;
                     if (baseColorFactor.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
-- 
2.43.0


From e10b479fac44d4429af94e05eb5fdbadb07575a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:41 +0000
Subject: [PATCH 022/104] fix: texture coordinate indices leaked from one
 texture of a material into the next

---
 src/fastgltf.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 895dbbb..87bde03 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3198,12 +3198,14 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 					return error;
 				}
 
+				textureInfo = {};
 				if (auto error = parseTextureInfo(occlusionRoughnessMetallic, "roughnessMetallicOcclusionTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
 					packedTextures->roughnessMetallicOcclusionTexture = std::move(textureInfo);
 				} else if (error != Error::MissingField) {
 					return error;
 				}
 
+				textureInfo = {};
 				if (auto error = parseTextureInfo(occlusionRoughnessMetallic, "normalTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
 					packedTextures->normalTexture = std::move(textureInfo);
 				} else if (error != Error::MissingField) {
@@ -3375,13 +3377,14 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 				return Error::InvalidGltf;
 			}
 
-	        TextureInfo textureInfo;
+	        TextureInfo textureInfo = {};
             if (auto error = parseTextureInfo(pbrMetallicRoughness, "baseColorTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
                 pbr.baseColorTexture = std::move(textureInfo);
             } else if (error != Error::MissingField) {
                 return error;
             }
 
+            textureInfo = {};
             if (auto error = parseTextureInfo(pbrMetallicRoughness, "metallicRoughnessTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
                 pbr.metallicRoughnessTexture = std::move(textureInfo);
             } else if (error != Error::MissingField) {
-- 
2.43.0


From d3728e1f2de70aeb893d265bb604ecd55af8f0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:41 +0000
Subject: [PATCH 023/104] fix: texture transforms with more than two offset or
 scale components were accepted

---
 src/fastgltf.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 87bde03..d371040 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -364,6 +364,9 @@ namespace fastgltf {
 
 				dom::array array;
 				if (textureTransform["offset"].get_array().get(array) == SUCCESS) FASTGLTF_LIKELY {
+					if (array.size() != 2) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					for (auto i = 0U; i < 2; ++i) {
 						double val;
 						if (array.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -374,6 +377,9 @@ namespace fastgltf {
 				}
 
 				if (textureTransform["scale"].get_array().get(array) == SUCCESS) FASTGLTF_LIKELY {
+					if (array.size() != 2) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					for (auto i = 0U; i < 2; ++i) {
 						double val;
 						if (array.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
-- 
2.43.0


From 33d2a84f34d8dc4705198ccb84e3ae3cc11f9fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 024/104] fix: material color factors with too few components
 were accepted

---
 src/fastgltf.cpp | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index d371040..da214b2 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -2937,11 +2937,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 
 				dom::array diffuseTransmissionColorFactor;
 				if (auto error = diffuseTransmissionObject["diffuseTransmissionColorFactor"].get_array().get(diffuseTransmissionColorFactor); error == SUCCESS) FASTGLTF_LIKELY {
+					if (diffuseTransmissionColorFactor.size() != diffuseTransmission->diffuseTransmissionColorFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
-					for (auto factor: diffuseTransmissionColorFactor) {
-						if (i >= diffuseTransmission->diffuseTransmissionColorFactor.size()) {
-							return Error::InvalidGltf;
-						}
+					for (auto factor : diffuseTransmissionColorFactor) {
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -2976,11 +2976,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 				dom::array sheenColorFactor;
 				if (auto error = sheenObject["sheenColorFactor"].get_array().get(sheenColorFactor); error ==
 																									SUCCESS) {
+					if (sheenColorFactor.size() != sheen->sheenColorFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
-					for (auto factor: sheenColorFactor) {
-						if (i >= sheen->sheenColorFactor.size()) {
-							return Error::InvalidGltf;
-						}
+					for (auto factor : sheenColorFactor) {
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -3049,11 +3049,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 				dom::array specularColorFactor;
 				if (auto error = specularObject["specularColorFactor"].get_array().get(specularColorFactor);
 						error == SUCCESS) FASTGLTF_LIKELY {
+					if (specularColorFactor.size() != specular->specularColorFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
-					for (auto factor: specularColorFactor) {
-						if (i >= specular->specularColorFactor.size()) {
-							return Error::InvalidGltf;
-						}
+					for (auto factor : specularColorFactor) {
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -3154,11 +3154,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 
 				dom::array attenuationColor;
 				if (auto error = volumeObject["attenuationColor"].get_array().get(attenuationColor); error == SUCCESS) FASTGLTF_LIKELY {
+					if (attenuationColor.size() != volume->attenuationColor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
 					for (auto factor : attenuationColor) {
-						if (i >= volume->attenuationColor.size()) {
-							return Error::InvalidGltf;
-						}
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -3234,11 +3234,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 
 				dom::array diffuseFactor;
 				if (auto error = specularGlossinessObject["diffuseFactor"].get_array().get(diffuseFactor); error == SUCCESS) FASTGLTF_LIKELY {
+					if (diffuseFactor.size() != specularGlossiness->diffuseFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
 					for (auto factor : diffuseFactor) {
-						if (i >= specularGlossiness->diffuseFactor.size()) {
-							return Error::InvalidGltf;
-						}
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -3258,11 +3258,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 
 				dom::array specularFactor;
 				if (auto error = specularGlossinessObject["specularFactor"].get_array().get(specularFactor); error == SUCCESS) FASTGLTF_LIKELY {
+					if (specularFactor.size() != specularGlossiness->specularFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
 					for (auto factor : specularFactor) {
-						if (i >= specularGlossiness->specularFactor.size()) {
-							return Error::InvalidGltf;
-						}
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
-- 
2.43.0


From 1d2d8eb2478ef69c4828f4427e3abb5ba86fdb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:03 +0000
Subject: [PATCH 025/104] fix: unknown buffer view targets, primitive modes,
 sampler filters and wrap modes were truncated to other values instead of
 rejected

---
 src/fastgltf.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index da214b2..d6d9013 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -2158,6 +2158,9 @@ fg::Error fg::Parser::parseBufferViews(const simdjson::dom::array& bufferViews,
         }
 
         if (auto error = bufferViewObject["target"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (number != to_underlying(BufferTarget::ArrayBuffer) && number != to_underlying(BufferTarget::ElementArrayBuffer)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             view.target = static_cast<BufferTarget>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidJson;
@@ -3592,6 +3595,9 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 
 			std::uint64_t value;
 			if (auto error = primitiveObject["mode"].get_uint64().get(value); error == SUCCESS) FASTGLTF_LIKELY {
+				if (value > to_underlying(PrimitiveType::TriangleFan)) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
+				}
 				primitive.type = static_cast<PrimitiveType>(value);
 			} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 				return Error::InvalidGltf;
@@ -3904,6 +3910,17 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
 	return Error::None;
 }
 
+namespace fastgltf {
+	bool isKnownFilter(std::uint64_t number) noexcept {
+		return number == to_underlying(Filter::Nearest) || number == to_underlying(Filter::Linear)
+			|| (number >= to_underlying(Filter::NearestMipMapNearest) && number <= to_underlying(Filter::LinearMipMapLinear));
+	}
+
+	bool isKnownWrap(std::uint64_t number) noexcept {
+		return number == to_underlying(Wrap::ClampToEdge) || number == to_underlying(Wrap::MirroredRepeat) || number == to_underlying(Wrap::Repeat);
+	}
+}
+
 fg::Error fg::Parser::parseSamplers(const simdjson::dom::array& samplers, Asset& asset) {
     using namespace simdjson;
 
@@ -3917,22 +3934,34 @@ fg::Error fg::Parser::parseSamplers(const simdjson::dom::array& samplers, Asset&
         }
 
         if (auto error = samplerObject["magFilter"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (!isKnownFilter(number)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sampler.magFilter = static_cast<Filter>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
         if (auto error = samplerObject["minFilter"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (!isKnownFilter(number)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sampler.minFilter = static_cast<Filter>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
 
         if (auto error = samplerObject["wrapS"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (!isKnownWrap(number)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sampler.wrapS = static_cast<Wrap>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidGltf;
         }
         if (auto error = samplerObject["wrapT"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (!isKnownWrap(number)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sampler.wrapT = static_cast<Wrap>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidGltf;
-- 
2.43.0


From a75f3c685189c2ddad77321dca9bde15d9fd3940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:03 +0000
Subject: [PATCH 026/104] fix: material variant indices beyond the variants of
 the asset overflowed or exhausted memory

---
 include/fastgltf/core.hpp |  2 +-
 src/fastgltf.cpp          | 30 +++++++++++++++---------------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/fastgltf/core.hpp b/include/fastgltf/core.hpp
index f8b29a4..f4df52b 100644
--- a/include/fastgltf/core.hpp
+++ b/include/fastgltf/core.hpp
@@ -861,7 +861,7 @@ namespace fastgltf {
 		Error parseLights(const simdjson::dom::array& array, Asset& asset);
 		Error parseMaterialExtensions(simdjson::dom::object& object, Material& material);
 		Error parseMaterials(simdjson::dom::array& array, Asset& asset);
-		Error parsePrimitiveExtensions(const simdjson::dom::object& object, Primitive& primitive);
+		Error parsePrimitiveExtensions(const simdjson::dom::object& object, const Asset& asset, Primitive& primitive);
 		Error parseMeshes(simdjson::dom::array& array, Asset& asset);
 		Error parseNodes(simdjson::dom::array& array, Asset& asset);
 		Error parseSamplers(const simdjson::dom::array& array, Asset& asset);
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index d6d9013..a8dd24b 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1566,6 +1566,16 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 		}
 	}
 
+	// The other categories refer to the objects defined by the root extensions, so these need to be parsed first.
+	dom::object rootExtensions;
+	if (auto error = root["extensions"].get_object().get(rootExtensions); error == SUCCESS) {
+		if (auto extensionsError = parseExtensions(rootExtensions, asset); extensionsError != Error::None) FASTGLTF_UNLIKELY {
+			return extensionsError;
+		}
+	} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+		return Error::InvalidGltf;
+	}
+
 	Category readCategories = Category::None;
 	for (const auto object : root) {
 		auto hashedKey = crcStringFunction(object.key);
@@ -1578,18 +1588,8 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			continue;
 		}
 
-		if (hashedKey == force_consteval<crc32c("extensions")>) {
-			dom::object extensionsObject;
-			if (object.value.get_object().get(extensionsObject) != SUCCESS) FASTGLTF_UNLIKELY {
-				return Error::InvalidGltf;
-			}
-
-			if (auto error = parseExtensions(extensionsObject, asset); error != Error::None)
-				return error;
-			continue;
-		}
-
-		if (hashedKey == force_consteval<crc32c("asset")> || hashedKey == force_consteval<crc32c("extras")>) {
+		// The extensions are already parsed before this loop.
+		if (hashedKey == force_consteval<crc32c("extensions")> || hashedKey == force_consteval<crc32c("asset")> || hashedKey == force_consteval<crc32c("extras")>) {
 			continue;
 		}
 
@@ -3461,7 +3461,7 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 	return Error::None;
 }
 
-fastgltf::Error fg::Parser::parsePrimitiveExtensions(const simdjson::dom::object& object, Primitive& primitive) {
+fastgltf::Error fg::Parser::parsePrimitiveExtensions(const simdjson::dom::object& object, const Asset& asset, Primitive& primitive) {
 	using namespace simdjson;
 
 	for (auto extension : object) {
@@ -3497,7 +3497,7 @@ fastgltf::Error fg::Parser::parsePrimitiveExtensions(const simdjson::dom::object
 					}
 					for (auto variant : variantsArray) {
 						std::uint64_t variantIndex;
-						if (variant.get_uint64().get(variantIndex) != SUCCESS) FASTGLTF_UNLIKELY {
+						if (variant.get_uint64().get(variantIndex) != SUCCESS || variantIndex >= asset.materialVariants.size()) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
 						}
 
@@ -3618,7 +3618,7 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 			if (hasBit(config.extensions, Extensions::KHR_materials_variants) || hasBit(config.extensions, Extensions::KHR_draco_mesh_compression)) {
 				dom::object extensionsObject;
 				if (auto error = primitiveObject["extensions"].get_object().get(extensionsObject); error == SUCCESS) {
-					if (auto extensionError = parsePrimitiveExtensions(extensionsObject, primitive); extensionError != Error::None)
+					if (auto extensionError = parsePrimitiveExtensions(extensionsObject, asset, primitive); extensionError != Error::None)
 						return extensionError;
 				} else if (error != NO_SUCH_FIELD) {
 					return Error::InvalidGltf;
-- 
2.43.0


From 177fb55421468aa30db303db1cc62510d1e7fd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 027/104] fix: physics combine modes, drive types and drive
 modes were told apart by their first letters, reading out of bounds for short
 strings

---
 include/fastgltf/types.hpp | 25 +++++++++++--------------
 src/fastgltf.cpp           |  8 +++++++-
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 1aed5d3..1dc3389 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -508,19 +508,16 @@ namespace fastgltf {
 
 #if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
 	[[nodiscard]] constexpr auto getCombineMode(const std::string_view name) noexcept {
-		assert(!name.empty());
-	    if(name[0] == 'a') {
+		if (name == "average") {
 			return CombineMode::Average;
-	    }
-
-		switch(name[1]) {
-	    case 'i':
+		}
+		if (name == "minimum") {
 			return CombineMode::Minimum;
-
-	    case 'a':
+		}
+		if (name == "maximum") {
 			return CombineMode::Maximum;
-
-	    case 'u':
+		}
+		if (name == "multiply") {
 			return CombineMode::Multiply;
 		}
 
@@ -541,9 +538,9 @@ namespace fastgltf {
 	}
 
 	[[nodiscard]] constexpr auto getDriveType(const std::string_view name) noexcept {
-		if (name[0] == 'l') {
+		if (name == "linear") {
 			return DriveType::Linear;
-		} else if (name[0] == 'a') {
+		} else if (name == "angular") {
 			return DriveType::Angular;
 		} else {
 			return DriveType::Invalid;
@@ -551,9 +548,9 @@ namespace fastgltf {
 	}
 
 	[[nodiscard]] constexpr auto getDriveMode(const std::string_view name) noexcept {
-	    if (name[0] == 'f') {
+	    if (name == "force") {
 			return DriveMode::Force;
-	    } else if (name[0] == 'a') {
+	    } else if (name == "acceleration") {
 			return DriveMode::Acceleration;
 	    } else {
 			return DriveMode::Invalid;
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index a8dd24b..da44228 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4330,13 +4330,19 @@ fg::Error fg::Parser::parsePhysicsMaterials(const simdjson::dom::array& physicsM
 		std::string_view frictionCombine;
 		if (auto error = materialObject["frictionCombine"].get_string().get(frictionCombine); error == SUCCESS) {
 			material.frictionCombine = getCombineMode(frictionCombine);
+			if (material.frictionCombine == CombineMode::Invalid) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
+			}
 		} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
 
 		std::string_view restitutionCombine;
 		if (auto error = materialObject["restitutionCombine"].get_string().get(restitutionCombine); error == SUCCESS) {
-		   material.restitutionCombine = getCombineMode(restitutionCombine);
+			material.restitutionCombine = getCombineMode(restitutionCombine);
+			if (material.restitutionCombine == CombineMode::Invalid) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
+			}
 		} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
-- 
2.43.0


From d5bd4ceaaa2eb75d7b48f114245debda92398176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 028/104] fix: implicit shapes without explicit dimensions, or
 of an unknown type, were parsed as spheres

---
 src/fastgltf.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index da44228..db6a8e7 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4167,6 +4167,18 @@ fg::Error fg::Parser::parseShapes(const simdjson::dom::array& shapes, Asset& ass
 			return Error::InvalidGltf;
 		}
 
+		if (shapeTypeName == "sphere") {
+			shape.emplace<SphereShape>();
+		} else if (shapeTypeName == "box") {
+			shape.emplace<BoxShape>();
+		} else if (shapeTypeName == "capsule") {
+			shape.emplace<CapsuleShape>();
+		} else if (shapeTypeName == "cylinder") {
+			shape.emplace<CylinderShape>();
+		} else FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
+		}
+
 		dom::object sphereObject;
 		if (auto error = shapeObject["sphere"].get_object().get(sphereObject); error == SUCCESS) {
 			if (shapeTypeName != "sphere") FASTGLTF_UNLIKELY {
-- 
2.43.0


From 71add469e514a121eba8f0aea408cf2a46ea1ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:32 +0000
Subject: [PATCH 029/104] fix: the geometry of a trigger which also lists nodes
 was silently dropped

---
 src/fastgltf.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index db6a8e7..88063b9 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4839,6 +4839,11 @@ fg::Error fg::Parser::parsePhysicsRigidBody(simdjson::dom::object& khr_physics_r
 
 	dom::object triggerObject;
 	if (auto error = khr_physics_rigid_bodies["trigger"].get_object().get(triggerObject); error == SUCCESS) {
+		// A trigger either has a geometry or consists of other nodes
+		if (triggerObject["geometry"].error() == SUCCESS && triggerObject["nodes"].error() == SUCCESS) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
+		}
+
 		dom::object geometryObject;
 		if (error = triggerObject["geometry"].get_object().get(geometryObject); error == SUCCESS) {
 			auto& geometryTrigger = rigidBody.trigger.emplace().emplace<GeometryTrigger>();
-- 
2.43.0


From 7201547f5c47bccf65cab5640eda09ef66450171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:09 +0000
Subject: [PATCH 030/104] fix: the reverse iterators of SmallVector did not
 compile

---
 include/fastgltf/types.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 1dc3389..02f9ae6 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -816,12 +816,12 @@ namespace fastgltf {
 	    [[nodiscard]] const_iterator end() const noexcept { return begin() + size(); }
 	    [[nodiscard]] const_iterator cend() const noexcept { return begin() + size(); }
 
-        [[nodiscard]] std::reverse_iterator<T*> rbegin() { return end(); }
-        [[nodiscard]] std::reverse_iterator<const T*> rbegin() const { return end(); }
-        [[nodiscard]] std::reverse_iterator<const T*> crbegin() const { return end(); }
-        [[nodiscard]] std::reverse_iterator<T*> rend() { return begin(); }
-        [[nodiscard]] std::reverse_iterator<const T*> rend() const { return begin(); }
-        [[nodiscard]] std::reverse_iterator<const T*> crend() const { return begin(); }
+        [[nodiscard]] std::reverse_iterator<T*> rbegin() { return std::reverse_iterator<T*>(end()); }
+        [[nodiscard]] std::reverse_iterator<const T*> rbegin() const { return std::reverse_iterator<const T*>(end()); }
+        [[nodiscard]] std::reverse_iterator<const T*> crbegin() const { return std::reverse_iterator<const T*>(end()); }
+        [[nodiscard]] std::reverse_iterator<T*> rend() { return std::reverse_iterator<T*>(begin()); }
+        [[nodiscard]] std::reverse_iterator<const T*> rend() const { return std::reverse_iterator<const T*>(begin()); }
+        [[nodiscard]] std::reverse_iterator<const T*> crend() const { return std::reverse_iterator<const T*>(begin()); }
 
         [[nodiscard]] T* data() noexcept { return _data; }
         [[nodiscard]] const T* data() const noexcept { return _data; }
-- 
2.43.0


From d72ca8acd122c817d791aac79791c32295681b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:09 +0000
Subject: [PATCH 031/104] fix: SmallVector::clear kept the capacity of the
 freed allocation, and both clear and reserve leaked it when empty

---
 include/fastgltf/types.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 02f9ae6..3e81c31 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -869,7 +869,7 @@ namespace fastgltf {
 			// Destroy all objects in the old allocation
 			std::destroy(begin(), end());
 
-            if (!isUsingStack() && _data && size() != 0) {
+            if (!isUsingStack()) {
 				allocator.deallocate(_data, _capacity);
             }
 
@@ -979,12 +979,13 @@ namespace fastgltf {
 		void clear() noexcept {
 			std::destroy(begin(), end());
 
-			if (!isUsingStack() && size() != 0) {
+			if (!isUsingStack()) {
 				allocator.deallocate(_data, _capacity);
 				_data = reinterpret_cast<T*>(storage.data());
 			}
 
 			_size = 0;
+			_capacity = N;
 		}
 
         template <typename... Args>
-- 
2.43.0


From fdf595f7c76eef9ceff78ff17203caaf3f8a7df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:09 +0000
Subject: [PATCH 032/104] fix: SmallVector::shrink_to_fit assigned to objects
 that do not exist, and leaked the allocation when going back to the internal
 storage

---
 include/fastgltf/types.hpp | 67 +++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 38 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 3e81c31..d1e4c0b 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -724,6 +724,30 @@ namespace fastgltf {
             }
         }
 
+		// Copies or moves count objects into the uninitialized memory at result, and destroys the originals.
+		static void relocate(T* first, std::size_t count, T* result) {
+			for (std::size_t i = 0; i < count; ++i) {
+				if constexpr (std::is_nothrow_move_constructible_v<T>) {
+					new(result + i) T(std::move(first[i]));
+				} else if constexpr (std::is_copy_constructible_v<T>) {
+					new(result + i) T(first[i]);
+				} else {
+					new(result + i) T(std::move(first[i]));
+				}
+			}
+			std::destroy(first, first + count);
+		}
+
+		// Moves all objects into different memory, and frees the memory they are currently in.
+		void changeStorage(T* newData, std::size_t newCapacity) {
+			relocate(begin(), size(), newData);
+			if (!isUsingStack()) {
+				allocator.deallocate(_data, _capacity);
+			}
+			_data = newData;
+			_capacity = newCapacity;
+		}
+
     public:
 		using iterator = T*;
 		using const_iterator = const T*;
@@ -854,27 +878,7 @@ namespace fastgltf {
 
 			T* alloc = allocator.allocate(newCapacity);
 
-			// Copy/Move the old data into the new memory
-			for (std::size_t i = 0; i < size(); ++i) {
-				auto& x = (*this)[i];
-				if constexpr (std::is_nothrow_move_constructible_v<T>) {
-					new(alloc + i) T(std::move(x));
-				} else if constexpr (std::is_copy_constructible_v<T>) {
-					new(alloc + i) T(x);
-				} else {
-					new(alloc + i) T(std::move(x));
-				}
-			}
-
-			// Destroy all objects in the old allocation
-			std::destroy(begin(), end());
-
-            if (!isUsingStack()) {
-				allocator.deallocate(_data, _capacity);
-            }
-
-            _data = alloc;
-            _capacity = newCapacity;
+			changeStorage(alloc, newCapacity);
         }
 
         void resize(std::size_t newSize) {
@@ -930,30 +934,17 @@ namespace fastgltf {
 
 		void shrink_to_fit() {
 			// Only have to shrink if there's any unused capacity.
-			if (capacity() == size() || size() == 0) {
+			if (capacity() == size() || isUsingStack()) {
 				return;
 			}
 
-			// If we can use the object's memory again, we'll copy everything over.
 			if (size() <= N) {
-				copy(begin(), size(), reinterpret_cast<T*>(storage.data()));
-				_data = reinterpret_cast<T*>(storage.data());
+				// We can use the object's memory again.
+				changeStorage(reinterpret_cast<T*>(storage.data()), N);
 			} else {
 				// We have to use heap allocated memory.
-				auto* alloc = allocator.allocate(size());
-				for (std::size_t i = 0; i < size(); ++i) {
-					new(alloc + i) T((*this)[i]);
-				}
-
-				if (_data && !isUsingStack()) {
-					std::destroy(begin(), end());
-					allocator.deallocate(_data, _capacity);
-				}
-
-				_data = alloc;
+				changeStorage(allocator.allocate(size()), size());
 			}
-
-			_capacity = _size;
 		}
 
 		void assign(std::size_t count, const T& value) {
-- 
2.43.0


From 004a22c76d61d7576b70f1e5c3d8b615366f2a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:09 +0000
Subject: [PATCH 033/104] fix: moving a SmallVector leaked or lost elements,
 ignored the allocator and left the source without storage

---
 include/fastgltf/types.hpp | 62 +++++++++++---------------------------
 1 file changed, 18 insertions(+), 44 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index d1e4c0b..6b430fe 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -711,19 +711,6 @@ namespace fastgltf {
         T* _data;
         std::size_t _size = 0, _capacity = N;
 
-        void copy(const T* first, std::size_t count, T* result) {
-            if (count > 0) {
-				if constexpr (std::is_trivially_copyable_v<T>) {
-					std::memcpy(result, first, count * sizeof(T));
-				} else {
-					*result++ = *first;
-					for (std::size_t i = 1; i < count; ++i) {
-						*result++ = *++first;
-					}
-				}
-            }
-        }
-
 		// Copies or moves count objects into the uninitialized memory at result, and destroys the originals.
 		static void relocate(T* first, std::size_t count, T* result) {
 			for (std::size_t i = 0; i < count; ++i) {
@@ -769,55 +756,42 @@ namespace fastgltf {
         }
 
         SmallVector(const SmallVector& other) noexcept : _data(reinterpret_cast<T*>(storage.data())) {
-            resize(other.size());
-            copy(other.begin(), other.size(), begin());
+            reserve(other.size());
+            std::uninitialized_copy(other.begin(), other.end(), begin());
+            _size = other.size();
         }
 
-        SmallVector(SmallVector&& other) noexcept : _data(reinterpret_cast<T*>(storage.data())) {
+        SmallVector(SmallVector&& other) noexcept : allocator(other.allocator), _data(reinterpret_cast<T*>(storage.data())) {
             if (other.isUsingStack()) {
-                if (!other.empty()) {
-                    resize(other.size());
-                    copy(other.begin(), other.size(), begin());
-                    other._data = reinterpret_cast<T*>(other.storage.data()); // Reset pointer
-                    _size = std::exchange(other._size, 0);
-                    _capacity = std::exchange(other._capacity, N);
-                }
+                relocate(other.begin(), other.size(), begin());
             } else {
-                _data = std::exchange(other._data, nullptr);
-                _size = std::exchange(other._size, 0);
+                _data = std::exchange(other._data, reinterpret_cast<T*>(other.storage.data()));
                 _capacity = std::exchange(other._capacity, N);
             }
+            _size = std::exchange(other._size, 0);
         }
 
         SmallVector& operator=(const SmallVector& other) {
             if (std::addressof(other) != this) {
-                if (!isUsingStack() && _data) {
-	                std::destroy(begin(), end());
-					allocator.deallocate(_data, _capacity);
-                    _data = reinterpret_cast<T*>(storage.data());
-                    _size = _capacity = 0;
-                }
-
-                resize(other.size());
-                copy(other.begin(), other.size(), begin());
+                clear();
+                reserve(other.size());
+                std::uninitialized_copy(other.begin(), other.end(), begin());
+                _size = other.size();
             }
             return *this;
         }
 
         SmallVector& operator=(SmallVector&& other) noexcept {
             if (std::addressof(other) != this) {
-                if (other.isUsingStack()) {
-                    if (!other.empty()) {
-                        resize(other.size());
-                        copy(other.begin(), other.size(), begin());
-                        other._data = reinterpret_cast<T*>(other.storage.data()); // Reset pointer
-                        _size = std::exchange(other._size, 0);
-                        _capacity = std::exchange(other._capacity, N);
-                    }
-                } else {
-                    _data = std::exchange(other._data, nullptr);
+                clear();
+                if (!other.isUsingStack() && allocator == other.allocator) {
+                    _data = std::exchange(other._data, reinterpret_cast<T*>(other.storage.data()));
                     _size = std::exchange(other._size, 0);
                     _capacity = std::exchange(other._capacity, N);
+                } else {
+                    reserve(other.size());
+                    relocate(other.begin(), other.size(), begin());
+                    _size = std::exchange(other._size, 0);
                 }
             }
             return *this;
-- 
2.43.0


From c646ae81099551e904bd8fded9ce09441afd94b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:09 +0000
Subject: [PATCH 034/104] fix: SmallVector::emplace_back, resize and assign
 read an argument that is an element of the vector after destroying it

---
 include/fastgltf/types.hpp | 39 +++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 6b430fe..bad061c 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -725,6 +725,11 @@ namespace fastgltf {
 			std::destroy(first, first + count);
 		}
 
+		// We use geometric growth, similarly to std::vector.
+		static std::size_t growthCapacity(std::size_t newCapacity) noexcept {
+			return static_cast<std::size_t>(1) << (std::numeric_limits<std::size_t>::digits - clz(newCapacity));
+		}
+
 		// Moves all objects into different memory, and frees the memory they are currently in.
 		void changeStorage(T* newData, std::size_t newCapacity) {
 			relocate(begin(), size(), newData);
@@ -847,8 +852,7 @@ namespace fastgltf {
                 return;
             }
 
-            // We use geometric growth, similarly to std::vector.
-            newCapacity = static_cast<std::size_t>(1) << (std::numeric_limits<decltype(newCapacity)>::digits - clz(newCapacity));
+            newCapacity = growthCapacity(newCapacity);
 
 			T* alloc = allocator.allocate(newCapacity);
 
@@ -886,20 +890,12 @@ namespace fastgltf {
 				// Just destroy the "overflowing" elements.
 				std::destroy(begin() + newSize, end());
 			} else {
-				// Reserve enough capacity and copy the new value over.
+				// Reserve enough capacity and copy the new value over. The value might be one of our elements.
+				const T copy(value);
 				auto oldSize = _size;
 				reserve(newSize);
 				for (auto it = begin() + oldSize; it != begin() + newSize; ++it) {
-					if (it == nullptr)
-						break;
-
-					if constexpr (std::is_move_constructible_v<T>) {
-						new (it) T(std::move(value));
-					} else if constexpr (std::is_trivially_copyable_v<T>) {
-						std::memcpy(it, std::addressof(value), sizeof(T));
-					} else {
-						new (it) T(value);
-					}
+					new (it) T(copy);
 				}
 			}
 
@@ -922,8 +918,9 @@ namespace fastgltf {
 		}
 
 		void assign(std::size_t count, const T& value) {
+			const T copy(value);
 			clear();
-			resize(count, value);
+			resize(count, copy);
 		}
 
 		void assign(std::initializer_list<T> init) {
@@ -955,10 +952,18 @@ namespace fastgltf {
 
         template <typename... Args>
         decltype(auto) emplace_back(Args&&... args) {
-            // We reserve enough capacity for the new element, and then just increment the size.
-			reserve(_size + 1);
+			if (_size < _capacity || (isUsingStack() && _size < N)) {
+				reserve(_size + 1);
+				new (end()) T(std::forward<Args>(args)...);
+			} else {
+				// The arguments might refer to one of our elements, so the new element
+				// has to be constructed before the others are moved.
+				const auto newCapacity = growthCapacity(_size + 1);
+				T* alloc = allocator.allocate(newCapacity);
+				new (alloc + _size) T(std::forward<Args>(args)...);
+				changeStorage(alloc, newCapacity);
+			}
 			++_size;
-            new (std::addressof(back())) T(std::forward<Args>(args)...);
             return (back());
         }
 
-- 
2.43.0


From d1fa45223327910aae12bef540387f56bd652280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:31 +0000
Subject: [PATCH 035/104] fix: Optional<float> and Optional<double> used the
 ordinary numbers 0x7fedb6db and 0x7ffdb6db6db6db6d as the empty flag

---
 include/fastgltf/types.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index bad061c..ad06266 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1053,12 +1053,12 @@ namespace fastgltf {
 	struct OptionalFlagValue<float, std::enable_if_t<std::numeric_limits<float>::is_iec559>> {
 		// This float is a quiet NaN with a specific bit pattern to be able to differentiate
 		// between this flag value and any result from FP operations.
-		static constexpr auto missing_value = static_cast<float>(0x7fedb6db);
+		static inline const auto missing_value = bit_cast<float>(std::uint32_t(0x7fedb6db));
 	};
 
 	template<>
 	struct OptionalFlagValue<double, std::enable_if_t<std::numeric_limits<double>::is_iec559>> {
-		static constexpr auto missing_value = static_cast<double>(0x7ffdb6db6db6db6d);
+		static inline const auto missing_value = bit_cast<double>(std::uint64_t(0x7ffdb6db6db6db6d));
 	};
 
 	template<>
@@ -1192,7 +1192,12 @@ namespace fastgltf {
 		}
 
 		[[nodiscard]] bool has_value() const {
-			return this->_value != OptionalFlagValue<T>::missing_value;
+			if constexpr (std::is_floating_point_v<T>) {
+				// The flag value is a NaN, which never compares equal.
+				return std::memcmp(std::addressof(_value), std::addressof(OptionalFlagValue<T>::missing_value), sizeof(T)) != 0;
+			} else {
+				return this->_value != OptionalFlagValue<T>::missing_value;
+			}
 		}
 
 		[[nodiscard]] T& value()& {
-- 
2.43.0


From 426d6af9f7c22073292eeed0bbcc879f3bee2571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:31 +0000
Subject: [PATCH 036/104] fix: swapping an empty with a non-empty Optional left
 both non-empty

---
 include/fastgltf/types.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index ad06266..7559122 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1319,8 +1319,10 @@ namespace fastgltf {
 				std::swap(_value, other._value);
 			} else if (has_value() && !other.has_value()) {
 				other._value = std::move(_value);
+				reset();
 			} else if (!has_value() && other.has_value()) {
 				_value = std::move(other._value);
+				other.reset();
 			}
 		}
 
-- 
2.43.0


From 2ec19e63e6188da840456e955fb19e46b1e25fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:31 +0000
Subject: [PATCH 037/104] fix: Optional::or_else did not compile, as it
 returned T

---
 include/fastgltf/types.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 7559122..581d518 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1303,12 +1303,12 @@ namespace fastgltf {
 		}
 
 		template <typename F>
-		[[nodiscard]] T or_else(F&& func) const& {
+		[[nodiscard]] OptionalWithFlagValue or_else(F&& func) const& {
 			return *this ? *this : std::invoke(std::forward<F>(func));
 		}
 
 		template <typename F>
-		[[nodiscard]] T or_else(F&& func)&& {
+		[[nodiscard]] OptionalWithFlagValue or_else(F&& func)&& {
 			return *this ? std::move(*this) : std::invoke(std::forward<F>(func));
 		}
 
-- 
2.43.0


From b6fe82a00874ddd5a43e7d6a593d0b937fa7e1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:31 +0000
Subject: [PATCH 038/104] fix: assigning an Optional of a different type did
 not compile

---
 include/fastgltf/types.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 581d518..741632f 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1167,9 +1167,9 @@ namespace fastgltf {
 		OptionalWithFlagValue& operator=(const OptionalWithFlagValue<U>& other) {
 			if (other.has_value()) {
 				if (has_value()) {
-					_value = other._value;
+					_value = *other;
 				} else {
-					new(std::addressof(_value)) T(other._value);
+					new(std::addressof(_value)) T(*other);
 				}
 			} else {
 				reset();
@@ -1181,9 +1181,9 @@ namespace fastgltf {
 		OptionalWithFlagValue& operator=(OptionalWithFlagValue<U>&& other) noexcept(std::is_nothrow_assignable_v<T&, T> && std::is_nothrow_constructible_v<T, T>) {
 			if (other.has_value()) {
 				if (has_value()) {
-					_value = std::move(other._value);
+					_value = *std::move(other);
 				} else {
-					new(std::addressof(_value)) T(other._value);
+					new(std::addressof(_value)) T(*std::move(other));
 				}
 			} else {
 				reset();
-- 
2.43.0


From aae1bfdf9ef807cb16e95f2af521a32b671eb373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:31 +0000
Subject: [PATCH 039/104] fix: a moved-from StaticVector kept its size without
 having any elements

---
 include/fastgltf/types.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 741632f..d6fc54e 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -615,12 +615,14 @@ namespace fastgltf {
 
         StaticVector(StaticVector&& other) noexcept {
             _array = std::move(other._array);
-            _size = other.size();
+            _size = std::exchange(other._size, 0);
         }
 
 		StaticVector& operator=(StaticVector&& other) noexcept {
-			_array = std::move(other._array);
-			_size = other.size();
+			if (std::addressof(other) != this) {
+				_array = std::move(other._array);
+				_size = std::exchange(other._size, 0);
+			}
 			return *this;
 		}
 
-- 
2.43.0


From b011f875246b457f25844ac7b0689a9bfd4edfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:31 +0000
Subject: [PATCH 040/104] fix: StaticVector::fromVector copied size() bytes
 instead of size() elements

---
 include/fastgltf/types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index d6fc54e..aaa3a20 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -632,7 +632,7 @@ namespace fastgltf {
 		static StaticVector<T> fromVector(std::vector<T> vector) {
 			StaticVector<T> staticVector(vector.size());
 			if constexpr (std::is_trivially_copyable_v<T>) {
-				std::memcpy(staticVector.data(), vector.data(), vector.size());
+				std::memcpy(staticVector.data(), vector.data(), staticVector.size_bytes());
 			} else {
 				for (auto it = vector.begin(); it != vector.end(); ++it) {
 					staticVector[std::distance(vector.begin(), it)] = *it;
-- 
2.43.0


From 0c37286dc684a884f03d0787583872826d01b6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:31 +0000
Subject: [PATCH 041/104] fix: comparing StaticVectors compared the bytes of
 the elements instead of the elements

---
 include/fastgltf/types.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index aaa3a20..8b826e1 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -679,13 +679,13 @@ namespace fastgltf {
 
         bool operator==(const StaticVector<value_type>& other) const {
             if (other.size() != size()) return false;
-            return std::memcmp(data(), other.data(), size_bytes()) == 0;
+            return std::equal(begin(), end(), other.begin());
         }
 
         // This is mostly just here for compatibility and the tests
         bool operator==(const std::vector<value_type>& other) const {
             if (other.size() != size()) return false;
-            return std::memcmp(data(), other.data(), size_bytes()) == 0;
+            return std::equal(begin(), end(), other.begin());
         }
     };
 
-- 
2.43.0


From acc54e1ac20b35cb2e7bcc06bf7926085621b362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:31 +0000
Subject: [PATCH 042/104] fix: move assigning AccessorBoundsArray destroyed the
 buffer as the wrong type, broke on self-assignment and left the source with a
 size but no elements

---
 include/fastgltf/types.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 8b826e1..ea20651 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1601,7 +1601,7 @@ namespace fastgltf {
 
 		AccessorBoundsArray(const AccessorBoundsArray& other) = delete;
 		AccessorBoundsArray(AccessorBoundsArray&& other) noexcept
-			: len(other.len), dataType(other.dataType) {
+			: len(std::exchange(other.len, 0)), dataType(other.dataType) {
 			switch (other.dataType) {
 				case BoundsType::int64:
 					new (&int64_buffer) std::unique_ptr(std::move(other.int64_buffer));
@@ -1616,8 +1616,9 @@ namespace fastgltf {
 
 		auto& operator=(const AccessorBoundsArray& other) = delete;
 		auto& operator=(AccessorBoundsArray&& other) noexcept {
-			len = other.len;
-			dataType = other.dataType;
+			if (std::addressof(other) == this) {
+				return *this;
+			}
 			switch (dataType) {
 				case BoundsType::int64:
 					std::destroy_at(&int64_buffer);
@@ -1628,7 +1629,9 @@ namespace fastgltf {
 				default:
 					FASTGLTF_UNREACHABLE
 			}
-			switch (other.dataType) {
+			len = std::exchange(other.len, 0);
+			dataType = other.dataType;
+			switch (dataType) {
 				case BoundsType::int64:
 					new (&int64_buffer) std::unique_ptr(std::move(other.int64_buffer));
 					break;
-- 
2.43.0


From cf7115688fd889be500737ce69773a4dae377113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:31 +0000
Subject: [PATCH 043/104] fix: Accessor::updateBoundsToInclude always included
 zero in new bounds

---
 include/fastgltf/types.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index ea20651..f504df9 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -2658,10 +2658,14 @@ namespace fastgltf {
 		 */
 		template <typename T, std::enable_if_t<AccessorBoundsArray::is_valid_type_v<T>, bool> = true>
 		void updateBoundsToInclude(T value) {
-			if (!max)
+			if (!max) {
 				max = AccessorBoundsArray::ForType<T>(1);
-			if (!min)
+				max->set<T>(0, value);
+			}
+			if (!min) {
 				min = AccessorBoundsArray::ForType<T>(1);
+				min->set<T>(0, value);
+			}
 
 			assert(max->isType<T>() && min->isType<T>());
 			assert(max->size() == 1 && min->size() == 1);
@@ -2680,10 +2684,16 @@ namespace fastgltf {
 		 */
 		template <typename T, std::size_t N, std::enable_if_t<AccessorBoundsArray::is_valid_type_v<T>, bool> = true>
 		void updateBoundsToInclude(math::vec<T, N> value) {
-			if (!max)
+			if (!max) {
 				max = AccessorBoundsArray::ForType<T>(value.size());
-			if (!min)
+				for (std::size_t i = 0; i < value.size(); ++i)
+					max->set<T>(i, value[i]);
+			}
+			if (!min) {
 				min = AccessorBoundsArray::ForType<T>(value.size());
+				for (std::size_t i = 0; i < value.size(); ++i)
+					min->set<T>(i, value[i]);
+			}
 
 			assert(max->isType<T>() && min->isType<T>());
 			assert(max->size() == value.size() && min->size() == value.size());
-- 
2.43.0


From 88e90d9dac537ccb12aacc77a45bd16a413ec506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:44 +0000
Subject: [PATCH 044/104] fix: types.hpp uses std::equal and did not include
 <algorithm>

---
 include/fastgltf/types.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index f504df9..abb3106 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -28,6 +28,7 @@
 #define FASTGLTF_TYPES_HPP
 
 #if !defined(FASTGLTF_USE_STD_MODULE) || !FASTGLTF_USE_STD_MODULE
+#include <algorithm>
 #include <cassert>
 #include <filesystem>
 #include <optional>
-- 
2.43.0


From 8c2dbdbdf7bb1b741115f53623324e9df78b919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:00 +0000
Subject: [PATCH 045/104] fix: the prefix increment and decrement of vectors
 returned nothing

---
 include/fastgltf/math.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 2112fa6..f6d746a 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -262,6 +262,7 @@ namespace fastgltf::math {
 		constexpr auto operator++() noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i]++;
+			return *this;
 		}
 		constexpr auto operator++(int) noexcept {
 			vec<T, N> ret(*this);
@@ -294,6 +295,7 @@ namespace fastgltf::math {
 		constexpr auto operator--() noexcept {
 			for (std::size_t i = 0; i < N; ++i)
 				(*this)[i]--;
+			return *this;
 		}
 		constexpr auto operator--(int) noexcept {
 			vec<T, N> ret(*this);
-- 
2.43.0


From 26f8060e4220ca0ee17717d616dd42ee3e62c81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:00 +0000
Subject: [PATCH 046/104] fix: dividing a quaternion by a scalar multiplied by
 it, breaking normalize and slerp

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index f6d746a..eb96338 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -516,7 +516,7 @@ namespace fastgltf::math {
 		}
 
 		constexpr auto operator/(T scalar) const noexcept {
-			return quat<T>(*this) *= scalar;
+			return quat<T>(*this) /= scalar;
 		}
 		constexpr auto operator/=(T scalar) noexcept {
 			for (std::size_t i = 0; i < 4; ++i)
-- 
2.43.0


From f55d3ab430903031cd530fa2eb16660ece6e0f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:00 +0000
Subject: [PATCH 047/104] fix: constructing a non-square matrix from scalars
 mixed up its columns

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index eb96338..cc90d8f 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -631,7 +631,7 @@ namespace fastgltf::math {
 
 		template <typename... Args, std::size_t... i>
 		constexpr void copy_values(const std::tuple<Args...>& tuple, std::integer_sequence<std::size_t, i...>) noexcept {
-			(..., (_data[i / M][i % N] = std::get<i>(std::move(tuple))));
+			(..., (_data[i / N][i % N] = std::get<i>(std::move(tuple))));
 		}
 
 	public:
-- 
2.43.0


From 418a1b28ec75ba395ef78ba153cb3a853ddcde20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:00 +0000
Subject: [PATCH 048/104] fix: comparing non-square matrices compared as many
 columns as there are rows

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index cc90d8f..908c993 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -719,7 +719,7 @@ namespace fastgltf::math {
 		}
 
 		[[nodiscard]] constexpr bool operator==(const mat<T, N, M>& other) const noexcept {
-			for (std::size_t i = 0; i < N; ++i)
+			for (std::size_t i = 0; i < columns(); ++i)
 				if (col(i) != other.col(i))
 					return false;
 			return true;
-- 
2.43.0


From ae370f796f86706b299979db1ff0fe6737ffaf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:00 +0000
Subject: [PATCH 049/104] fix: multiplying a non-square matrix with a vector
 did not compile

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 908c993..35bf3a6 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -742,7 +742,7 @@ namespace fastgltf::math {
 			return ret;
 		}
 		constexpr auto operator*(vec<T, M> other) const noexcept {
-			vec<T, M> ret = col(0) * other[0];
+			vec<T, N> ret = col(0) * other[0];
 			for (std::size_t i = 1; i < columns(); ++i)
 				ret += col(i) * other[i];
 			return ret;
-- 
2.43.0


From f3306596641d9aa02aa8991418bc5bfd31ce1aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:10 +0000
Subject: [PATCH 050/104] fix: decomposing a rotation by 180 degrees lost the
 signs of the axis

---
 include/fastgltf/math.hpp | 49 ++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 35bf3a6..0000e7f 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -936,23 +936,40 @@ namespace fastgltf::math {
 		matrix.col(1) /= scale.y();
 		matrix.col(2) /= scale.z();
 
-		// Construct the quaternion. This algo is copied from here:
-		// https://www.euclideanspace.com/maths/geometry/rotations/conversions/matrixToQuaternion/christian.htm.
-		// glTF orders the components as x,y,z,w
+		// Construct the quaternion. The magnitudes of the components follow from the diagonal. The largest one
+		// is then used to compute the others, as the differences used for the signs of the imaginary components
+		// vanish for rotations by 180 degrees. glTF orders the components as x,y,z,w.
+		const std::array<double, 4> squares = {{
+			1. + matrix[0][0] - matrix[1][1] - matrix[2][2],
+			1. - matrix[0][0] + matrix[1][1] - matrix[2][2],
+			1. - matrix[0][0] - matrix[1][1] + matrix[2][2],
+			1. + matrix[0][0] + matrix[1][1] + matrix[2][2],
+		}};
+		std::size_t largest = 3;
+		for (std::size_t i = 0; i < 3; ++i)
+			if (squares[i] > squares[largest])
+				largest = i;
+
+		std::array<double, 4> q;
+		if (largest == 3) {
+			q = {{
+				double(matrix[1][2]) - matrix[2][1],
+				double(matrix[2][0]) - matrix[0][2],
+				double(matrix[0][1]) - matrix[1][0],
+				squares[3],
+			}};
+		} else {
+			const auto i = largest, j = (largest + 1) % 3, k = (largest + 2) % 3;
+			q[i] = squares[i];
+			q[j] = double(matrix[i][j]) + matrix[j][i];
+			q[k] = double(matrix[i][k]) + matrix[k][i];
+			q[3] = double(matrix[j][k]) - matrix[k][j];
+		}
+		// We always return the quaternion with a positive real part.
+		const auto root = 2. * sqrt(squares[largest]) * (q[3] < 0. ? -1. : 1.);
 		rotation = math::fquat(
-			max(.0f, 1.f + matrix[0][0] - matrix[1][1] - matrix[2][2]),
-			max(.0f, 1.f - matrix[0][0] + matrix[1][1] - matrix[2][2]),
-			max(.0f, 1.f - matrix[0][0] - matrix[1][1] + matrix[2][2]),
-			max(.0f, 1.f + matrix[0][0] + matrix[1][1] + matrix[2][2])
-		);
-		rotation.x() = static_cast<float>(sqrt(static_cast<double>(rotation.x()))) / 2;
-		rotation.y() = static_cast<float>(sqrt(static_cast<double>(rotation.y()))) / 2;
-		rotation.z() = static_cast<float>(sqrt(static_cast<double>(rotation.z()))) / 2;
-		rotation.w() = static_cast<float>(sqrt(static_cast<double>(rotation.w()))) / 2;
-
-		rotation.x() = std::copysignf(rotation.x(), matrix[1][2] - matrix[2][1]);
-		rotation.y() = std::copysignf(rotation.y(), matrix[2][0] - matrix[0][2]);
-		rotation.z() = std::copysignf(rotation.z(), matrix[0][1] - matrix[1][0]);
+			static_cast<float>(q[0] / root), static_cast<float>(q[1] / root),
+			static_cast<float>(q[2] / root), static_cast<float>(q[3] / root));
 	}
 } // namespace fastgltf::math
 
-- 
2.43.0


From f1e6588cf6a7e2a9a3ec30e9c05d1dcc9ce502c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:10 +0000
Subject: [PATCH 051/104] fix: decomposing a mirroring matrix lost the
 reflection

---
 include/fastgltf/math.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 0000e7f..4374d84 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -930,6 +930,10 @@ namespace fastgltf::math {
 			length(matrix.col(2))
 		);
 
+		// A mirroring matrix needs an odd number of negative scales, and it does not matter which.
+		if (determinant(fmat3x3(matrix)) < 0.f)
+			scale.x() = -scale.x();
+
 		// Remove the scaling from the matrix, leaving only the rotation.
 		// matrix is now the rotation matrix.
 		matrix.col(0) /= scale.x();
-- 
2.43.0


From bba9dccc20d174e5d054e5a0e45eac8f2cfc7a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:10 +0000
Subject: [PATCH 052/104] fix: decomposing a matrix with a scale of zero
 yielded a rotation of NaNs

---
 include/fastgltf/math.hpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 4374d84..65dcb9a 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -936,9 +936,33 @@ namespace fastgltf::math {
 
 		// Remove the scaling from the matrix, leaving only the rotation.
 		// matrix is now the rotation matrix.
-		matrix.col(0) /= scale.x();
-		matrix.col(1) /= scale.y();
-		matrix.col(2) /= scale.z();
+		std::size_t zeroes = 0, zeroColumn = 0, validColumn = 0;
+		for (std::size_t i = 0; i < 3; ++i) {
+			if (scale[i] != 0.f) {
+				matrix.col(i) /= scale[i];
+				validColumn = i;
+			} else {
+				++zeroes;
+				zeroColumn = i;
+			}
+		}
+
+		// Columns which are scaled to zero tell us nothing about the rotation, so we use
+		// any vectors which complete it.
+		if (zeroes == 3) {
+			matrix = fmat4x4();
+		} else if (zeroes != 0) {
+			std::array<fvec3, 3> axes = {{ fvec3(matrix.col(0)), fvec3(matrix.col(1)), fvec3(matrix.col(2)) }};
+			if (zeroes == 2) {
+				const auto& valid = axes[validColumn];
+				const auto other = std::abs(valid.x()) < 0.5f ? fvec3(1.f, 0.f, 0.f) : fvec3(0.f, 1.f, 0.f);
+				axes[(validColumn + 1) % 3] = normalize(cross(valid, other));
+				zeroColumn = (validColumn + 2) % 3;
+			}
+			axes[zeroColumn] = cross(axes[(zeroColumn + 1) % 3], axes[(zeroColumn + 2) % 3]);
+			for (std::size_t i = 0; i < 3; ++i)
+				matrix.col(i) = fvec4(axes[i]);
+		}
 
 		// Construct the quaternion. The magnitudes of the components follow from the diagonal. The largest one
 		// is then used to compute the others, as the differences used for the signs of the imaginary components
-- 
2.43.0


From b27cc554ac23a5dae0e02ba3cde5cc6d7a639a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 053/104] fix: copyFromAccessor ignored the accessor's
 normalization when converting

---
 include/fastgltf/tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 32fcd8c..fce59f7 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -846,7 +846,7 @@ void copyFromAccessor(const Asset& asset, const Accessor& accessor, void* dest,
 		for (std::size_t i = 0; i < accessor.count; ++i) {
 			auto* pDest = reinterpret_cast<ElementType*>(dstBytes + TargetStride * i);
 			*pDest = internal::getAccessorElementAt<ElementType>(
-                    accessor.componentType, &srcBytes[srcStride * i]);
+                    accessor.componentType, &srcBytes[srcStride * i], accessor.normalized);
 		}
 	}
 }
-- 
2.43.0


From 3ed30e2e636460735a466a298a41f2a8c2c68e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 054/104] fix: copyFromAccessor zeroed the wrong number of
 bytes for accessors without a buffer view

---
 include/fastgltf/tools.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index fce59f7..cad2d7b 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -806,11 +806,11 @@ void copyFromAccessor(const Asset& asset, const Accessor& accessor, void* dest,
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
 		if constexpr (std::is_trivially_copyable_v<ElementType>) {
-			if (TargetStride == elemSize) {
-				std::memset(dest, 0, elemSize * accessor.count);
+			if (TargetStride == sizeof(ElementType)) {
+				std::memset(dest, 0, sizeof(ElementType) * accessor.count);
 			} else {
 				for (std::size_t i = 0; i < accessor.count; ++i) {
-					std::memset(dstBytes + i * TargetStride, 0, elemSize);
+					std::memset(dstBytes + i * TargetStride, 0, sizeof(ElementType));
 				}
 			}
 		} else {
-- 
2.43.0


From 754c9c7646a5cf128374713af5f55d713f038e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 055/104] fix: copyComponentsFromAccessor used the source
 element size as the destination stride

---
 include/fastgltf/tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index cad2d7b..d255c38 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -884,7 +884,7 @@ void copyComponentsFromAccessor(const Asset& asset, const Accessor& accessor, vo
 	} else {
 		for (std::size_t i = 0; i < accessor.count; ++i) {
 			for (std::size_t j = 0; j < componentCount; ++j) {
-				auto* pDest = reinterpret_cast<ComponentType*>(dstBytes + elemSize * i) + j;
+				auto* pDest = reinterpret_cast<ComponentType*>(dstBytes) + componentCount * i + j;
 				*pDest = internal::getAccessorComponentAt<ComponentType>(
 					accessor.componentType, accessor.type, &srcBytes[i * srcStride], j, accessor.normalized);
 			}
-- 
2.43.0


From 35c45019e2931fb7a18a69e765b1a1d578e2de45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 056/104] fix: copyComponentsFromAccessor dereferenced an
 absent buffer view index

---
 include/fastgltf/tools.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index d255c38..217587f 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -868,6 +868,14 @@ void copyComponentsFromAccessor(const Asset& asset, const Accessor& accessor, vo
 	auto elemSize = getElementByteSize(accessor.type, accessor.componentType);
 	auto componentCount = getNumComponents(accessor.type);
 
+	// 5.1.1. accessor.bufferView
+	// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros; sparse
+	// property or extensions MAY override zeros with actual values.
+	if (!accessor.bufferViewIndex) {
+		std::memset(dest, 0, sizeof(ComponentType) * componentCount * accessor.count);
+		return;
+	}
+
 	auto& view = asset.bufferViews[*accessor.bufferViewIndex];
 	auto srcStride = view.byteStride.value_or(elemSize);
 
-- 
2.43.0


From d5fc4c6c4ea8bb89b8a2f30e76e3f9b1b259354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 057/104] fix: sparse index lookup truncated the requested
 index to the sparse index type

---
 include/fastgltf/tools.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 217587f..8d842ab 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -400,7 +400,7 @@ bool findSparseIndex(const std::byte* indices, std::size_t indexCount, std::size
 		auto step = count / 2;
 		auto index = resultIndex + step;
 
-		if (deserializeComponent<ElementType>(indices, index) < static_cast<ElementType>(desiredIndex)) {
+		if (static_cast<std::size_t>(deserializeComponent<ElementType>(indices, index)) < desiredIndex) {
 			resultIndex = index + 1;
 			count -= step + 1;
 		} else {
@@ -408,7 +408,7 @@ bool findSparseIndex(const std::byte* indices, std::size_t indexCount, std::size
 		}
 	}
 
-	return resultIndex < indexCount && deserializeComponent<ElementType>(indices, resultIndex) == static_cast<ElementType>(desiredIndex);
+	return resultIndex < indexCount && static_cast<std::size_t>(deserializeComponent<ElementType>(indices, resultIndex)) == desiredIndex;
 }
 
 // Finds the index of the nearest sparse index to the desired index
-- 
2.43.0


From 86c3f8914aef479ef7bf6bd4396de02ce9900ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 058/104] fix: component type of 32-bit signed integer vectors

---
 include/fastgltf/tools.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 8d842ab..1ee8925 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -152,9 +152,9 @@ template<> struct ElementTraits<math::u16vec2> : ElementTraitsBase<math::u16vec2
 template<> struct ElementTraits<math::u16vec3> : ElementTraitsBase<math::u16vec3, AccessorType::Vec3, std::uint16_t> {};
 template<> struct ElementTraits<math::u16vec4> : ElementTraitsBase<math::u16vec4, AccessorType::Vec4, std::uint16_t> {};
 
-template<> struct ElementTraits<math::s32vec2> : ElementTraitsBase<math::s32vec2, AccessorType::Vec2, std::int16_t> {};
-template<> struct ElementTraits<math::s32vec3> : ElementTraitsBase<math::s32vec3, AccessorType::Vec3, std::int16_t> {};
-template<> struct ElementTraits<math::s32vec4> : ElementTraitsBase<math::s32vec4, AccessorType::Vec4, std::int16_t> {};
+template<> struct ElementTraits<math::s32vec2> : ElementTraitsBase<math::s32vec2, AccessorType::Vec2, std::int32_t> {};
+template<> struct ElementTraits<math::s32vec3> : ElementTraitsBase<math::s32vec3, AccessorType::Vec3, std::int32_t> {};
+template<> struct ElementTraits<math::s32vec4> : ElementTraitsBase<math::s32vec4, AccessorType::Vec4, std::int32_t> {};
 template<> struct ElementTraits<math::u32vec2> : ElementTraitsBase<math::u32vec2, AccessorType::Vec2, std::uint32_t> {};
 template<> struct ElementTraits<math::u32vec3> : ElementTraitsBase<math::u32vec3, AccessorType::Vec3, std::uint32_t> {};
 template<> struct ElementTraits<math::u32vec4> : ElementTraitsBase<math::u32vec4, AccessorType::Vec4, std::uint32_t> {};
-- 
2.43.0


From 6407097c4a5b561be64577b3e35308982ad676b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 059/104] fix: IterableAccessor did not support accessors
 without a buffer view

---
 include/fastgltf/tools.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 1ee8925..2c20bb0 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -544,6 +544,17 @@ public:
 			}
 		}
 
+		// 5.1.1. accessor.bufferView
+		// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros; sparse
+		// property or extensions MAY override zeros with actual values.
+		if (!accessor->accessor.bufferViewIndex) {
+			if constexpr (std::is_aggregate_v<ElementType>) {
+				return ElementType {};
+			} else {
+				return ElementType();
+			}
+		}
+
 		return internal::getAccessorElementAt<ElementType>(accessor->componentType,
 														   &accessor->bufferBytes[idx * accessor->stride],
 														   accessor->accessor.normalized);
@@ -580,10 +591,14 @@ public:
 		assert(accessor.type == ElementTraits<ElementType>::type && "The destination type needs to have the same AccessorType as the accessor.");
 		componentType = accessor.componentType;
 
-		const auto& view = asset.bufferViews[*accessor.bufferViewIndex];
-		stride = view.byteStride ? *view.byteStride : getElementByteSize(accessor.type, accessor.componentType);
+		stride = getElementByteSize(accessor.type, accessor.componentType);
+		if (accessor.bufferViewIndex) {
+			const auto& view = asset.bufferViews[*accessor.bufferViewIndex];
+			if (view.byteStride)
+				stride = *view.byteStride;
 
-		bufferBytes = adapter(asset, *accessor.bufferViewIndex).subspan(accessor.byteOffset);
+			bufferBytes = adapter(asset, *accessor.bufferViewIndex).subspan(accessor.byteOffset);
+		}
 
 		if (accessor.sparse.has_value()) {
 			indicesBytes = adapter(asset, accessor.sparse->indicesBufferView).subspan(accessor.sparse->indicesByteOffset);
-- 
2.43.0


From 0867b9463d1e04c3fb8816e70c65564c40054d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 060/104] fix: dereferencing an accessor iterator changed its
 position in the sparse values

---
 include/fastgltf/tools.hpp | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 2c20bb0..b656b34 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -474,8 +474,17 @@ class AccessorIterator {
 protected:
 	const IterableAccessor<ElementType, BufferDataAdapter>* accessor = nullptr;
 	std::size_t idx = std::numeric_limits<std::size_t>::max();
-	mutable std::size_t sparseIdx = 0;
-	mutable std::size_t nextSparseIndex = 0;
+	std::size_t sparseIdx = 0;
+	std::size_t nextSparseIndex = std::numeric_limits<std::size_t>::max();
+
+	void loadNextSparseIndex() noexcept {
+		if (sparseIdx < accessor->sparseCount) {
+			nextSparseIndex = internal::getAccessorElementAt<std::uint32_t>(accessor->indexComponentType,
+			                                                                &accessor->indicesBytes[accessor->indexStride * sparseIdx]);
+		} else {
+			nextSparseIndex = std::numeric_limits<std::size_t>::max();
+		}
+	}
 
 public:
 	using value_type = ElementType;
@@ -492,13 +501,17 @@ public:
 	AccessorIterator(const IterableAccessor<ElementType, BufferDataAdapter>* accessor, std::size_t idx = 0)
 			: accessor(accessor), idx(idx) {
 		if (accessor->accessor.sparse.has_value()) {
-			// Get the first sparse index.
-			nextSparseIndex = internal::getAccessorElementAt<std::uint32_t>(accessor->indexComponentType,
-			                                                                &accessor->indicesBytes[accessor->indexStride * sparseIdx]);
+			// Get the first sparse index that is not before our position.
+			internal::findSparseIndex(accessor->indexComponentType, accessor->indicesBytes.data(), accessor->sparseCount, idx, sparseIdx);
+			loadNextSparseIndex();
 		}
 	}
 
 	AccessorIterator& operator++() noexcept {
+		if (accessor->accessor.sparse.has_value() && idx == nextSparseIndex) {
+			++sparseIdx;
+			loadNextSparseIndex();
+		}
 		++idx;
 		return *this;
 	}
@@ -530,17 +543,9 @@ public:
 		if (accessor->accessor.sparse.has_value()) {
 			if (idx == nextSparseIndex) {
 				// Get the sparse value for this index
-				auto value = internal::getAccessorElementAt<ElementType>(accessor->componentType,
-																		 &accessor->valuesBytes[accessor->valueStride * sparseIdx],
-																		 accessor->accessor.normalized);
-
-				// Find the next sparse index.
-				++sparseIdx;
-				if (sparseIdx < accessor->sparseCount) {
-					nextSparseIndex = internal::getAccessorElementAt<std::uint32_t>(accessor->indexComponentType,
-					                                                                &accessor->indicesBytes[accessor->indexStride * sparseIdx]);
-				}
-				return value;
+				return internal::getAccessorElementAt<ElementType>(accessor->componentType,
+				                                                   &accessor->valuesBytes[accessor->valueStride * sparseIdx],
+				                                                   accessor->accessor.normalized);
 			}
 		}
 
-- 
2.43.0


From cc1b127f424e10acfeb0911bbf0d6b3c742901e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:02 +0000
Subject: [PATCH 061/104] fix: elements of accessors without a buffer view are
 zero, not identity matrices

---
 include/fastgltf/tools.hpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index b656b34..3a376fa 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -388,6 +388,18 @@ ElementType getAccessorElementAt(ComponentType componentType, const std::byte* b
 	}
 }
 
+// Creates an element with all components set to zero. Note that this is not what default construction
+// does for matrices and quaternions.
+template <typename ElementType>
+#if FASTGLTF_HAS_CONCEPTS
+requires Element<ElementType>
+#endif
+ElementType getZeroElement() {
+	// Large enough for the components and padding of any accessor type using UnsignedByte.
+	constexpr std::byte zeros[16] {};
+	return getAccessorElementAt<ElementType>(ComponentType::UnsignedByte, zeros);
+}
+
 // Performs a binary search for the index into the sparse index list whose value matches the desired index
 template <typename ElementType>
 bool findSparseIndex(const std::byte* indices, std::size_t indexCount, std::size_t desiredIndex,
@@ -553,11 +565,7 @@ public:
 		// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros; sparse
 		// property or extensions MAY override zeros with actual values.
 		if (!accessor->accessor.bufferViewIndex) {
-			if constexpr (std::is_aggregate_v<ElementType>) {
-				return ElementType {};
-			} else {
-				return ElementType();
-			}
+			return internal::getZeroElement<ElementType>();
 		}
 
 		return internal::getAccessorElementAt<ElementType>(accessor->componentType,
@@ -669,11 +677,7 @@ ElementType getAccessorElement(const Asset& asset, const Accessor& accessor, siz
 	// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros; sparse
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
-		if constexpr (std::is_aggregate_v<ElementType>) {
-			return ElementType{};
-		} else {
-			return ElementType();
-		}
+		return internal::getZeroElement<ElementType>();
 	}
 
 	const auto& view = asset.bufferViews[*accessor.bufferViewIndex];
@@ -754,7 +758,7 @@ void iterateAccessor(const Asset& asset, const Accessor& accessor, Functor&& fun
 
 				std::invoke(func, element);
 			} else {
-				std::invoke(func, ElementType {});
+				std::invoke(func, internal::getZeroElement<ElementType>());
 			}
 		}
 
@@ -766,7 +770,7 @@ void iterateAccessor(const Asset& asset, const Accessor& accessor, Functor&& fun
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
 		for (std::size_t i = 0; i < accessor.count; ++i) {
-			std::invoke(func, ElementType {});
+			std::invoke(func, internal::getZeroElement<ElementType>());
 		}
 	} else {
 		auto& view = asset.bufferViews[*accessor.bufferViewIndex];
@@ -837,11 +841,7 @@ void copyFromAccessor(const Asset& asset, const Accessor& accessor, void* dest,
 			for (std::size_t i = 0; i < accessor.count; ++i) {
 				auto* pDest = reinterpret_cast<ElementType*>(dstBytes + TargetStride * i);
 
-				if constexpr (std::is_aggregate_v<ElementType>) {
-					*pDest = ElementType {};
-				} else {
-					*pDest = ElementType();
-				}
+				*pDest = internal::getZeroElement<ElementType>();
 			}
 		}
 
-- 
2.43.0


From 72e2134785c526c39c9511eee0419b95a81c5a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 062/104] fix: memory map the padding after a file, and empty
 files, and close files which cannot be mapped

---
 src/io.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 40a7eb1..262eb1f 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -204,20 +204,27 @@ fg::MappedGltfFile::MappedGltfFile(const fs::path& path) noexcept : mappedFile(M
 	// Get the file size
 	struct stat statInfo {};
 	if (fstat(fd, &statInfo) != 0) {
+		close(fd);
 		error = Error::InvalidPath;
 		return;
 	}
 
-	// Map the file
+	// Reserve enough memory for the file and the padding simdjson needs after it, and map the file to its start.
+	// Anything past the end of the file might otherwise not be backed by any memory. This also covers empty files.
+	fileSize = static_cast<std::uint64_t>(statInfo.st_size);
 	mappedFile = mmap(nullptr,
-					  statInfo.st_size,
+					  fileSize + simdjson::SIMDJSON_PADDING,
 					  PROT_READ,
-					  MAP_PRIVATE,
-					  fd,
+					  MAP_PRIVATE | MAP_ANONYMOUS,
+					  -1,
 					  0);
-	if (mappedFile != MAP_FAILED) {
-		fileSize = static_cast<std::uint64_t>(statInfo.st_size);
+	if (mappedFile != MAP_FAILED && (!S_ISREG(statInfo.st_mode) || (fileSize != 0 &&
+			mmap(mappedFile, fileSize, PROT_READ, MAP_PRIVATE | MAP_FIXED, fd, 0) == MAP_FAILED))) {
+		munmap(mappedFile, fileSize + simdjson::SIMDJSON_PADDING);
+		mappedFile = MAP_FAILED;
+	}
 
+	if (mappedFile != MAP_FAILED) {
 		// Hint about map access
 		madvise(mappedFile, fileSize, MADV_SEQUENTIAL);
 	} else {
@@ -260,8 +267,8 @@ fg::MappedGltfFile& fg::MappedGltfFile::operator=(fastgltf::MappedGltfFile &&oth
 	}
 	fileHandle = std::exchange(other.fileHandle, nullptr);
 #else
-	if (mappedFile != MAP_FAILED) {
-		munmap(mappedFile, fileSize);
+	if (mappedFile != nullptr && mappedFile != MAP_FAILED) {
+		munmap(mappedFile, fileSize + simdjson::SIMDJSON_PADDING);
 	}
 	mappedFile = std::exchange(other.mappedFile, MAP_FAILED);
 #endif
@@ -283,8 +290,8 @@ fg::MappedGltfFile::~MappedGltfFile() noexcept {
 		CloseHandle(fileHandle);
 	}
 #else
-	if (mappedFile != MAP_FAILED) {
-		munmap(mappedFile, fileSize);
+	if (mappedFile != nullptr && mappedFile != MAP_FAILED) {
+		munmap(mappedFile, fileSize + simdjson::SIMDJSON_PADDING);
 	}
 #endif
 }
-- 
2.43.0


From e805cd076b9994e1d504037cc368867f41977926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 063/104] fix: self move assignment of MappedGltfFile lost the
 mapping

---
 src/io.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index 262eb1f..1889b0f 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -251,6 +251,9 @@ fg::MappedGltfFile::MappedGltfFile(fastgltf::MappedGltfFile &&other) noexcept {
 }
 
 fg::MappedGltfFile& fg::MappedGltfFile::operator=(fastgltf::MappedGltfFile &&other) noexcept {
+	if (this == &other)
+		return *this;
+
 #if defined(_WIN32)
 	if (mappedFile != nullptr) {
 		UnmapViewOfFile(mappedFile);
-- 
2.43.0


From 63b9bfc7d6a3e00c4036e83199a60332fad8de8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 064/104] fix: GltfFileStream: report missing files through
 isOpen, recover in reset, and do not count the padding as data

---
 src/io.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 1889b0f..29c0fd9 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -119,7 +119,12 @@ std::size_t fg::GltfDataBuffer::totalSize() {
 }
 
 fg::GltfFileStream::GltfFileStream(const fs::path& path) : fileStream(path, std::ios::binary) {
-	fileSize = fs::file_size(path);
+	std::error_code ec;
+	fileSize = static_cast<std::size_t>(fs::file_size(path, ec));
+	if (ec) {
+		fileSize = 0;
+		fileStream.close();
+	}
 }
 
 bool fg::GltfFileStream::isOpen() const {
@@ -140,10 +145,11 @@ fg::span<std::byte> fg::GltfFileStream::read(std::size_t count, std::size_t padd
 			reinterpret_cast<char*>(buf.data()),
 			static_cast<std::streamsize>(count));
 
-	return span<std::byte>(reinterpret_cast<std::byte*>(buf.data()), buf.size());
+	return span<std::byte>(reinterpret_cast<std::byte*>(buf.data()), count);
 }
 
 void fg::GltfFileStream::reset() {
+	fileStream.clear(); // A read past the end of the file might have failed.
 	fileStream.seekg(0, std::ifstream::beg);
 }
 
-- 
2.43.0


From 6bd05d0c23387116b84ba41ee0f3cc803a8ee7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 065/104] fix: determineGltfFileType read past the end of small
 files and only skipped up to three spaces

---
 src/fastgltf.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 88063b9..ff89777 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4936,24 +4936,29 @@ fg::Error fg::Parser::parsePhysicsRigidBody(simdjson::dom::object& khr_physics_r
 #pragma region Parser
 fg::GltfType fg::determineGltfFileType(GltfDataGetter& data) {
 	// We'll try and read a BinaryGltfHeader from the buffer to see if the magic is correct.
-	auto header = readBinaryHeader(data);
 	data.reset();
-	if (header.magic == binaryGltfHeaderMagic) {
-		return GltfType::GLB;
+	const auto totalSize = data.totalSize();
+	if (totalSize >= sizeof(BinaryGltfHeader)) {
+		auto header = readBinaryHeader(data);
+		data.reset();
+		if (header.magic == binaryGltfHeaderMagic) {
+			return GltfType::GLB;
+		}
 	}
 
-	// First, check if any of the first four characters is a '{'.
-	std::array<std::uint8_t, 4> begin = {};
-	data.read(begin.data(), begin.size());
-	data.reset();
-	for (const auto& i : begin) {
-		if (static_cast<char>(i) == ' ')
+	// Otherwise, the first character which is not whitespace has to be a '{'.
+	auto type = GltfType::Invalid;
+	for (std::size_t i = 0; i < totalSize; ++i) {
+		char c = 0;
+		data.read(&c, sizeof c);
+		if (c == ' ' || c == '\t' || c == '\n' || c == '\r')
 			continue;
-		if (static_cast<char>(i) == '{')
-			return GltfType::glTF;
+		if (c == '{')
+			type = GltfType::glTF;
+		break;
 	}
-
-	return GltfType::Invalid;
+	data.reset();
+	return type;
 }
 
 fg::Parser::Parser(Extensions extensionsToLoad) noexcept {
-- 
2.43.0


From e00706f4a5f003159daeca2d6d66d6cb374328e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 066/104] fix: GLB chunks could exceed the data or the length
 given in the header

---
 src/fastgltf.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index ff89777..17aa132 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5030,6 +5030,11 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 
 	data.reset();
 
+	// There has to be enough room for the header and the JSON chunk.
+	if (data.totalSize() < sizeof(BinaryGltfHeader) + sizeof(BinaryGltfChunk)) {
+		return Error::InvalidGLB;
+	}
+
     auto header = readBinaryHeader(data);
     if (header.magic != binaryGltfHeaderMagic) {
 	    return Error::InvalidGLB;
@@ -5037,7 +5042,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 	if (header.version != 2) {
 		return Error::UnsupportedVersion;
 	}
-    if (header.length > data.totalSize()) {
+    if (header.length > data.totalSize() || header.length < sizeof(BinaryGltfHeader) + sizeof(BinaryGltfChunk)) {
 	    return Error::InvalidGLB;
     }
 
@@ -5045,7 +5050,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
     //  1. JSON chunk
     //  2. BIN chunk (optional)
     auto jsonChunk = readBinaryChunk(data);
-    if (jsonChunk.chunkType != binaryGltfJsonChunkMagic || jsonChunk.chunkLength > data.totalSize() - sizeof(BinaryGltfHeader)) {
+    if (jsonChunk.chunkType != binaryGltfJsonChunkMagic || jsonChunk.chunkLength > header.length - sizeof(BinaryGltfHeader) - sizeof(BinaryGltfChunk)) {
 	    return Error::InvalidGLB;
     }
 
@@ -5071,7 +5076,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 
 		// TODO: Somehow allow skipping the binary part in the future?
 		if (binaryChunk.chunkLength != 0) {
-			if (binaryChunk.chunkLength > data.totalSize() - data.bytesRead()) {
+			if (binaryChunk.chunkLength > header.length - data.bytesRead()) {
 				return Error::InvalidGLB;
 			}
 
-- 
2.43.0


From 4c132fec06ed1e744712eacbca432bd560aa6e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 067/104] fix: a GLB which ends with the header of its binary
 chunk was accepted whatever the length of the chunk

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 17aa132..58bc95e 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5067,7 +5067,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
     }
 
     // Is there enough room for another chunk header?
-    if (header.length > (data.bytesRead() + sizeof(BinaryGltfChunk))) {
+    if (header.length >= (data.bytesRead() + sizeof(BinaryGltfChunk))) {
         auto binaryChunk = readBinaryChunk(data);
 
         if (binaryChunk.chunkType != binaryGltfDataChunkMagic) {
-- 
2.43.0


From bb3922bf92776f23b865182975806f8420517f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 068/104] fix: an external file which could not be read
 completely was loaded as if it had been

---
 src/io.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index 29c0fd9..5186bcc 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -461,6 +461,9 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noe
 	}
 
 	std::ifstream file(path, std::ios::binary);
+	if (!file.is_open()) {
+		return Error::MissingExternalBuffer;
+	}
 
 	if (config.mapCallback != nullptr) {
 		auto info = config.mapCallback(static_cast<std::uint64_t>(length), config.userPointer);
@@ -471,12 +474,18 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noe
 				config.unmapCallback(&info, config.userPointer);
 			}
 
+			if (file.gcount() != length) {
+				return Error::MissingExternalBuffer;
+			}
 			return { customBufferSource };
 		}
 	}
 
 	StaticVector<std::byte> data(static_cast<std::size_t>(length));
 	file.read(reinterpret_cast<char*>(data.data()), length);
+	if (file.gcount() != length) {
+		return Error::MissingExternalBuffer;
+	}
 	sources::Array arraySource {
 		std::move(data),
 	};
-- 
2.43.0


From 0365adbe5b74d7cd6a4c111fe8f6eff9bbcede77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 069/104] fix: the binary chunk of a GLB was dropped if the
 allocation callback refused memory

---
 src/fastgltf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 58bc95e..595514e 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5089,7 +5089,9 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 					}
 					glbBuffer = sources::CustomBuffer{info.customId, MimeType::None};
 				}
-			} else {
+			}
+
+			if (std::holds_alternative<std::monostate>(glbBuffer)) {
 				StaticVector<std::byte> binaryData(binaryChunk.chunkLength);
 				data.read(binaryData.data(), binaryChunk.chunkLength);
 
-- 
2.43.0


From 053b16b8d8ce870dd4feedf1fbebc4904b57060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 070/104] fix: the path of a file URI was parsed as a URI again
 when loading the file

---
 src/io.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 5186bcc..7adeddd 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -421,7 +421,8 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromApk(const fs::path& path) c
 #endif
 
 fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noexcept {
-	URI decodedUri(uri.path()); // Re-allocate so we can decode potential characters.
+	std::string decodedPath(uri.path()); // Re-allocate so we can decode potential characters.
+	URI::decodePercents(decodedPath);
 	// JSON strings are always in UTF-8, so we can safely always use u8path here.
 	// Since u8path is deprecated with C++20 and newer, u8path is deprecated.
 	// As there is no other proper solution that doesn't do something illegal,
@@ -433,7 +434,7 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noe
 #pragma warning(push)
 #pragma warning(disable : 4996)
 #endif
-	auto path = directory / fs::u8path(decodedUri.path());
+	auto path = directory / fs::u8path(decodedPath);
 #if defined(__GNUC__) || defined(__clang__)
 #pragma GCC diagnostic pop
 #elif defined(_MSC_VER)
-- 
2.43.0


From f9ab7c4db93df0d3b5c0ac161c59d8439bb4754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 071/104] fix: GltfDataBuffer ignored that the file could not
 be read completely

---
 src/io.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index 7adeddd..e48fc47 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -63,6 +63,10 @@ fg::GltfDataBuffer::GltfDataBuffer(const fs::path& path) noexcept {
 	if (buffer != nullptr) {
 		// Copy the data and fill the padding region with zeros.
 		file.read(reinterpret_cast<std::ifstream::char_type*>(buffer.get()), static_cast<std::streamsize>(dataSize));
+		if (file.gcount() != static_cast<std::streamsize>(dataSize)) {
+			error = Error::InvalidPath;
+			return;
+		}
 		std::memset(buffer.get() + dataSize, 0, allocatedSize - dataSize);
 	} else {
 		error = Error::FileBufferAllocationFailed;
-- 
2.43.0


From dd0e6010b484e26dacf162c5ccc75c5732ce52cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 072/104] fix: the binary chunk of an earlier load was still
 used for later documents

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 595514e..3c6f476 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4996,6 +4996,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfJson(GltfDataGetter& data, fs::path
 
 	options = _options;
 	directory = std::move(_directory);
+	glbBuffer = {};
 
 #if !defined(__ANDROID__)
     // If we never have to load the files ourselves, we're fine with the directory being invalid/blank.
@@ -5022,6 +5023,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 
 	options = _options;
 	directory = std::move(_directory);
+	glbBuffer = {};
 
     // If we never have to load the files ourselves, we're fine with the directory being invalid/blank.
     if (std::error_code ec; hasBit(options, Options::LoadExternalBuffers) && (!fs::is_directory(directory, ec) || ec)) {
-- 
2.43.0


From ebda2389fd50b3fa9fcd88fc388dc3492d0298c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 073/104] fix: escapeString skipped the character behind an
 escape and left control characters

---
 src/fastgltf.cpp | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 3c6f476..f3f1a96 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5175,26 +5175,22 @@ void fg::prettyPrintJson(std::string& json) {
 
 namespace fastgltf {
 	static void escapeString(std::string& string) {
+		constexpr std::string_view hexDigits = "0123456789abcdef";
 		std::size_t i = 0;
-		do {
-			switch (string[i]) {
-				case '\"': {
-					constexpr std::string_view s = "\\\"";
-					string.replace(i, 1, s);
-					i += s.size();
-					break;
-				}
-				case '\\': {
-					constexpr std::string_view s = "\\\\";
-					string.replace(i, 1, s);
-					i += s.size();
-					break;
-				}
-				default:
-					break;
+		while (i < string.size()) {
+			const auto c = static_cast<unsigned char>(string[i]);
+			if (c == '\"' || c == '\\') {
+				string.insert(i, 1, '\\');
+				i += 2;
+			} else if (c < 0x20) {
+				// JSON does not allow any unescaped control characters.
+				const char s[] = { '\\', 'u', '0', '0', hexDigits[c >> 4U], hexDigits[c & 0xFU] };
+				string.replace(i, 1, s, sizeof s);
+				i += sizeof s;
+			} else {
+				++i;
 			}
-			++i;
-		} while (i < string.size());
+		}
 	}
 
 	/**
-- 
2.43.0


From 059eb79c47765f2eeee9c3d3338d606faaa8a837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 074/104] fix: prettyPrintJson took an escaped backslash at the
 end of a string for an escaped quote

---
 src/fastgltf.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index f3f1a96..3272f8d 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5142,13 +5142,13 @@ void fg::prettyPrintJson(std::string& json) {
     while (i < json.size()) {
         if (json[i] == '"') {
             // Skip to the end of the string
-            do {
-                ++i;
-                if (json[i] == '"' && json[i - 1] != '\\') {
-                    break;
-                }
-            } while (true);
+            ++i;
+            while (i < json.size() && json[i] != '"') {
+                // An escaped character, including an escaped backslash, never ends the string.
+                i += json[i] == '\\' ? 2 : 1;
+            }
             ++i; // Skip over the last "
+            continue;
         }
 
         switch (json[i]) {
-- 
2.43.0


From 997764c207d2d3e22f41180b34220a180968d8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 075/104] fix: an exporter which failed once reported that
 error for every later asset

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 3272f8d..a42d6b1 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7198,6 +7198,7 @@ fg::Expected<fg::ExportResult<std::string>> fg::Exporter::writeGltfJson(const As
     imagePaths.clear();
     options = _options;
 	exportingBinary = false;
+	errorCode = Error::None;
 
     if (hasBit(options, ExportOptions::ValidateAsset)) {
         if (const auto validation = validate(asset); validation != Error::None) {
@@ -7223,6 +7224,7 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
     imagePaths.clear();
     options = _options;
 	exportingBinary = true;
+	errorCode = Error::None;
 
     options &= (~ExportOptions::PrettyPrintJson);
 
-- 
2.43.0


From 66b1daea3461ddc9af33823b5b6287cc2264967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 076/104] fix: ExportOptions::ValidateAsset was ignored when
 exporting a GLB

---
 src/fastgltf.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index a42d6b1..670a1d8 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7228,6 +7228,12 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
 
     options &= (~ExportOptions::PrettyPrintJson);
 
+    if (hasBit(options, ExportOptions::ValidateAsset)) {
+        if (const auto validation = validate(asset); validation != Error::None) {
+            return validation;
+        }
+    }
+
     ExportResult<std::vector<std::byte>> result;
     auto json = writeJson(asset);
     if (errorCode != Error::None) {
-- 
2.43.0


From 83b57c02ca5fc34005393479520f7c8e37c9504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 077/104] fix: the cone angles of spot lights were exported as
 malformed JSON

---
 src/fastgltf.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 670a1d8..c14c1b3 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5758,11 +5758,15 @@ void fg::Exporter::writeLights(const Asset& asset, std::string& json) {
 		}
 
 		if (it->type == LightType::Spot) {
+			json += R"(,"spot":{)";
 			if (it->innerConeAngle.has_value())
-				json += R"("innerConeAngle":)" + to_string_fp(it->innerConeAngle.value()) + ',';
+				json += R"("innerConeAngle":)" + to_string_fp(it->innerConeAngle.value());
 
-			if (it->outerConeAngle.has_value())
-				json += R"("outerConeAngle":)" + to_string_fp(it->outerConeAngle.value()) + ',';
+			if (it->outerConeAngle.has_value()) {
+				if (json.back() != '{') json += ',';
+				json += R"("outerConeAngle":)" + to_string_fp(it->outerConeAngle.value());
+			}
+			json += '}';
 		}
 
 		if (!it->name.empty())
-- 
2.43.0


From 133604809719e2c35aad6651e80c151d2ba434dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 078/104] fix: the alpha cutoff of materials with another alpha
 mode was lost when exporting

---
 src/fastgltf.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index c14c1b3..bcb7d09 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5845,17 +5845,20 @@ void fg::Exporter::writeMaterials(const Asset& asset, std::string& json) {
 			json += "],";
 		}
 
-		if (it->alphaMode != AlphaMode::Opaque) {
+		// alphaCutoff may only be defined if alphaMode is.
+		if (it->alphaMode != AlphaMode::Opaque || it->alphaCutoff != 0.5f) {
 			if (json.back() != ',') json += ',';
 			json += R"("alphaMode":)";
 			if (it->alphaMode == AlphaMode::Blend) {
 				json += "\"BLEND\"";
 			} else if (it->alphaMode == AlphaMode::Mask) {
 				json += "\"MASK\"";
+			} else {
+				json += "\"OPAQUE\"";
 			}
 		}
 
-		if (it->alphaMode == AlphaMode::Mask && it->alphaCutoff != 0.5f) {
+		if (it->alphaCutoff != 0.5f) {
 			if (json.back() != ',') json += ',';
 			json += R"("alphaCutoff":)" + to_string_fp(it->alphaCutoff);
 		}
-- 
2.43.0


From ed8ed8463efa3c45fd6cac53c3c21e4f99429b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 079/104] fix: commas between the textures of
 MSFT_packing_occlusionRoughnessMetallic

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index bcb7d09..39ae7d3 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6133,10 +6133,12 @@ void fg::Exporter::writeMaterials(const Asset& asset, std::string& json) {
 				writeTextureInfo(json, &it->packedOcclusionRoughnessMetallicTextures->occlusionRoughnessMetallicTexture.value());
 			}
 			if (it->packedOcclusionRoughnessMetallicTextures->roughnessMetallicOcclusionTexture.has_value()) {
+				if (json.back() != '{') json += ',';
 				json += R"("roughnessMetallicOcclusionTexture":)";
 				writeTextureInfo(json, &it->packedOcclusionRoughnessMetallicTextures->roughnessMetallicOcclusionTexture.value());
 			}
 			if (it->packedOcclusionRoughnessMetallicTextures->normalTexture.has_value()) {
+				if (json.back() != '{') json += ',';
 				json += R"("normalTexture":)";
 				writeTextureInfo(json, &it->packedOcclusionRoughnessMetallicTextures->normalTexture.value());
 			}
-- 
2.43.0


From e662cd3d5bcc498f1f9cce183d587784520922dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 080/104] fix: the exporter read behind the material mappings
 of a primitive

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 39ae7d3..87f42b0 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6229,7 +6229,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
 				if (!itp->mappings.empty()) {
 					json += R"("KHR_materials_variants":{"mappings":[)";
 					// TODO: We should optimise to avoid writing multiple objects for the same material index
-					for (std::size_t i = 0; i < asset.materialVariants.size(); ++i) {
+					for (std::size_t i = 0; i < itp->mappings.size(); ++i) {
 						if (!itp->mappings[i].has_value())
 							continue;
 						if (json.back() == '}')
-- 
2.43.0


From 054958cc28934c08a0a4f32cb07d2cbd5a261a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 081/104] fix: a mesh without primitives was exported without
 the required primitives member

---
 src/fastgltf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 87f42b0..8c2a30e 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6177,7 +6177,8 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
 	for (auto it = asset.meshes.begin(); it != asset.meshes.end(); ++it) {
 		json += '{';
 
-        if (!it->primitives.empty()) {
+        // The primitives are required, even if there are none.
+        {
             json += R"("primitives":[)";
             auto itp = it->primitives.begin();
             while (itp != it->primitives.end()) {
-- 
2.43.0


From efabf91832c830eccab068da17613b8ec23fcf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 082/104] fix: names of attributes, variants, extensions and
 collision systems were exported without escaping

---
 src/fastgltf.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 8c2a30e..1fd883b 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6187,7 +6187,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
                 {
                     json += R"("attributes":{)";
                     for (auto ita = itp->attributes.begin(); ita != itp->attributes.end(); ++ita) {
-                        json += '"' + std::string(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+                        json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
                         if (uabs(std::distance(itp->attributes.begin(), ita)) + 1 <itp->attributes.size())
                             json += ',';
                     }
@@ -6208,7 +6208,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
             		for (auto itt = itp->targets.begin(); itt != itp->targets.end(); ++itt) {
 						json += '{';
 						for (auto ita = itt->begin(); ita != itt->end(); ++ita) {
-							json += '"' + std::string(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+							json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
 							if (uabs(std::distance(itt->begin(), ita)) + 1 < itt->size())
 								json += ',';
 						}
@@ -6247,7 +6247,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
 					json += R"("bufferView":)" + std::to_string(itp->dracoCompression->bufferView) + ',';
 					json += R"("attributes":{)";
 					for (auto ita = itp->dracoCompression->attributes.begin(); ita != itp->dracoCompression->attributes.end(); ++ita) {
-						json += '"' + std::string(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+						json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
 						if (uabs(std::distance(itp->dracoCompression->attributes.begin(), ita)) + 1 < itp->dracoCompression->attributes.size())
 							json += ',';
 					}
@@ -6405,7 +6405,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 			if (!it->instancingAttributes.empty()) {
 				json += R"("EXT_mesh_gpu_instancing":{"attributes":{)";
 				for (auto ait = it->instancingAttributes.begin(); ait != it->instancingAttributes.end(); ++ait) {
-					json += '"' + std::string(ait->name) + "\":" + std::to_string(ait->accessorIndex);
+					json += '"' + fg::escapeString(ait->name) + "\":" + std::to_string(ait->accessorIndex);
 					if (uabs(std::distance(it->instancingAttributes.begin(), ait)) + 1 <
 						it->instancingAttributes.size())
 						json += ',';
@@ -6867,7 +6867,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			json += R"("collisionSystems":[)";
 			for (auto systemIt = filter.collisionSystems.begin(); systemIt != filter.collisionSystems.end(); ++systemIt) {
 				json += '"';
-				json += *systemIt;
+				json += fg::escapeString(*systemIt);
 				json += '"';
 
 				if (uabs(std::distance(filter.collisionSystems.begin(), systemIt)) + 1 < filter.collisionSystems.size()) {
@@ -6884,7 +6884,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			json += R"("collideWithSystems":[)";
 			for (auto systemIt = filter.collideWithSystems.begin(); systemIt != filter.collideWithSystems.end(); ++systemIt) {
 				json += '"';
-				json += *systemIt;
+				json += fg::escapeString(*systemIt);
 				json += '"';
 
 				if (uabs(std::distance(filter.collideWithSystems.begin(), systemIt)) + 1 < filter.collideWithSystems.size()) {
@@ -6901,7 +6901,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			json += R"("notCollideWithSystems":[)";
 			for (auto systemIt = filter.notCollideWithSystems.begin(); systemIt != filter.notCollideWithSystems.end(); ++systemIt) {
 				json += '"';
-				json += *systemIt;
+				json += fg::escapeString(*systemIt);
 				json += '"';
 
 				if (uabs(std::distance(filter.notCollideWithSystems.begin(), systemIt)) + 1 < filter.notCollideWithSystems.size()) {
@@ -7091,7 +7091,7 @@ void fg::Exporter::writeExtensions(const fastgltf::Asset& asset, std::string& js
 		for (const auto& variant : asset.materialVariants) {
 			if (json.back() == '}')
 				json += ',';
-			json += R"({"name":")" + variant + "\"}";
+			json += R"({"name":")" + fg::escapeString(variant) + "\"}";
 		}
 		json += "]}";
 	}
@@ -7150,7 +7150,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
             outputString += R"("copyright":")" + fg::escapeString(asset.assetInfo->copyright) + "\",";
         if (!asset.assetInfo->generator.empty())
             outputString += R"("generator":")" + fg::escapeString(asset.assetInfo->generator) + "\",";
-        outputString += R"("version":")" + asset.assetInfo->gltfVersion + '"';
+        outputString += R"("version":")" + fg::escapeString(asset.assetInfo->gltfVersion) + '"';
     } else {
         outputString += R"("generator":"fastgltf",)";
         outputString += R"("version":"2.0")";
@@ -7162,7 +7162,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
 		if (outputString.back() != '{') outputString += ',';
 		outputString += "\"extensionsUsed\":[";
 		for (auto it = asset.extensionsUsed.begin(); it != asset.extensionsUsed.end(); ++it) {
-			outputString += '\"' + *it + '\"';
+			outputString += '\"' + fg::escapeString(*it) + '\"';
 			if (uabs(std::distance(asset.extensionsUsed.begin(), it)) + 1 <asset.extensionsUsed.size())
 				outputString += ',';
 		}
@@ -7172,7 +7172,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
 		if (outputString.back() != '{') outputString += ',';
 		outputString += "\"extensionsRequired\":[";
 		for (auto it = asset.extensionsRequired.begin(); it != asset.extensionsRequired.end(); ++it) {
-			outputString += '\"' + *it + '\"';
+			outputString += '\"' + fg::escapeString(*it) + '\"';
 			if (uabs(std::distance(asset.extensionsRequired.begin(), it)) + 1 <asset.extensionsRequired.size())
 				outputString += ',';
 		}
-- 
2.43.0


From ad3b1966bb2986fb134c5da8f3617115370eb628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 083/104] fix: a texture with only a name was exported as
 malformed JSON

---
 src/fastgltf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 1fd883b..b4d93b0 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6717,8 +6717,10 @@ void fg::Exporter::writeTextures(const Asset& asset, std::string& json) {
 			}
 		}
 
-		if (!it->name.empty())
-			json += R"(,"name":")" + fg::escapeString(it->name) + '"';
+		if (!it->name.empty()) {
+			if (json.back() != '{') json += ',';
+			json += R"("name":")" + fg::escapeString(it->name) + '"';
+		}
 		json += '}';
 		if (uabs(std::distance(asset.textures.begin(), it)) + 1 <asset.textures.size())
 			json += ',';
-- 
2.43.0


From a667a9d7a979458c65f808cb72d7d012a886a5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 084/104] fix: the rigid bodies of nodes were exported as
 malformed JSON and under the wrong names

---
 src/fastgltf.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index b4d93b0..78fedfd 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6420,23 +6420,23 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 #if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
 			if (it->physicsRigidBody) {
 				if (json.back() != '{') json += ',';
-				json += R"("KHR_physics_rigid_body":{)";
+				json += R"("KHR_physics_rigid_bodies":{)";
 				if (it->physicsRigidBody->motion.has_value()) {
 					const auto& motion = *it->physicsRigidBody->motion;
-					json += R"("motion":{"isKinematic":)" + std::to_string(motion.isKinematic);
+					json += R"("motion":{"isKinematic":)" + std::string(motion.isKinematic ? "true" : "false");
 					if (motion.mass.has_value()) {
 						json += R"(,"mass":)" + to_string_fp(*motion.mass);
 					}
 					json += R"(,"centerOfMass":[)" + to_string(motion.centerOfMass) + ']';
 					if (motion.inertialDiagonal.has_value()) {
-						json += R"(,"inertialDiagonal":[)" + to_string(*motion.inertialDiagonal) + ']';
+						json += R"(,"inertiaDiagonal":[)" + to_string(*motion.inertialDiagonal) + ']';
 					}
 					if (motion.inertialOrientation.has_value()) {
 						json += R"(,"inertialOrientation":[)" + to_string(*motion.inertialOrientation) + ']';
 					}
-					json += R"(,"linearVelocity":)" + to_string(motion.linearVelocity)
+					json += R"(,"linearVelocity":[)" + to_string(motion.linearVelocity)
 				        + R"(],"angularVelocity":[)" + to_string(motion.angularVelocity)
-				        + R"(],"gravityFactor":[)" + to_string_fp(motion.gravityFactor) + '}';
+				        + R"(],"gravityFactor":)" + to_string_fp(motion.gravityFactor) + '}';
 				}
 
 				if (it->physicsRigidBody->trigger.has_value()) {
@@ -6448,10 +6448,11 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 							json += R"("geometry":{)";
 							if (geometry.geometry.shape.has_value()) {
 								json += R"("shape":)" + std::to_string(*geometry.geometry.shape) + ',';
-							} else if(geometry.geometry.node.has_value()) {
+							}
+							if (geometry.geometry.node.has_value()) {
 								json += R"("node":)" + std::to_string(*geometry.geometry.node) + ',';
 							}
-							json += R"("convexHull":)" + std::to_string(geometry.geometry.convexHull) + '}';
+							json += R"("convexHull":)" + std::string(geometry.geometry.convexHull ? "true" : "false") + '}';
 
 							if (geometry.collisionFilter.has_value()) {
 								json += R"(,"collisionFilter":)" + std::to_string(*geometry.collisionFilter);
@@ -6475,7 +6476,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					const auto& joint = *it->physicsRigidBody->joint;
 					json += R"("joint":{"connectedNode":)" + std::to_string(joint.connectedNode)
 				        + R"(,"joint":)" + std::to_string(joint.joint)
-				        + R"(,"enableCollision":)" + std::to_string(joint.enableCollision) + '}';
+				        + R"(,"enableCollision":)" + std::string(joint.enableCollision ? "true" : "false") + '}';
 				}
 
 				if (it->physicsRigidBody->collider.has_value()) {
@@ -6486,10 +6487,11 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					json += R"("geometry":{)";
 					if (collider.geometry.shape.has_value()) {
 						json += R"("shape":)" + std::to_string(*collider.geometry.shape) + ',';
-					} else if (collider.geometry.node.has_value()) {
+					}
+					if (collider.geometry.node.has_value()) {
 						json += R"("node":)" + std::to_string(*collider.geometry.node) + ',';
 					}
-					json += R"("convexHull":)" + std::to_string(collider.geometry.convexHull) + '}';
+					json += R"("convexHull":)" + std::string(collider.geometry.convexHull ? "true" : "false") + '}';
 
 					if (collider.physicsMaterial.has_value()) {
 						json += R"(,"physicsMaterial":)" + std::to_string(*collider.physicsMaterial);
@@ -6499,6 +6501,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					}
 					json += '}';
 				}
+				json += '}';
 			}
 #endif
 
-- 
2.43.0


From 59ddf054c336d552148f60fb71b0547084943289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 085/104] fix: collision filters without notCollideWithSystems
 were exported as malformed JSON

---
 src/fastgltf.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 78fedfd..565947e 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6881,11 +6881,9 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			}
 			json += ']';
 		}
-		if (json.back() == ']') {
-			json += ',';
-		}
 
 		if (!filter.collideWithSystems.empty()) {
+			if (json.back() != '{') json += ',';
 			json += R"("collideWithSystems":[)";
 			for (auto systemIt = filter.collideWithSystems.begin(); systemIt != filter.collideWithSystems.end(); ++systemIt) {
 				json += '"';
@@ -6898,11 +6896,9 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			}
 			json += ']';
 		}
-		if (json.back() == ']') {
-			json += ',';
-		}
 
 		if (!filter.notCollideWithSystems.empty()) {
+			if (json.back() != '{') json += ',';
 			json += R"("notCollideWithSystems":[)";
 			for (auto systemIt = filter.notCollideWithSystems.begin(); systemIt != filter.notCollideWithSystems.end(); ++systemIt) {
 				json += '"';
-- 
2.43.0


From 0733746ca05e9000061611579fde2b344ee576a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:03 +0000
Subject: [PATCH 086/104] fix: the extras of collision filters were requested
 with the category of shapes

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 565947e..3e46c71 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6913,7 +6913,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 		}
 
 		if (extrasWriteCallback != nullptr) {
-			auto extras = extrasWriteCallback(uabs(std::distance(asset.collisionFilters.begin(), it)), fastgltf::Category::Shapes, userPointer);
+			auto extras = extrasWriteCallback(uabs(std::distance(asset.collisionFilters.begin(), it)), fastgltf::Category::CollisionFilters, userPointer);
 			if (extras.has_value()) {
 				if (json.back() != '{') {
 					json += ',';
-- 
2.43.0


From da9943ee13bf0f7058e473fd132f648138dc203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 087/104] fix: images held by a sources::ByteView could not be
 exported

---
 src/fastgltf.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 3e46c71..600fab6 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5693,6 +5693,14 @@ void fg::Exporter::writeImages(const Asset& asset, std::string& json) {
 				}
 				imagePaths.emplace_back(path);
 			},
+			[&](const sources::ByteView& view) {
+				auto path = getImageFilePath(asset, imageIdx, view.mimeType);
+				json += std::string(R"("uri":")") + fg::normalizeAndFormatPath(path) + '"';
+				if (view.mimeType != MimeType::None) {
+					json += std::string(R"(,"mimeType":")") + std::string(getMimeTypeString(view.mimeType)) + '"';
+				}
+				imagePaths.emplace_back(path);
+			},
 			[&](const sources::URI& uri) {
 				json += std::string(R"("uri":")") + fg::escapeString(uri.uri.string()) + '"';
                 imagePaths.emplace_back(std::nullopt);
-- 
2.43.0


From 79d0d3f42cbbd8c19550097fee63adf166453c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 088/104] fix: exported URIs did not keep their
 percent-encoding and MIME type

---
 src/fastgltf.cpp | 67 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 63 insertions(+), 4 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 600fab6..4045910 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5194,11 +5194,67 @@ namespace fastgltf {
 	}
 
 	/**
-	 * Normalizes the path using lexically_normal, calls generic_string to always use forward slashes,
+	 * Percent-encodes everything that cannot be part of a URI component literally: the given delimiters,
+	 * the percent sign itself, spaces, control characters, and anything that is not ASCII.
+	 */
+	static std::string percentEncode(std::string_view string, std::string_view reserved) {
+		constexpr std::string_view hexDigits = "0123456789ABCDEF";
+		std::string encoded;
+		for (const char x : string) {
+			const auto c = static_cast<unsigned char>(x);
+			if (c == '%' || c <= 0x20 || c >= 0x7F || reserved.find(x) != std::string_view::npos) {
+				encoded += { '%', hexDigits[c >> 4U], hexDigits[c & 0xFU] };
+			} else {
+				encoded += x;
+			}
+		}
+		return encoded;
+	}
+
+	/**
+	 * Normalizes the path using lexically_normal, percent-encodes it, calls generic_string to always use forward slashes,
 	 * and escapes any necessary characters.
 	 */
 	static std::string normalizeAndFormatPath(const fs::path& path) {
-		auto string = path.lexically_normal().generic_string();
+		auto string = percentEncode(path.lexically_normal().generic_string(), "?#:");
+		escapeString(string);
+		return string;
+	}
+
+	/**
+	 * Restores the percent-encoding of the URI, which fastgltf::URI has decoded, and escapes any necessary characters.
+	 */
+	static std::string formatUri(const URI& uri) {
+		const auto source = uri.string();
+		std::string string;
+		std::size_t pos = 0;
+		// Encodes a single component, and copies the delimiters in front of it.
+		const auto append = [&](std::string_view component, std::string_view reserved) {
+			if (component.empty())
+				return;
+			const auto offset = static_cast<std::size_t>(component.data() - source.data());
+			string += source.substr(pos, offset - pos);
+			string += percentEncode(component, reserved);
+			pos = offset + component.size();
+		};
+
+		append(uri.scheme(), "");
+		append(uri.userinfo(), "/?#@[]");
+		// The colons of an IPv6 address, which is enclosed in brackets, are no delimiters.
+		const auto isIPv6 = !uri.host().empty() && uri.host().data() != source.data() && *(uri.host().data() - 1) == '[';
+		append(uri.host(), isIPv6 ? "/?#@[]" : "/?#@:[]");
+		append(uri.port(), "/?#@:[]");
+		if (const auto path = uri.path(); startsWith(path, "//") && source.substr(0, static_cast<std::size_t>(path.data() - source.data())).find("//") == std::string_view::npos) {
+			// Two slashes would start an authority, if there is none.
+			append(path.substr(0, 1), "");
+			append(path.substr(1, 1), "/");
+			append(path.substr(2), uri.scheme().empty() ? "?#:" : "?#");
+		} else {
+			append(path, uri.scheme().empty() ? "?#:" : "?#");
+		}
+		append(uri.query(), "#");
+		append(uri.fragment(), "");
+		string += source.substr(pos);
 		escapeString(string);
 		return string;
 	}
@@ -5500,7 +5556,7 @@ void fg::Exporter::writeBuffers(const Asset& asset, std::string& json) {
                 bufferPaths.emplace_back(path);
 			},
 			[&](const sources::URI& uri) {
-				json += std::string(R"("uri":")") + fg::escapeString(uri.uri.string()) + '"' + ',';
+				json += std::string(R"("uri":")") + fg::formatUri(uri.uri) + '"' + ',';
                 bufferPaths.emplace_back(std::nullopt);
 			},
 			[&]([[maybe_unused]] const sources::Fallback& fallback) {
@@ -5702,7 +5758,10 @@ void fg::Exporter::writeImages(const Asset& asset, std::string& json) {
 				imagePaths.emplace_back(path);
 			},
 			[&](const sources::URI& uri) {
-				json += std::string(R"("uri":")") + fg::escapeString(uri.uri.string()) + '"';
+				json += std::string(R"("uri":")") + fg::formatUri(uri.uri) + '"';
+				if (uri.mimeType != MimeType::None) {
+					json += std::string(R"(,"mimeType":")") + std::string(getMimeTypeString(uri.mimeType)) + '"';
+				}
                 imagePaths.emplace_back(std::nullopt);
 			},
 		}, it->data);
-- 
2.43.0


From 4defec7ca3081047365ad39eb1a54ecfb05f2321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 089/104] fix: exporting a GLB read behind a buffer with less
 data than its byte length, and lost a first buffer too large to embed

---
 src/fastgltf.cpp | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 4045910..011e24a 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5512,6 +5512,24 @@ void fg::Exporter::writeAnimations(const Asset& asset, std::string& json)
 	json += ']';
 }
 
+namespace fastgltf {
+	/** The number of bytes of a buffer whose data is held by the asset itself. */
+	static std::size_t getBufferSize(const Buffer& buffer) {
+		return std::visit(visitor {
+			[](const auto&) { return static_cast<std::size_t>(0); },
+			[](const sources::Array& array) { return array.bytes.size(); },
+			[](const sources::Vector& vector) { return vector.bytes.size(); },
+			[](const sources::ByteView& view) { return view.bytes.size(); },
+		}, buffer.data);
+	}
+
+	/** Whether the buffer can be written as the BIN chunk of a GLB. We only support Arrays, Vectors, and ByteViews. */
+	static bool canEmbedBuffer(const Buffer& buffer) {
+		return (std::holds_alternative<sources::Array>(buffer.data) || std::holds_alternative<sources::ByteView>(buffer.data) || std::holds_alternative<sources::Vector>(buffer.data))
+			&& buffer.byteLength < std::numeric_limits<decltype(BinaryGltfChunk::chunkLength)>::max();
+	}
+} // namespace fastgltf
+
 void fg::Exporter::writeBuffers(const Asset& asset, std::string& json) {
 	if (asset.buffers.empty())
 		return;
@@ -5529,7 +5547,7 @@ void fg::Exporter::writeBuffers(const Asset& asset, std::string& json) {
 				errorCode = Error::InvalidGltf;
 			},
 			[&]([[maybe_unused]] const sources::Array& vector) {
-                if (bufferIdx == 0 && exportingBinary) {
+                if (bufferIdx == 0 && exportingBinary && canEmbedBuffer(*it)) {
                     bufferPaths.emplace_back(std::nullopt);
                     return;
                 }
@@ -5538,7 +5556,7 @@ void fg::Exporter::writeBuffers(const Asset& asset, std::string& json) {
                 bufferPaths.emplace_back(path);
 			},
 			[&]([[maybe_unused]] const sources::Vector& vector) {
-				if (bufferIdx == 0 && exportingBinary) {
+				if (bufferIdx == 0 && exportingBinary && canEmbedBuffer(*it)) {
 					bufferPaths.emplace_back(std::nullopt);
 					return;
 				}
@@ -5547,7 +5565,7 @@ void fg::Exporter::writeBuffers(const Asset& asset, std::string& json) {
 				bufferPaths.emplace_back(path);
 			},
 			[&]([[maybe_unused]] const sources::ByteView& view) {
-				if (bufferIdx == 0 && exportingBinary) {
+				if (bufferIdx == 0 && exportingBinary && canEmbedBuffer(*it)) {
 					bufferPaths.emplace_back(std::nullopt);
 					return;
 				}
@@ -7322,10 +7340,12 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
     result.imagePaths = std::move(imagePaths);
 
 	// TODO: Add ExportOption enumeration for disabling this?
-    const bool withEmbeddedBuffer = !asset.buffers.empty()
-			// We only support writing Vectors and ByteViews as embedded buffers
-			&& (std::holds_alternative<sources::Array>(asset.buffers.front().data) || std::holds_alternative<sources::ByteView>(asset.buffers.front().data) || std::holds_alternative<sources::Vector>(asset.buffers.front().data))
-			&& asset.buffers.front().byteLength < std::numeric_limits<decltype(BinaryGltfChunk::chunkLength)>::max();
+    const bool withEmbeddedBuffer = !asset.buffers.empty() && canEmbedBuffer(asset.buffers.front());
+
+	// The BIN chunk holds byteLength bytes, which the buffer therefore has to provide.
+	if (withEmbeddedBuffer && asset.buffers.front().byteLength > getBufferSize(asset.buffers.front())) {
+		return Error::InvalidGltf;
+	}
 
     std::size_t binarySize = 0;
     binarySize += sizeof(BinaryGltfHeader); // glTF header
-- 
2.43.0


From 957700584d7d3db5776120a3c651e54902a6363d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 090/104] fix: distinct buffers and images could be exported to
 the same file or to outside of the target folder

---
 src/fastgltf.cpp | 55 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 011e24a..d33ef66 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7185,12 +7185,51 @@ void fg::Exporter::writeExtensions(const fastgltf::Asset& asset, std::string& js
     json += '}';
 }
 
+namespace fastgltf {
+	/**
+	 * Replaces everything in the name of a buffer or image that has a special meaning as (part of) a file name.
+	 */
+	static std::string sanitizeFileName(std::string_view name) {
+		std::string sanitized(name);
+		for (auto& c : sanitized) {
+			if (static_cast<unsigned char>(c) < 0x20 || std::string_view("/\\:*?\"<>|").find(c) != std::string_view::npos) {
+				c = '_';
+			}
+		}
+		return sanitized;
+	}
+
+	/**
+	 * Creates the path for a new file of the asset. The name is changed if the file is already used by another buffer or image.
+	 */
+	static fs::path getUniqueFilePath(const Asset& asset, const fs::path& folder, const std::string& name, std::string_view extension,
+									  const std::vector<std::optional<fs::path>>& bufferPaths, const std::vector<std::optional<fs::path>>& imagePaths) {
+		const auto isUsed = [&](const fs::path& path) {
+			const auto isSame = [&](const std::optional<fs::path>& other) {
+				return other.has_value() && other->lexically_normal() == path;
+			};
+			const auto isReferenced = [&](const auto& object) {
+				const auto* uri = std::get_if<sources::URI>(&object.data);
+				return uri != nullptr && uri->uri.isLocalPath() && uri->uri.fspath().lexically_normal() == path;
+			};
+			return std::any_of(bufferPaths.begin(), bufferPaths.end(), isSame) || std::any_of(imagePaths.begin(), imagePaths.end(), isSame)
+				|| std::any_of(asset.buffers.begin(), asset.buffers.end(), isReferenced) || std::any_of(asset.images.begin(), asset.images.end(), isReferenced);
+		};
+
+		auto path = folder / (name + std::string(extension));
+		for (std::size_t i = 0; isUsed(path.lexically_normal()); ++i) {
+			path = folder / (name + '_' + std::to_string(i) + std::string(extension));
+		}
+		return path;
+	}
+} // namespace fastgltf
+
 fs::path fg::Exporter::getBufferFilePath(const Asset& asset, std::size_t index) {
-    const auto& bufferName = asset.buffers[index].name;
-    if (bufferName.empty()) {
-        return bufferFolder / ("buffer" + std::to_string(index) + ".bin");
-    }
-	return bufferFolder / (bufferName + ".bin");
+	auto bufferName = sanitizeFileName(asset.buffers[index].name);
+	if (bufferName.empty()) {
+		bufferName = "buffer" + std::to_string(index);
+	}
+	return getUniqueFilePath(asset, bufferFolder, bufferName, ".bin", bufferPaths, imagePaths);
 }
 
 fs::path fg::Exporter::getImageFilePath(const Asset& asset, std::size_t index, MimeType mimeType) {
@@ -7216,11 +7255,11 @@ fs::path fg::Exporter::getImageFilePath(const Asset& asset, std::size_t index, M
 			break;
     }
 
-    const auto& imageName = asset.images[index].name;
+	auto imageName = sanitizeFileName(asset.images[index].name);
 	if (imageName.empty()) {
-		return imageFolder / ("image" + std::to_string(index) + std::string(extension));
+		imageName = "image" + std::to_string(index);
 	}
-	return imageFolder / (std::string(imageName) + std::string(extension));
+	return getUniqueFilePath(asset, imageFolder, imageName, extension, bufferPaths, imagePaths);
 }
 
 std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
-- 
2.43.0


From 2d481426f10cb9465e07d2606396b1dc762cfbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 091/104] fix: WebP images were exported with the extension of
 a buffer

---
 src/fastgltf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index d33ef66..841765f 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7247,6 +7247,9 @@ fs::path fg::Exporter::getImageFilePath(const Asset& asset, std::size_t index, M
 		case MimeType::DDS:
 			extension = ".dds";
 			break;
+		case MimeType::WEBP:
+			extension = ".webp";
+			break;
 		default:
 		case MimeType::None:
 		case MimeType::GltfBuffer:
-- 
2.43.0


From 7d2565525620c73c9b8786d53b2ddbb09b73aa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 092/104] fix: files could not be exported into the working
 directory or into nested folders

---
 src/fastgltf.cpp | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 841765f..f754482 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7464,15 +7464,28 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
 }
 
 namespace fastgltf {
+	/**
+	 * Creates the folder of the destination file, and all of its parents, if it does not exist yet.
+	 */
+	static bool createParentFolder(const fs::path& path) {
+		// Without a parent path the file is relative to the working directory, which always exists.
+		const auto folder = path.parent_path();
+		if (folder.empty()) {
+			return true;
+		}
+		std::error_code ec;
+		if (fs::exists(folder, ec) && !ec) {
+			return true;
+		}
+		fs::create_directories(folder, ec);
+		return !ec;
+	}
+
 	bool writeFile(const DataSource& dataSource, const fs::path& baseFolder, const fs::path& filePath) {
 		// Get the final normalized path. TODO: Perhaps move these filesystem checks to the parent function?
 		auto finalPath = (baseFolder / filePath).lexically_normal();
-		if (std::error_code ec; !fs::exists(finalPath.parent_path(), ec) || ec) {
-			// If the parent folder of the destination file does not exist, we'll create it.
-			fs::create_directory(finalPath.parent_path(), ec);
-			if (ec) {
-				return false;
-			}
+		if (!createParentFolder(finalPath)) {
+			return false;
 		}
 
 		return std::visit(visitor {
@@ -7531,11 +7544,8 @@ namespace fastgltf {
 } // namespace fastgltf
 
 fg::Error fg::FileExporter::writeGltfJson(const Asset& asset, const fs::path& target, const ExportOptions _options) {
-	if (std::error_code ec; !fs::exists(target.parent_path(), ec) || ec) {
-		fs::create_directory(target.parent_path(), ec);
-		if (ec) {
-			return Error::InvalidPath;
-		}
+	if (!createParentFolder(target)) {
+		return Error::InvalidPath;
 	}
 
 	auto expected = Exporter::writeGltfJson(asset, _options);
@@ -7560,11 +7570,8 @@ fg::Error fg::FileExporter::writeGltfJson(const Asset& asset, const fs::path& ta
 }
 
 fg::Error fg::FileExporter::writeGltfBinary(const Asset& asset, const fs::path& target, const ExportOptions _options) {
-	if (std::error_code ec; !fs::exists(target.parent_path(), ec) || ec) {
-		fs::create_directory(target.parent_path(), ec);
-		if (ec) {
-			return Error::InvalidPath;
-		}
+	if (!createParentFolder(target)) {
+		return Error::InvalidPath;
 	}
 
     auto expected = Exporter::writeGltfBinary(asset, _options);
-- 
2.43.0


From 5bbf46094168d4d5ae71f7523489f642acb22ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 093/104] fix: failing to write the exported document was not
 reported

---
 src/fastgltf.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index f754482..f762c5a 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7562,6 +7562,9 @@ fg::Error fg::FileExporter::writeGltfJson(const Asset& asset, const fs::path& ta
 
     file << result.output;
     file.close();
+    if (!file.good()) {
+        return Error::FailedWritingFiles;
+    }
 
 	if (!writeFiles(asset, result, target.parent_path())) {
 		return Error::FailedWritingFiles;
@@ -7588,6 +7591,10 @@ fg::Error fg::FileExporter::writeGltfBinary(const Asset& asset, const fs::path&
 
     file.write(reinterpret_cast<const char*>(result.output.data()),
                static_cast<std::streamsize>(result.output.size()));
+    file.close();
+    if (!file.good()) {
+        return Error::FailedWritingFiles;
+    }
 
 	if (!writeFiles(asset, result, target.parent_path())) {
 		return Error::FailedWritingFiles;
-- 
2.43.0


From b98cd1ae2d0d7bc04074fc0b9c2494fed6b7b39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 094/104] fix: an exported buffer or image could overwrite the
 exported document

---
 src/fastgltf.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index f762c5a..a060be6 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7522,6 +7522,18 @@ namespace fastgltf {
 		}, dataSource);
 	}
 
+	/**
+	 * Whether any of the files of the asset would overwrite the exported document itself.
+	 */
+	template<typename T>
+	static bool overwritesDocument(const ExportResult<T>& result, const fs::path& target) {
+		const auto isTarget = [&](const std::optional<fs::path>& path) {
+			return path.has_value() && (target.parent_path() / *path).lexically_normal() == target.lexically_normal();
+		};
+		return std::any_of(result.bufferPaths.begin(), result.bufferPaths.end(), isTarget)
+			|| std::any_of(result.imagePaths.begin(), result.imagePaths.end(), isTarget);
+	}
+
 	template<typename T>
 	bool writeFiles(const Asset& asset, ExportResult<T> &result, const fs::path& baseFolder) {
 		for (std::size_t i = 0; i < asset.buffers.size(); ++i) {
@@ -7554,6 +7566,9 @@ fg::Error fg::FileExporter::writeGltfJson(const Asset& asset, const fs::path& ta
         return expected.error();
     }
     auto& result = expected.get();
+    if (overwritesDocument(result, target)) {
+        return Error::InvalidPath;
+    }
 
     std::ofstream file(target, std::ios::out);
     if (!file.is_open()) {
@@ -7583,6 +7598,9 @@ fg::Error fg::FileExporter::writeGltfBinary(const Asset& asset, const fs::path&
         return expected.error();
     }
     auto& result = expected.get();
+    if (overwritesDocument(result, target)) {
+        return Error::InvalidPath;
+    }
 
     std::ofstream file(target, std::ios::out | std::ios::binary);
     if (!file.is_open()) {
-- 
2.43.0


From c3aa74c1bf0149109cde716fe71c7383bdc2fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:42 +0000
Subject: [PATCH 095/104] fix: invalid combine modes and drives were exported
 as malformed JSON

---
 src/fastgltf.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index a060be6..db33a6d 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6901,6 +6901,9 @@ void fg::Exporter::writePhysicsMaterials(const Asset& asset, std::string& json)
         case CombineMode::Multiply:
 			json += R"("multiply")";
             break;
+        default:
+			errorCode = Error::InvalidGltf;
+            break;
         }
 		json += R"(,"restitutionCombine":)";
 		switch (material.restitutionCombine) {
@@ -6916,6 +6919,9 @@ void fg::Exporter::writePhysicsMaterials(const Asset& asset, std::string& json)
 		case CombineMode::Multiply:
 			json += R"("multiply")";
 			break;
+		default:
+			errorCode = Error::InvalidGltf;
+			break;
 		}
 
 		if (extrasWriteCallback != nullptr) {
@@ -7096,6 +7102,9 @@ void fg::Exporter::writePhysicsJoints(const Asset& asset, std::string& json) {
                 case DriveType::Angular:
 					json += R"("angular")";
                     break;
+                default:
+					errorCode = Error::InvalidGltf;
+                    break;
                 }
 
 				json += R"(,"mode":)";
@@ -7106,6 +7115,9 @@ void fg::Exporter::writePhysicsJoints(const Asset& asset, std::string& json) {
 				case DriveMode::Acceleration:
 					json += R"("acceleration")";
 					break;
+				default:
+					errorCode = Error::InvalidGltf;
+					break;
 				}
 
 				json += R"(,"axis":)" + std::to_string(drive.axis)
-- 
2.43.0


From 2b81c31304c7591ddb6cf1495429af6eee8299b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 096/104] fix: generated mesh indices did not match the
 topology, the vertex count or the accessors of the primitive

---
 src/fastgltf.cpp | 88 +++++++++++-------------------------------------
 1 file changed, 20 insertions(+), 68 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index db33a6d..4332f8c 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -852,53 +852,22 @@ template fg::Error fg::Parser::parseAttributes(simdjson::dom::object&, decltype(
 
 namespace fastgltf {
 	template<typename T>
-	void writeIndices(PrimitiveType type, span<T> indices, std::size_t primitiveCount) {
-		// Generate the correct indices for every primitive topology
-		switch (type) {
-			case PrimitiveType::Points: {
-				for (std::size_t i = 0; i < primitiveCount; ++i)
-					indices[i] = static_cast<T>(i);
-				break;
-			}
-			case PrimitiveType::Lines:
-			case PrimitiveType::LineLoop:
-			case PrimitiveType::LineStrip: {
-				for (std::size_t i = 0; i < primitiveCount; ++i) {
-					indices[i * 2 + 0] = static_cast<T>(i * 2 + 0);
-					indices[i * 2 + 1] = static_cast<T>(i * 2 + 1);
-				}
-				break;
-			}
-			case PrimitiveType::Triangles:
-			case PrimitiveType::TriangleStrip:
-			case PrimitiveType::TriangleFan: {
-				for (std::size_t i = 0; i < primitiveCount; ++i) {
-					indices[i * 3 + 0] = static_cast<T>(i * 3 + 0);
-					indices[i * 3 + 1] = static_cast<T>(i * 3 + 1);
-					indices[i * 3 + 2] = static_cast<T>(i * 3 + 2);
-				}
-				break;
-			}
-			default: FASTGLTF_UNREACHABLE
-		}
+	StaticVector<std::byte> writeIndices(std::size_t indexCount) {
+		StaticVector<std::byte> generatedIndices(indexCount * sizeof(T));
+		span<T> indices(reinterpret_cast<T*>(generatedIndices.data()), indexCount);
+		for (std::size_t i = 0; i < indexCount; ++i)
+			indices[i] = static_cast<T>(i);
+		return generatedIndices;
 	}
 
-	std::pair<StaticVector<std::byte>, ComponentType> writeIndices(PrimitiveType type, std::size_t indexCount, std::size_t primitiveCount) {
+	std::pair<StaticVector<std::byte>, ComponentType> writeIndices(std::size_t indexCount) {
+		// Note that the highest value of each type restarts primitives, and therefore never is an index.
 		if (indexCount < 255) {
-			StaticVector<std::byte> generatedIndices(indexCount * sizeof(std::uint8_t));
-			span<std::uint8_t> indices(reinterpret_cast<std::uint8_t*>(generatedIndices.data()), generatedIndices.size() / sizeof(std::uint8_t));
-			writeIndices(type, indices, primitiveCount);
-			return std::make_pair(generatedIndices, ComponentType::UnsignedByte);
+			return std::make_pair(writeIndices<std::uint8_t>(indexCount), ComponentType::UnsignedByte);
 		} else if (indexCount < 65535) {
-			StaticVector<std::byte> generatedIndices(indexCount * sizeof(std::uint16_t));
-			span<std::uint16_t> indices(reinterpret_cast<std::uint16_t*>(generatedIndices.data()), generatedIndices.size() / sizeof(std::uint16_t));
-			writeIndices(type, indices, primitiveCount);
-			return std::make_pair(generatedIndices, ComponentType::UnsignedShort);
+			return std::make_pair(writeIndices<std::uint16_t>(indexCount), ComponentType::UnsignedShort);
 		} else {
-			StaticVector<std::byte> generatedIndices(indexCount * sizeof(std::uint32_t));
-			span<std::uint32_t> indices(reinterpret_cast<std::uint32_t*>(generatedIndices.data()), generatedIndices.size() / sizeof(std::uint32_t));
-			writeIndices(type, indices, primitiveCount);
-			return std::make_pair(generatedIndices, ComponentType::UnsignedInt);
+			return std::make_pair(writeIndices<std::uint32_t>(indexCount), ComponentType::UnsignedInt);
 		}
 	}
 }
@@ -913,34 +882,17 @@ fg::Error fg::Parser::generateMeshIndices(fastgltf::Asset& asset) const {
 			if (positionAttribute == primitive.attributes.end()) {
 				return Error::InvalidGltf;
 			}
+			if (positionAttribute->accessorIndex >= asset.accessors.size()) {
+				return Error::InvalidGltf;
+			}
 			auto positionCount = asset.accessors[positionAttribute->accessorIndex].count;
 
-			auto primitiveCount = [&]() -> std::size_t {
-				switch (primitive.type) {
-					case PrimitiveType::Points: return positionCount;
-					case PrimitiveType::Lines: return positionCount / 2;
-					case PrimitiveType::LineLoop:
-					case PrimitiveType::LineStrip: return max<std::size_t>(0, positionCount - 1);
-					case PrimitiveType::Triangles: return positionCount / 3;
-					case PrimitiveType::TriangleStrip: return max<std::size_t>(0U, positionCount - 2);
-					case PrimitiveType::TriangleFan: return max<std::size_t>(0U, positionCount - 2);
-					default: FASTGLTF_UNREACHABLE
-				}
-			}();
-			auto indexCount = [&]() -> std::size_t {
-				switch (primitive.type) {
-					case PrimitiveType::Points: return primitiveCount;
-					case PrimitiveType::Lines:
-					case PrimitiveType::LineLoop:
-					case PrimitiveType::LineStrip: return primitiveCount * 2;
-					case PrimitiveType::Triangles:
-					case PrimitiveType::TriangleStrip:
-					case PrimitiveType::TriangleFan: return primitiveCount * 3;
-					default: FASTGLTF_UNREACHABLE
-				}
-			}();
-
-			auto [generatedIndices, componentType] = writeIndices(primitive.type, indexCount, primitiveCount);
+			if (positionCount >= std::numeric_limits<std::uint32_t>::max()) {
+				return Error::InvalidGltf;
+			}
+
+			// The topology does not change, so that every vertex just gets referenced once and in order.
+			auto [generatedIndices, componentType] = writeIndices(positionCount);
 
 			auto bufferIdx = asset.buffers.size();
 			auto& buffer = asset.buffers.emplace_back();
-- 
2.43.0


From 6aa0e7f9cb4d72e088887559cdb109cf83fe48d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 097/104] fix: validate read outside the asset for invalid
 sparse accessor and animation indices

---
 src/fastgltf.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 4332f8c..96cd4ac 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -991,6 +991,9 @@ fg::Error fg::validate(const Asset& asset) {
 		}
 
 		if (accessor.sparse) {
+			if (accessor.sparse->indicesBufferView >= asset.bufferViews.size() || accessor.sparse->valuesBufferView >= asset.bufferViews.size())
+				return Error::InvalidGltf;
+
 			const auto& indicesView = asset.bufferViews[accessor.sparse->indicesBufferView];
 			if (indicesView.byteStride || indicesView.target)
 				return Error::InvalidGltf;
@@ -1018,7 +1021,11 @@ fg::Error fg::validate(const Asset& asset) {
 		if (animation.samplers.empty())
 			return Error::InvalidGltf;
 		for (const auto& channel : animation.channels) {
+			if (channel.samplerIndex >= animation.samplers.size())
+				return Error::InvalidGltf;
 			const auto& sampler = animation.samplers[channel.samplerIndex];
+			if (sampler.inputAccessor >= asset.accessors.size() || sampler.outputAccessor >= asset.accessors.size())
+				return Error::InvalidGltf;
 
 			const auto& inputAccessor = asset.accessors[sampler.inputAccessor];
 			// The accessor MUST be of scalar type with floating-point components
-- 
2.43.0


From 5fbd91a0b8e42e81a70371afe503b67b4856e4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 098/104] fix: validate missed many indices of objects which do
 not exist

---
 src/fastgltf.cpp | 114 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 103 insertions(+), 11 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 96cd4ac..7f1f7dd 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1020,12 +1020,17 @@ fg::Error fg::validate(const Asset& asset) {
 
 		if (animation.samplers.empty())
 			return Error::InvalidGltf;
+		for (const auto& sampler : animation.samplers) {
+			if (sampler.inputAccessor >= asset.accessors.size() || sampler.outputAccessor >= asset.accessors.size())
+				return Error::InvalidGltf;
+		}
 		for (const auto& channel : animation.channels) {
+			// Note that animations can be loaded without any nodes, see Category::OnlyAnimations.
+			if (channel.nodeIndex.has_value() && !asset.nodes.empty() && channel.nodeIndex.value() >= asset.nodes.size())
+				return Error::InvalidGltf;
 			if (channel.samplerIndex >= animation.samplers.size())
 				return Error::InvalidGltf;
 			const auto& sampler = animation.samplers[channel.samplerIndex];
-			if (sampler.inputAccessor >= asset.accessors.size() || sampler.outputAccessor >= asset.accessors.size())
-				return Error::InvalidGltf;
 
 			const auto& inputAccessor = asset.accessors[sampler.inputAccessor];
 			// The accessor MUST be of scalar type with floating-point components
@@ -1080,6 +1085,8 @@ fg::Error fg::validate(const Asset& asset) {
 
 		if (bufferView.meshoptCompression) {
 			const auto& compression = bufferView.meshoptCompression;
+			if (compression->bufferIndex >= asset.buffers.size())
+				return Error::InvalidGltf;
 			switch (compression->mode) {
 				case MeshoptCompressionMode::Attributes:
 					if (compression->byteStride % 4 != 0 || compression->byteStride > 256)
@@ -1144,20 +1151,37 @@ fg::Error fg::validate(const Asset& asset) {
 	}
 
 	for (const auto& material : asset.materials) {
-		auto isInvalidTexture = [&textures = asset.textures](std::optional<std::size_t> textureIndex) {
-			return textureIndex.has_value() && textureIndex.value() >= textures.size();
+		auto isInvalidTexture = [&textures = asset.textures](const auto& texture) {
+			return texture.has_value() && texture->textureIndex >= textures.size();
 		};
-		if (material.normalTexture.has_value() && isInvalidTexture(material.normalTexture->textureIndex))
+		if (isInvalidTexture(material.normalTexture) || isInvalidTexture(material.emissiveTexture) || isInvalidTexture(material.occlusionTexture)
+			|| isInvalidTexture(material.pbrData.baseColorTexture) || isInvalidTexture(material.pbrData.metallicRoughnessTexture)
+			|| isInvalidTexture(material.packedNormalMetallicRoughnessTexture))
+			return Error::InvalidGltf;
+		if (material.anisotropy && isInvalidTexture(material.anisotropy->anisotropyTexture))
+			return Error::InvalidGltf;
+		if (material.clearcoat && (isInvalidTexture(material.clearcoat->clearcoatTexture)
+			|| isInvalidTexture(material.clearcoat->clearcoatRoughnessTexture) || isInvalidTexture(material.clearcoat->clearcoatNormalTexture)))
+			return Error::InvalidGltf;
+		if (material.diffuseTransmission && (isInvalidTexture(material.diffuseTransmission->diffuseTransmissionTexture)
+			|| isInvalidTexture(material.diffuseTransmission->diffuseTransmissionColorTexture)))
+			return Error::InvalidGltf;
+		if (material.iridescence && (isInvalidTexture(material.iridescence->iridescenceTexture)
+			|| isInvalidTexture(material.iridescence->iridescenceThicknessTexture)))
+			return Error::InvalidGltf;
+		if (material.sheen && (isInvalidTexture(material.sheen->sheenColorTexture) || isInvalidTexture(material.sheen->sheenRoughnessTexture)))
 			return Error::InvalidGltf;
-		if (material.emissiveTexture.has_value() && isInvalidTexture(material.emissiveTexture->textureIndex))
+		if (material.specular && (isInvalidTexture(material.specular->specularTexture) || isInvalidTexture(material.specular->specularColorTexture)))
 			return Error::InvalidGltf;
-		if (material.occlusionTexture.has_value() && isInvalidTexture(material.occlusionTexture->textureIndex))
+		if (material.specularGlossiness && (isInvalidTexture(material.specularGlossiness->diffuseTexture)
+			|| isInvalidTexture(material.specularGlossiness->specularGlossinessTexture)))
 			return Error::InvalidGltf;
-		if (material.pbrData.baseColorTexture.has_value() &&
-		    isInvalidTexture(material.pbrData.baseColorTexture->textureIndex))
+		if (material.transmission && isInvalidTexture(material.transmission->transmissionTexture))
 			return Error::InvalidGltf;
-		if (material.pbrData.metallicRoughnessTexture.has_value() &&
-		    isInvalidTexture(material.pbrData.metallicRoughnessTexture->textureIndex))
+		if (material.volume && isInvalidTexture(material.volume->thicknessTexture))
+			return Error::InvalidGltf;
+		if (const auto& packed = material.packedOcclusionRoughnessMetallicTextures; packed && (isInvalidTexture(packed->occlusionRoughnessMetallicTexture)
+			|| isInvalidTexture(packed->roughnessMetallicOcclusionTexture) || isInvalidTexture(packed->normalTexture)))
 			return Error::InvalidGltf;
 
 		// Validate that for every additional material field from an extension the correct extension is marked as used by the asset.
@@ -1219,6 +1243,16 @@ fg::Error fg::validate(const Asset& asset) {
 				}
 			}
 
+			if (primitive.dracoCompression && primitive.dracoCompression->bufferView >= asset.bufferViews.size())
+				return Error::InvalidGltf;
+
+			for (const auto& target : primitive.targets) {
+				for (const auto& attribute : target) {
+					if (asset.accessors.size() <= attribute.accessorIndex)
+						return Error::InvalidGltf;
+				}
+			}
+
 			for (const auto& [name, index] : primitive.attributes) {
 				if (asset.accessors.size() <= index)
 					return Error::InvalidGltf;
@@ -1328,6 +1362,56 @@ fg::Error fg::validate(const Asset& asset) {
 			return Error::InvalidGltf;
 		if (node.meshIndex.has_value() && asset.meshes.size() <= node.meshIndex.value())
 			return Error::InvalidGltf;
+		if (node.lightIndex.has_value() && asset.lights.size() <= node.lightIndex.value())
+			return Error::InvalidGltf;
+		for (const auto& child : node.children) {
+			if (asset.nodes.size() <= child)
+				return Error::InvalidGltf;
+		}
+		for (const auto& attribute : node.instancingAttributes) {
+			if (asset.accessors.size() <= attribute.accessorIndex)
+				return Error::InvalidGltf;
+		}
+
+#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
+		if (node.physicsRigidBody) {
+			const auto& rigidBody = *node.physicsRigidBody;
+			auto isInvalidGeometry = [&](const Geometry& geometry) {
+#if FASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES
+				// The shapes are part of another extension, which might not have been loaded.
+				if (geometry.shape.has_value() && !asset.shapes.empty() && geometry.shape.value() >= asset.shapes.size())
+					return true;
+#endif
+				return geometry.node.has_value() && geometry.node.value() >= asset.nodes.size();
+			};
+			if (rigidBody.collider.has_value()) {
+				const auto& collider = rigidBody.collider.value();
+				if (isInvalidGeometry(collider.geometry))
+					return Error::InvalidGltf;
+				if (collider.physicsMaterial.has_value() && collider.physicsMaterial.value() >= asset.physicsMaterials.size())
+					return Error::InvalidGltf;
+				if (collider.collisionFilter.has_value() && collider.collisionFilter.value() >= asset.collisionFilters.size())
+					return Error::InvalidGltf;
+			}
+			if (rigidBody.trigger.has_value()) {
+				if (const auto* geometryTrigger = std::get_if<GeometryTrigger>(&rigidBody.trigger.value())) {
+					if (isInvalidGeometry(geometryTrigger->geometry))
+						return Error::InvalidGltf;
+					if (geometryTrigger->collisionFilter.has_value() && geometryTrigger->collisionFilter.value() >= asset.collisionFilters.size())
+						return Error::InvalidGltf;
+				} else if (const auto* nodeTrigger = std::get_if<NodeTrigger>(&rigidBody.trigger.value())) {
+					for (const auto& triggerNode : nodeTrigger->nodes) {
+						if (triggerNode >= asset.nodes.size())
+							return Error::InvalidGltf;
+					}
+				}
+			}
+			if (rigidBody.joint.has_value()) {
+				if (rigidBody.joint->connectedNode >= asset.nodes.size() || rigidBody.joint->joint >= asset.physicsJoints.size())
+					return Error::InvalidGltf;
+			}
+		}
+#endif
 
 		if (const auto* pTRS = std::get_if<TRS>(&node.transform)) {
 			if (pTRS->rotation.x() > 1.0 || pTRS->rotation.x() < -1.0)
@@ -1372,6 +1456,10 @@ fg::Error fg::validate(const Asset& asset) {
 		}
 	}
 
+	// Note that assets can be loaded without any scenes, see Category.
+	if (asset.defaultScene.has_value() && !asset.scenes.empty() && asset.defaultScene.value() >= asset.scenes.size()) {
+		return Error::InvalidGltf;
+	}
 	for (const auto& scene : asset.scenes) {
 		for (const auto& node : scene.nodeIndices) {
 			if (node >= asset.nodes.size())
@@ -1382,6 +1470,10 @@ fg::Error fg::validate(const Asset& asset) {
 	for (const auto& skin : asset.skins) {
 		if (skin.joints.empty())
 			return Error::InvalidGltf;
+		for (const auto& joint : skin.joints) {
+			if (joint >= asset.nodes.size())
+				return Error::InvalidGltf;
+		}
 		if (skin.skeleton.has_value() && skin.skeleton.value() >= asset.nodes.size())
 			return Error::InvalidGltf;
 		if (skin.inverseBindMatrices.has_value() && skin.inverseBindMatrices.value() >= asset.accessors.size())
-- 
2.43.0


From 3526a66d15d99727c077389bac75991c46d152a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 099/104] fix: validate ignored the alignment of buffer views
 used by accessors without offset

---
 src/fastgltf.cpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 7f1f7dd..c81ec79 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -953,23 +953,21 @@ fg::Error fg::validate(const Asset& asset) {
 		if (accessor.bufferViewIndex.has_value() &&
 		    accessor.bufferViewIndex.value() >= asset.bufferViews.size())
 			return Error::InvalidGltf;
-		if (accessor.byteOffset != 0) {
-			// The offset of an accessor into a bufferView (i.e., accessor.byteOffset)
-			// and the offset of an accessor into a buffer (i.e., accessor.byteOffset + bufferView.byteOffset)
-			// MUST be a multiple of the size of the accessor’s component type.
-			auto componentByteSize = getComponentByteSize(accessor.componentType);
-			if (accessor.byteOffset % componentByteSize != 0)
-				return Error::InvalidGltf;
+		// The offset of an accessor into a bufferView (i.e., accessor.byteOffset)
+		// and the offset of an accessor into a buffer (i.e., accessor.byteOffset + bufferView.byteOffset)
+		// MUST be a multiple of the size of the accessor’s component type.
+		auto componentByteSize = getComponentByteSize(accessor.componentType);
+		if (accessor.byteOffset % componentByteSize != 0)
+			return Error::InvalidGltf;
 
-			if (accessor.bufferViewIndex.has_value()) {
-				const auto& bufferView = asset.bufferViews[accessor.bufferViewIndex.value()];
-				if ((accessor.byteOffset + bufferView.byteOffset) % componentByteSize != 0)
-					return Error::InvalidGltf;
+		if (accessor.bufferViewIndex.has_value()) {
+			const auto& bufferView = asset.bufferViews[accessor.bufferViewIndex.value()];
+			if ((accessor.byteOffset + bufferView.byteOffset) % componentByteSize != 0)
+				return Error::InvalidGltf;
 
-				// When byteStride is defined, it MUST be a multiple of the size of the accessor’s component type.
-				if (bufferView.byteStride.has_value() && bufferView.byteStride.value() % componentByteSize != 0)
-					return Error::InvalidGltf;
-			}
+			// When byteStride is defined, it MUST be a multiple of the size of the accessor’s component type.
+			if (bufferView.byteStride.has_value() && bufferView.byteStride.value() % componentByteSize != 0)
+				return Error::InvalidGltf;
 		}
 
 		if (accessor.max.has_value()) {
-- 
2.43.0


From 5d14d8b78421d277fc6eb492077f1b084c29f6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:51 +0000
Subject: [PATCH 100/104] fix: validate refused spot lights whose outer cone
 angle is exactly pi / 2

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index c81ec79..75cbe49 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1143,7 +1143,7 @@ fg::Error fg::validate(const Asset& asset) {
 				return Error::InvalidGltf;
 			if (light.innerConeAngle.value() > light.outerConeAngle.value())
 				return Error::InvalidGltf;
-			if (light.outerConeAngle.value() > math::pi / 2)
+			if (light.outerConeAngle.value() > static_cast<num>(math::pi / 2))
 				return Error::InvalidGltf;
 		}
 	}
-- 
2.43.0


From dc6d08e26fb7ada9cb7065ad14641634ff778347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 101/104] fix: accessor bounds outside the range of int64 were
 converted with undefined behaviour

---
 src/fastgltf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 75cbe49..4db5ccb 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1804,6 +1804,10 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 							if (array.isType<double>()) {
 								array.set(idx++, value);
 							} else if (array.isType<std::int64_t>()) {
+								// The conversion is only defined for values an int64 can represent.
+								if (value < -9223372036854775808.0 || value >= 9223372036854775808.0) FASTGLTF_UNLIKELY {
+									return Error::InvalidGltf;
+								}
 								array.set(idx++, static_cast<std::int64_t>(value));
 							} else {
 								FASTGLTF_UNREACHABLE
-- 
2.43.0


From 66c18ee3993ad9dcc4c63e638223f4e2ef2cc403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 102/104] fix: the library did not compile without the custom
 memory pool

---
 src/fastgltf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 4db5ccb..9af24bf 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6325,7 +6325,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
                 {
                     json += R"("attributes":{)";
                     for (auto ita = itp->attributes.begin(); ita != itp->attributes.end(); ++ita) {
-                        json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+                        json += '"' + fg::escapeString(std::string_view(ita->name)) + "\":" + std::to_string(ita->accessorIndex);
                         if (uabs(std::distance(itp->attributes.begin(), ita)) + 1 <itp->attributes.size())
                             json += ',';
                     }
@@ -6346,7 +6346,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
             		for (auto itt = itp->targets.begin(); itt != itp->targets.end(); ++itt) {
 						json += '{';
 						for (auto ita = itt->begin(); ita != itt->end(); ++ita) {
-							json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+							json += '"' + fg::escapeString(std::string_view(ita->name)) + "\":" + std::to_string(ita->accessorIndex);
 							if (uabs(std::distance(itt->begin(), ita)) + 1 < itt->size())
 								json += ',';
 						}
@@ -6385,7 +6385,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
 					json += R"("bufferView":)" + std::to_string(itp->dracoCompression->bufferView) + ',';
 					json += R"("attributes":{)";
 					for (auto ita = itp->dracoCompression->attributes.begin(); ita != itp->dracoCompression->attributes.end(); ++ita) {
-						json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+						json += '"' + fg::escapeString(std::string_view(ita->name)) + "\":" + std::to_string(ita->accessorIndex);
 						if (uabs(std::distance(itp->dracoCompression->attributes.begin(), ita)) + 1 < itp->dracoCompression->attributes.size())
 							json += ',';
 					}
-- 
2.43.0


From 7051e8caadaf30fd96121646b5a1604932b7d40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:34 +0000
Subject: [PATCH 103/104] fix: defaults of double precision numbers had only
 single precision

---
 include/fastgltf/types.hpp | 6 +++---
 src/fastgltf.cpp           | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index abb3106..c4ca51e 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -2040,9 +2040,9 @@ namespace fastgltf {
 	};
 
 	FASTGLTF_EXPORT struct PhysicsMaterial {
-		num staticFriction = 0.6f;
+		num staticFriction = num(0.6);
 
-		num dynamicFriction = 0.6f;
+		num dynamicFriction = num(0.6);
 
 		num restitution = 0.0f;
 
@@ -2437,7 +2437,7 @@ namespace fastgltf {
     FASTGLTF_EXPORT struct MaterialIridescence {
         num iridescenceFactor = 0.0f;
         Optional<TextureInfo> iridescenceTexture;
-        num iridescenceIor = 1.3f;
+        num iridescenceIor = num(1.3);
         num iridescenceThicknessMinimum = 100.0f;
         num iridescenceThicknessMaximum = 400.0f;
         Optional<TextureInfo> iridescenceThicknessTexture;
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 9af24bf..8254354 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6106,7 +6106,7 @@ void fg::Exporter::writeMaterials(const Asset& asset, std::string& json) {
 				json += "\"iridescenceTexture\":";
 				writeTextureInfo(json, &it->iridescence->iridescenceTexture.value());
 			}
-			if (it->iridescence->iridescenceIor != 1.3f) {
+			if (it->iridescence->iridescenceIor != num(1.3)) {
 				if (json.back() != '{') json += ',';
 				json += R"("iridescenceIor":)" + to_string_fp(it->iridescence->iridescenceIor);
 			}
-- 
2.43.0


From 59bc661310a346b9440aa7802bba0b13fcbf69b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:45 +0000
Subject: [PATCH 104/104] fix: byteswap did not compile before C++23

---
 include/fastgltf/util.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fastgltf/util.hpp b/include/fastgltf/util.hpp
index a248fd9..9159d87 100644
--- a/include/fastgltf/util.hpp
+++ b/include/fastgltf/util.hpp
@@ -412,7 +412,11 @@ namespace fastgltf {
 	auto byteswap(T value) noexcept {
 		static_assert(std::has_unique_object_representations_v<T>, "T may not have padding bits");
 		auto bytes = bit_cast<std::array<std::byte, sizeof(T)>>(value);
-		bytes = decltype(bytes)(bytes.rbegin(), bytes.rend());
+		for (std::size_t i = 0; i < bytes.size() / 2; ++i) {
+			const auto byte = bytes[i];
+			bytes[i] = bytes[bytes.size() - 1 - i];
+			bytes[bytes.size() - 1 - i] = byte;
+		}
 		return bit_cast<T>(bytes);
 	}
 #endif
-- 
2.43.0


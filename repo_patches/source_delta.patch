From 5dd171e7f43b48a29d552b668b85f53cd0ceafcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 001/100] fix: sse4 base64 decoder wrote past the end of its
 output

The vectorised loop stores 16 bytes per 12 decoded ones and relied on the
wrong block size when leaving the tail to the scalar decoder, overrunning the
output by up to three bytes (e.g. for 36 characters).
---
 src/base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index fa50c46..4bbad8f 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -226,7 +226,7 @@ namespace fastgltf::base64 {
     // allocate any new memory to hold the encoded data and let the fallback decoder decode the
     // remaining data.
 	const auto encodedSize = encoded.size();
-	const auto alignedSize = encodedSize - (encodedSize % dataOutputSize);
+	const auto alignedSize = encodedSize - (encodedSize % dataSetSize);
     auto* out = output;
 
     // _mm_setr_epi8 accepts only 'char' but 0xff would overflow a signed char, which makes some compilers unhappy.
-- 
2.43.0


From 2056935275db07265c979695786598d0ff37cf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 002/100] fix: base64 decoder read outside its lookup table for
 non-ASCII text

The table only covered 7-bit characters, but is indexed with any byte.
---
 src/base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index 4bbad8f..68151cc 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -364,7 +364,7 @@ fg::StaticVector<std::uint8_t> fg::base64::neon_decode(std::string_view encoded)
 
 // clang-format off
 // ASCII value -> base64 value LUT
-static constexpr std::array<std::uint8_t, 128> base64lut = {
+static constexpr std::array<std::uint8_t, 256> base64lut = {
     0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,62,0,0,0,63,
     52, 53, 54, 55, 56, 57, 58, 59, 60, 61,
     0,0,0,0,0,0,0,
-- 
2.43.0


From 84778d43f084e35c861bc2a9479295dad1e32985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:31 +0000
Subject: [PATCH 003/100] fix: decoding an empty base64 string read before its
 start

The encoding of no bytes is the empty string, which satisfies the documented
multiple-of-four requirement.
---
 src/base64.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/base64.cpp b/src/base64.cpp
index 68151cc..a85bd40 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -433,6 +433,10 @@ void fg::base64::decode_inplace(std::string_view encoded, std::uint8_t* output,
 fg::StaticVector<std::uint8_t> fg::base64::decode(std::string_view encoded) {
     assert(encoded.size() % 4 == 0);
 
+    if (encoded.empty()) {
+        return fg::StaticVector<std::uint8_t>(0);
+    }
+
     return DecodeFunctionGetter::get()->func(encoded);
 }
 
-- 
2.43.0


From f884aa03d1c11982f1e23ab730bc9fb331376130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:09 +0000
Subject: [PATCH 004/100] fix: URI authorities without a port or path were
 parsed incorrectly

An authority that was not followed by a slash threw std::out_of_range from a
noexcept function or read past the end, the first character of a host without
a port was dropped, and a colon in the path was taken for the port separator.
---
 src/fastgltf.cpp | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 4591179..438bba7 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -441,38 +441,35 @@ void fg::URIView::parse() {
 	if (startsWith(view.substr(idx), "//")) {
 		// URI has an authority part.
 		idx += 2;
-		auto nextSlash = view.find('/', idx);
-		auto userInfo = view.find('@', idx);
-		if (userInfo != std::string::npos && userInfo < nextSlash) {
-			_userinfo = view.substr(idx, userInfo - idx);
-			idx += _userinfo.size() + 1;
+		// The authority is terminated by the path, the query, the fragment, or the end of the URI.
+		const auto authorityEnd = std::min(view.find_first_of("/?#", idx), view.size());
+		auto authority = view.substr(idx, authorityEnd - idx);
+		if (const auto userInfo = authority.find('@'); userInfo != std::string::npos) {
+			_userinfo = authority.substr(0, userInfo);
+			authority.remove_prefix(userInfo + 1);
 		}
 
-		auto hostEnd = nextSlash - 1;
 		std::size_t portColon;
-		if (view[idx] == '[') {
-			hostEnd = view.find(']', idx);
+		if (startsWith(authority, "[")) {
+			const auto hostEnd = authority.find(']');
 			if (hostEnd == std::string::npos) {
 				_valid = false;
 				return;
 			}
 			// IPv6 addresses are made up of colons, so we need to search after its address.
 			// This will just be hostEnd + 1 or std::string::npos.
-			portColon = view.find(':', hostEnd);
+			portColon = authority.find(':', hostEnd);
+			_host = authority.substr(1, hostEnd - 1);
 		} else {
-			portColon = view.find(':', idx);
+			portColon = authority.find(':');
+			_host = authority.substr(0, portColon);
 		}
 
 		if (portColon != std::string::npos) {
-			_host = view.substr(idx, portColon - idx);
-			++portColon; // We don't want to include the colon in the port string.
-			_port = view.substr(portColon, nextSlash - portColon);
-		} else {
-			++idx;
-			_host = view.substr(idx, hostEnd - idx);
+			_port = authority.substr(portColon + 1); // We don't want to include the colon in the port string.
 		}
 
-		idx = nextSlash; // Path includes this slash
+		idx = authorityEnd; // Path includes this slash
 	}
 
 	if (_scheme == "data") {
-- 
2.43.0


From fb874034fac3a4b566a8d9a4a0fb0931d61c5450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:09 +0000
Subject: [PATCH 005/100] fix: URI delimiters were recognised outside of their
 component

A colon after the first slash, question mark or hash does not end a scheme, and
a question mark in the fragment does not start a query (RFC 3986, appendix B).
---
 src/fastgltf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 438bba7..7299743 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -426,8 +426,8 @@ void fg::URIView::parse() {
 	}
 
 	std::size_t idx = 0;
-	auto firstColon = view.find(':');
-	if (firstColon != std::string::npos) {
+	auto firstColon = view.find_first_of(":/?#");
+	if (firstColon != std::string::npos && view[firstColon] == ':') {
 		// URI has a scheme.
 		if (firstColon == 0) {
 			// Empty scheme is invalid
@@ -479,8 +479,8 @@ void fg::URIView::parse() {
 		_path = view.substr(idx);
 	} else {
 		// Parse the path.
-		auto questionIdx = view.find('?', idx);
 		auto hashIdx = view.find('#', idx);
+		auto questionIdx = view.substr(0, hashIdx).find('?', idx);
 		if (questionIdx != std::string::npos) {
 			_path = view.substr(idx, questionIdx - idx);
 
-- 
2.43.0


From a9b99cb10f60ec004d2417ab0a820b8a76db44ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:09 +0000
Subject: [PATCH 006/100] fix: percent-decoding read past the end of a URI
 ending in a percent sign

Incomplete or non-hexadecimal escapes are now left as they are.
---
 src/fastgltf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 7299743..32b4e77 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -628,7 +628,9 @@ void fg::URI::readjustViews(const URIView& other) {
 
 void fg::URI::decodePercents(std::string& x) noexcept {
 	for (std::size_t i = 0; i < x.size(); ++i) {
-		if (x[i] != '%')
+		if (x[i] != '%' || i + 2 >= x.size())
+			continue;
+		if (std::isxdigit(static_cast<unsigned char>(x[i + 1])) == 0 || std::isxdigit(static_cast<unsigned char>(x[i + 2])) == 0)
 			continue;
 
 		// Read the next two chars and store them
-- 
2.43.0


From 1102fc96264af7658835f35d7c94f738072d413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:09 +0000
Subject: [PATCH 007/100] fix: assigning to a URI kept components of the
 previous URI

Components that are empty in the assigned URI were not reset, the validity was
not copied, and a moved-from URI kept views into the moved string.
---
 src/fastgltf.cpp | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 32b4e77..76d48f1 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -29,6 +29,7 @@
 #error "fastgltf requires C++17"
 #endif
 
+#include <cctype>
 #include <fstream>
 #include <functional>
 #include <mutex>
@@ -410,13 +411,12 @@ fg::URIView& fg::URIView::operator=(const URIView& other) {
 	_port = other._port;
 	_query = other._query;
 	_fragment = other._fragment;
+	_valid = other._valid;
 	return *this;
 }
 
 fg::URIView& fg::URIView::operator=(std::string_view other) {
-	view = other;
-	parse();
-	return *this;
+	return *this = URIView { other };
 }
 
 void fg::URIView::parse() {
@@ -596,10 +596,6 @@ fg::URI& fg::URI::operator=(URI&& other) noexcept {
 	auto* oldData = other.uri.data();
 	uri = std::move(other.uri);
 
-	// Invalidate the previous URI's view.
-	view._valid = other.view._valid;
-	other.view._valid = false;
-
 	if (uri.data() != oldData) {
 		// Allocation changed, we need to readjust views
 		readjustViews(other.view);
@@ -607,6 +603,10 @@ fg::URI& fg::URI::operator=(URI&& other) noexcept {
 		// No reallocation happened, we can safely copy the view.
 		view = other.view;
 	}
+
+	// Invalidate the previous URI's view.
+	other.view = URIView {};
+	other.view._valid = false;
 	return *this;
 }
 
@@ -615,15 +615,18 @@ fg::URI::operator fg::URIView() const noexcept {
 }
 
 void fg::URI::readjustViews(const URIView& other) {
-	if (!other._scheme.empty())   { view._scheme     = std::string_view(uri.data() + (other._scheme.data()     - other.view.data()), other._scheme.size()); }
-	if (!other._path.empty())     { view._path       = std::string_view(uri.data() + (other._path.data()       - other.view.data()), other._path.size()); }
-	if (!other._userinfo.empty()) { view._userinfo   = std::string_view(uri.data() + (other._userinfo.data()   - other.view.data()), other._userinfo.size()); }
-	if (!other._host.empty())     { view._host       = std::string_view(uri.data() + (other._host.data()       - other.view.data()), other._host.size()); }
-	if (!other._port.empty())     { view._port       = std::string_view(uri.data() + (other._port.data()       - other.view.data()), other._port.size()); }
-	if (!other._query.empty())    { view._query      = std::string_view(uri.data() + (other._query.data()      - other.view.data()), other._query.size()); }
-	if (!other._fragment.empty()) { view._fragment   = std::string_view(uri.data() + (other._fragment.data()   - other.view.data()), other._fragment.size()); }
-
-	view.view = uri;
+	URIView adjusted;
+	if (!other._scheme.empty())   { adjusted._scheme     = std::string_view(uri.data() + (other._scheme.data()     - other.view.data()), other._scheme.size()); }
+	if (!other._path.empty())     { adjusted._path       = std::string_view(uri.data() + (other._path.data()       - other.view.data()), other._path.size()); }
+	if (!other._userinfo.empty()) { adjusted._userinfo   = std::string_view(uri.data() + (other._userinfo.data()   - other.view.data()), other._userinfo.size()); }
+	if (!other._host.empty())     { adjusted._host       = std::string_view(uri.data() + (other._host.data()       - other.view.data()), other._host.size()); }
+	if (!other._port.empty())     { adjusted._port       = std::string_view(uri.data() + (other._port.data()       - other.view.data()), other._port.size()); }
+	if (!other._query.empty())    { adjusted._query      = std::string_view(uri.data() + (other._query.data()      - other.view.data()), other._query.size()); }
+	if (!other._fragment.empty()) { adjusted._fragment   = std::string_view(uri.data() + (other._fragment.data()   - other.view.data()), other._fragment.size()); }
+
+	adjusted.view = uri;
+	adjusted._valid = other._valid;
+	view = adjusted;
 }
 
 void fg::URI::decodePercents(std::string& x) noexcept {
-- 
2.43.0


From 92531c5128feabea708c17490e719a7dfbe9e151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:39 +0000
Subject: [PATCH 008/100] fix: percent-encoded delimiters changed the
 components of a URI

URIs were decoded before they were split, so that for example the path
"a%23b.png" turned into the path "a" and the fragment "b.png".
---
 src/fastgltf.cpp | 60 ++++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 76d48f1..b519e54 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -539,25 +539,16 @@ bool fg::URIView::isDataUri() const noexcept {
 
 fg::URI::URI() noexcept = default;
 
-fg::URI::URI(std::string uri) noexcept : uri(std::move(uri)) {
-	decodePercents(this->uri);
-	view = this->uri; // Also parses.
+fg::URI::URI(std::string uri) noexcept {
+	*this = URIView { uri }; // Parses and decodes.
 }
 
-fg::URI::URI(std::string_view uri) noexcept : uri(uri) {
-	decodePercents(this->uri);
-	view = this->uri; // Also parses.
+fg::URI::URI(std::string_view uri) noexcept {
+	*this = URIView { uri }; // Parses and decodes.
 }
 
-fg::URI::URI(const URIView& view) noexcept : uri(view.view) {
-	auto oldSize = uri.size();
-	decodePercents(uri);
-	if (uri.size() == oldSize) {
-		readjustViews(view);
-	} else {
-		// Reparses the URI string
-		this->view = this->uri;
-	}
+fg::URI::URI(const URIView& view) noexcept {
+	*this = view;
 }
 
 // Some C++ stdlib implementations copy in some cases when moving strings, which invalidates the
@@ -579,16 +570,35 @@ fg::URI& fg::URI::operator=(const URI& other) {
 }
 
 fg::URI& fg::URI::operator=(const URIView& other) {
-	uri = other.view;
-	auto oldSize = uri.size();
-	decodePercents(uri);
-	if (uri.size() == oldSize) {
-		readjustViews(other);
-	} else {
-		// We removed some encoded chars, which have now invalidated all the string views.
-		// Therefore, the URI needs to be parsed again.
-		view = this->uri;
-	}
+	std::string decoded(other.view);
+	decodePercents(decoded);
+
+	// The decoded chars can be delimiters, which must not be mistaken for those that separate the
+	// components (RFC 3986, section 2.4). Therefore, the decoded string cannot be parsed again, and
+	// we instead find where the components of the encoded URI are in the decoded string.
+	const auto locate = [&](std::string_view component) -> std::string_view {
+		if (component.empty())
+			return {};
+		std::string before(other.view.substr(0, static_cast<std::size_t>(component.data() - other.view.data())));
+		std::string content(component);
+		decodePercents(before);
+		decodePercents(content);
+		return std::string_view(decoded).substr(before.size(), content.size());
+	};
+
+	URIView decodedView;
+	decodedView.view = decoded;
+	decodedView._scheme = locate(other._scheme);
+	decodedView._path = locate(other._path);
+	decodedView._userinfo = locate(other._userinfo);
+	decodedView._host = locate(other._host);
+	decodedView._port = locate(other._port);
+	decodedView._query = locate(other._query);
+	decodedView._fragment = locate(other._fragment);
+	decodedView._valid = other._valid;
+
+	uri = std::move(decoded);
+	readjustViews(decodedView);
 	return *this;
 }
 
-- 
2.43.0


From ab966f549e38a6a5d3cb4d3ee12a17505bb0e004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:55 +0000
Subject: [PATCH 009/100] fix: StaticVector::fromVector only copied one byte
 per element

---
 include/fastgltf/types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 4e373bf..6bbb226 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -647,7 +647,7 @@ namespace fastgltf {
 		static StaticVector<T> fromVector(std::vector<T> vector) {
 			StaticVector<T> staticVector(vector.size());
 			if constexpr (std::is_trivially_copyable_v<T>) {
-				std::memcpy(staticVector.data(), vector.data(), vector.size());
+				std::memcpy(staticVector.data(), vector.data(), staticVector.size_bytes());
 			} else {
 				for (auto it = vector.begin(); it != vector.end(); ++it) {
 					staticVector[std::distance(vector.begin(), it)] = *it;
-- 
2.43.0


From 1e8d96c2124c3aaea2d9e35c0d2158a871a11cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:55 +0000
Subject: [PATCH 010/100] fix: moved-from StaticVector claimed to still hold
 its elements

It kept its size without an array, so that copying it or iterating over it
dereferenced a null pointer.
---
 include/fastgltf/types.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 6bbb226..6a60ed5 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -632,12 +632,12 @@ namespace fastgltf {
 
         StaticVector(StaticVector&& other) noexcept {
             _array = std::move(other._array);
-            _size = other.size();
+            _size = std::exchange(other._size, 0);
         }
 
 		StaticVector& operator=(StaticVector&& other) noexcept {
 			_array = std::move(other._array);
-			_size = other.size();
+			_size = std::exchange(other._size, 0);
 			return *this;
 		}
 
@@ -657,11 +657,11 @@ namespace fastgltf {
 		}
 
         [[nodiscard]] pointer data() noexcept {
-            return &_array.get()[0];
+            return _array.get();
         }
 
         [[nodiscard]] const_pointer data() const noexcept {
-            return &_array.get()[0];
+            return _array.get();
         }
 
         [[nodiscard]] size_type size() const noexcept {
-- 
2.43.0


From db291360f907e38f7895d778bd1ba7e934450329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 011/100] fix: SmallVector::clear kept the capacity of the
 freed allocation

Adding elements after clearing a heap-allocated vector then wrote past the
inline storage. Growing an empty heap-allocated vector also leaked its memory.
---
 include/fastgltf/types.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 6a60ed5..4906da1 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -886,7 +886,7 @@ namespace fastgltf {
 			// Destroy all objects in the old allocation
 			std::destroy(begin(), end());
 
-            if (!isUsingStack() && _data && size() != 0) {
+            if (!isUsingStack() && _data) {
 				allocator.deallocate(_data, _capacity);
             }
 
@@ -999,6 +999,7 @@ namespace fastgltf {
 			if (!isUsingStack() && size() != 0) {
 				allocator.deallocate(_data, _capacity);
 				_data = reinterpret_cast<T*>(storage.data());
+				_capacity = N;
 			}
 
 			_size = 0;
-- 
2.43.0


From 2e61ec925c653cb912459b416c3f8617d9729ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 012/100] fix: moving a SmallVector leaked, double-owned or
 lost its memory

Move construction and assignment did not take the allocator along (so memory
from one memory resource was freed with another), leaked the memory and
elements of the assigned-to vector or kept its elements when the other one was
empty, and left the moved-from vector with a null pointer and a capacity.
---
 include/fastgltf/types.hpp | 80 ++++++++++++++++++++------------------
 1 file changed, 43 insertions(+), 37 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 4906da1..0cd5ae3 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -741,6 +741,37 @@ namespace fastgltf {
             }
         }
 
+		// Moves, or copies if they can't be moved safely, the elements into uninitialized memory and
+		// destroys the originals.
+		static void relocate(T* first, std::size_t count, T* result) {
+			for (std::size_t i = 0; i < count; ++i) {
+				auto& x = first[i];
+				if constexpr (std::is_nothrow_move_constructible_v<T>) {
+					new(result + i) T(std::move(x));
+				} else if constexpr (std::is_copy_constructible_v<T>) {
+					new(result + i) T(x);
+				} else {
+					new(result + i) T(std::move(x));
+				}
+			}
+			std::destroy(first, first + count);
+		}
+
+		// Takes over the elements of other, which needs to use an equal allocator. This has to be empty and
+		// not own any heap allocation.
+		void take(SmallVector& other) {
+			if (other.isUsingStack()) {
+				_data = reinterpret_cast<T*>(storage.data());
+				_capacity = N;
+				relocate(other._data, other._size, _data);
+			} else {
+				_data = std::exchange(other._data, reinterpret_cast<T*>(other.storage.data()));
+				_capacity = other._capacity;
+			}
+			_size = std::exchange(other._size, 0);
+			other._capacity = N;
+		}
+
     public:
 		using iterator = T*;
 		using const_iterator = const T*;
@@ -766,20 +797,8 @@ namespace fastgltf {
             copy(other.begin(), other.size(), begin());
         }
 
-        SmallVector(SmallVector&& other) noexcept : _data(reinterpret_cast<T*>(storage.data())) {
-            if (other.isUsingStack()) {
-                if (!other.empty()) {
-                    resize(other.size());
-                    copy(other.begin(), other.size(), begin());
-                    other._data = reinterpret_cast<T*>(other.storage.data()); // Reset pointer
-                    _size = std::exchange(other._size, 0);
-                    _capacity = std::exchange(other._capacity, N);
-                }
-            } else {
-                _data = std::exchange(other._data, nullptr);
-                _size = std::exchange(other._size, 0);
-                _capacity = std::exchange(other._capacity, N);
-            }
+        SmallVector(SmallVector&& other) noexcept : allocator(other.allocator), _data(reinterpret_cast<T*>(storage.data())) {
+            take(other);
         }
 
         SmallVector& operator=(const SmallVector& other) {
@@ -799,18 +818,17 @@ namespace fastgltf {
 
         SmallVector& operator=(SmallVector&& other) noexcept {
             if (std::addressof(other) != this) {
-                if (other.isUsingStack()) {
-                    if (!other.empty()) {
-                        resize(other.size());
-                        copy(other.begin(), other.size(), begin());
-                        other._data = reinterpret_cast<T*>(other.storage.data()); // Reset pointer
-                        _size = std::exchange(other._size, 0);
-                        _capacity = std::exchange(other._capacity, N);
+                clear();
+                if (allocator == other.allocator) {
+                    if (!isUsingStack()) {
+                        allocator.deallocate(_data, _capacity);
                     }
+                    take(other);
                 } else {
-                    _data = std::exchange(other._data, nullptr);
+                    // We cannot take over memory from a different allocator.
+                    reserve(other.size());
+                    relocate(other._data, other._size, _data);
                     _size = std::exchange(other._size, 0);
-                    _capacity = std::exchange(other._capacity, N);
                 }
             }
             return *this;
@@ -871,20 +889,8 @@ namespace fastgltf {
 
 			T* alloc = allocator.allocate(newCapacity);
 
-			// Copy/Move the old data into the new memory
-			for (std::size_t i = 0; i < size(); ++i) {
-				auto& x = (*this)[i];
-				if constexpr (std::is_nothrow_move_constructible_v<T>) {
-					new(alloc + i) T(std::move(x));
-				} else if constexpr (std::is_copy_constructible_v<T>) {
-					new(alloc + i) T(x);
-				} else {
-					new(alloc + i) T(std::move(x));
-				}
-			}
-
-			// Destroy all objects in the old allocation
-			std::destroy(begin(), end());
+			// Copy/Move the old data into the new memory and destroy all objects in the old allocation
+			relocate(begin(), size(), alloc);
 
             if (!isUsingStack() && _data) {
 				allocator.deallocate(_data, _capacity);
-- 
2.43.0


From a0f35335f3e87dd2c525a10310e6683062e65efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 013/100] fix: SmallVector::shrink_to_fit leaked and assigned
 to unconstructed elements

Shrinking back into the inline storage leaked the heap allocation and its
elements and assigned to raw memory.
---
 include/fastgltf/types.hpp | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 0cd5ae3..13e3d89 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -953,30 +953,19 @@ namespace fastgltf {
 
 		void shrink_to_fit() {
 			// Only have to shrink if there's any unused capacity.
-			if (capacity() == size() || size() == 0) {
+			if (capacity() == size() || size() == 0 || isUsingStack()) {
 				return;
 			}
 
-			// If we can use the object's memory again, we'll copy everything over.
-			if (size() <= N) {
-				copy(begin(), size(), reinterpret_cast<T*>(storage.data()));
-				_data = reinterpret_cast<T*>(storage.data());
-			} else {
-				// We have to use heap allocated memory.
-				auto* alloc = allocator.allocate(size());
-				for (std::size_t i = 0; i < size(); ++i) {
-					new(alloc + i) T((*this)[i]);
-				}
-
-				if (_data && !isUsingStack()) {
-					std::destroy(begin(), end());
-					allocator.deallocate(_data, _capacity);
-				}
-
-				_data = alloc;
-			}
+			// If we can use the object's memory again, we'll move everything over. Otherwise, we have to
+			// use heap allocated memory.
+			const auto newCapacity = size() <= N ? N : size();
+			auto* memory = size() <= N ? reinterpret_cast<T*>(storage.data()) : allocator.allocate(newCapacity);
+			relocate(begin(), size(), memory);
+			allocator.deallocate(_data, _capacity);
 
-			_capacity = _size;
+			_data = memory;
+			_capacity = newCapacity;
 		}
 
 		void assign(std::size_t count, const T& value) {
-- 
2.43.0


From f7c267e6ced397b0f97a9e1f083434355e6dc23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 014/100] fix: SmallVector's reverse iterators did not compile
 when used

---
 include/fastgltf/types.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 13e3d89..713e674 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -851,12 +851,12 @@ namespace fastgltf {
 	    [[nodiscard]] const_iterator end() const noexcept { return begin() + size(); }
 	    [[nodiscard]] const_iterator cend() const noexcept { return begin() + size(); }
 
-        [[nodiscard]] std::reverse_iterator<T*> rbegin() { return end(); }
-        [[nodiscard]] std::reverse_iterator<const T*> rbegin() const { return end(); }
-        [[nodiscard]] std::reverse_iterator<const T*> crbegin() const { return end(); }
-        [[nodiscard]] std::reverse_iterator<T*> rend() { return begin(); }
-        [[nodiscard]] std::reverse_iterator<const T*> rend() const { return begin(); }
-        [[nodiscard]] std::reverse_iterator<const T*> crend() const { return begin(); }
+        [[nodiscard]] std::reverse_iterator<T*> rbegin() { return std::reverse_iterator<T*>(end()); }
+        [[nodiscard]] std::reverse_iterator<const T*> rbegin() const { return std::reverse_iterator<const T*>(end()); }
+        [[nodiscard]] std::reverse_iterator<const T*> crbegin() const { return std::reverse_iterator<const T*>(end()); }
+        [[nodiscard]] std::reverse_iterator<T*> rend() { return std::reverse_iterator<T*>(begin()); }
+        [[nodiscard]] std::reverse_iterator<const T*> rend() const { return std::reverse_iterator<const T*>(begin()); }
+        [[nodiscard]] std::reverse_iterator<const T*> crend() const { return std::reverse_iterator<const T*>(begin()); }
 
         [[nodiscard]] T* data() noexcept { return _data; }
         [[nodiscard]] const T* data() const noexcept { return _data; }
-- 
2.43.0


From 7f3c4ba6d2cbe817995935c82777ca3ab7319757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 015/100] fix: optional floats treated an ordinary number as
 missing

The flag value is documented to be a NaN with a specific bit pattern, but was
the number the bits represent as an integer (2146350848 for floats), so an
optional that was set to it was empty.
---
 include/fastgltf/types.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 713e674..2baf219 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1095,12 +1095,12 @@ namespace fastgltf {
 	struct OptionalFlagValue<float, std::enable_if_t<std::numeric_limits<float>::is_iec559>> {
 		// This float is a quiet NaN with a specific bit pattern to be able to differentiate
 		// between this flag value and any result from FP operations.
-		static constexpr auto missing_value = static_cast<float>(0x7fedb6db);
+		static constexpr std::uint32_t missing_value = 0x7fedb6db;
 	};
 
 	template<>
 	struct OptionalFlagValue<double, std::enable_if_t<std::numeric_limits<double>::is_iec559>> {
-		static constexpr auto missing_value = static_cast<double>(0x7ffdb6db6db6db6d);
+		static constexpr std::uint64_t missing_value = 0x7ffdb6db6db6db6d;
 	};
 
 	template<>
@@ -1234,7 +1234,14 @@ namespace fastgltf {
 		}
 
 		[[nodiscard]] bool has_value() const {
-			return this->_value != OptionalFlagValue<T>::missing_value;
+			if constexpr (std::is_floating_point_v<T>) {
+				// The flag value is a NaN, which we can only compare by its bits.
+				auto bits = OptionalFlagValue<T>::missing_value;
+				std::memcpy(&bits, std::addressof(_value), sizeof(T));
+				return bits != OptionalFlagValue<T>::missing_value;
+			} else {
+				return this->_value != OptionalFlagValue<T>::missing_value;
+			}
 		}
 
 		[[nodiscard]] T& value()& {
@@ -1362,7 +1369,13 @@ namespace fastgltf {
 		}
 
 		void reset() noexcept {
-			this->_value = OptionalFlagValue<T>::missing_value;
+			if constexpr (std::is_floating_point_v<T>) {
+				constexpr auto bits = OptionalFlagValue<T>::missing_value;
+				static_assert(sizeof(bits) == sizeof(T));
+				std::memcpy(std::addressof(_value), &bits, sizeof(T));
+			} else {
+				this->_value = OptionalFlagValue<T>::missing_value;
+			}
 		}
 
 		template <typename... Args>
-- 
2.43.0


From e0bd7a0f6c3de40930f0b01f85cc306e41b0a90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 016/100] fix: swapping or converting an optional duplicated or
 lost its value

Swapping with an empty optional left the value in both, and the conversion of
a temporary to std::optional returned a reference to a local object.
---
 include/fastgltf/types.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 2baf219..d5de77c 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1363,8 +1363,10 @@ namespace fastgltf {
 				std::swap(_value, other._value);
 			} else if (has_value() && !other.has_value()) {
 				other._value = std::move(_value);
+				reset();
 			} else if (!has_value() && other.has_value()) {
 				_value = std::move(other._value);
+				other.reset();
 			}
 		}
 
@@ -1419,11 +1421,11 @@ namespace fastgltf {
 			return std::move(_value);
 		}
 
-		operator std::optional<T>() const noexcept {
+		operator std::optional<T>() const& noexcept {
 			return has_value() ? std::optional<T>(_value) : std::nullopt;
 		}
 
-		operator std::optional<T>&&()&& noexcept {
+		operator std::optional<T>()&& noexcept {
 			return has_value() ? std::optional<T>(std::move(_value)) : std::nullopt;
 		}
 	};
-- 
2.43.0


From 2473307e363a5a89ac8047a3a6f93dd3d1240e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:00 +0000
Subject: [PATCH 017/100] fix: dividing a quaternion by a scalar multiplied it

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 2112fa6..f874fee 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -514,7 +514,7 @@ namespace fastgltf::math {
 		}
 
 		constexpr auto operator/(T scalar) const noexcept {
-			return quat<T>(*this) *= scalar;
+			return quat<T>(*this) /= scalar;
 		}
 		constexpr auto operator/=(T scalar) noexcept {
 			for (std::size_t i = 0; i < 4; ++i)
-- 
2.43.0


From 1f1b3396c771472d6648a363a21b1cf71d70160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:00 +0000
Subject: [PATCH 018/100] fix: constructing a non-square matrix from scalars
 misplaced them

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index f874fee..ef5c0e1 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -629,7 +629,7 @@ namespace fastgltf::math {
 
 		template <typename... Args, std::size_t... i>
 		constexpr void copy_values(const std::tuple<Args...>& tuple, std::integer_sequence<std::size_t, i...>) noexcept {
-			(..., (_data[i / M][i % N] = std::get<i>(std::move(tuple))));
+			(..., (_data[i / N][i % N] = std::get<i>(std::move(tuple))));
 		}
 
 	public:
-- 
2.43.0


From b5fe6965df5a8e2a8c8e4bfce3c90c37efb94481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:00 +0000
Subject: [PATCH 019/100] fix: comparing non-square matrices used the wrong
 number of columns

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index ef5c0e1..2c2b617 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -717,7 +717,7 @@ namespace fastgltf::math {
 		}
 
 		[[nodiscard]] constexpr bool operator==(const mat<T, N, M>& other) const noexcept {
-			for (std::size_t i = 0; i < N; ++i)
+			for (std::size_t i = 0; i < columns(); ++i)
 				if (col(i) != other.col(i))
 					return false;
 			return true;
-- 
2.43.0


From 87e6e99909f0cede6c579de78d3b30eafa949f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:00 +0000
Subject: [PATCH 020/100] fix: multiplying a non-square matrix with a vector
 used the wrong size

---
 include/fastgltf/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 2c2b617..116046f 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -740,7 +740,7 @@ namespace fastgltf::math {
 			return ret;
 		}
 		constexpr auto operator*(vec<T, M> other) const noexcept {
-			vec<T, M> ret = col(0) * other[0];
+			vec<T, N> ret = col(0) * other[0];
 			for (std::size_t i = 1; i < columns(); ++i)
 				ret += col(i) * other[i];
 			return ret;
-- 
2.43.0


From c409b9a5bcc44af3b94ff4da4a2aa062d3cb4504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:24 +0000
Subject: [PATCH 021/100] fix: enlarging a non-square matrix did not initialise
 new components to identity

---
 include/fastgltf/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index 116046f..c2dab8f 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -663,7 +663,8 @@ namespace fastgltf::math {
 		template <std::size_t Q, std::size_t P, std::enable_if_t<Q < N && P < M, bool> = true>
 		constexpr explicit mat(const mat<T, Q, P>& other) noexcept : mat(T(1)) {
 			for (std::size_t i = 0; i < other.columns(); ++i)
-				(*this).col(i) = vec<T, N>(other.col(i));
+				for (std::size_t j = 0; j < other.rows(); ++j)
+					(*this).col(i)[j] = other.col(i)[j];
 		}
 
 		constexpr mat& operator=(const mat& other) = default;
-- 
2.43.0


From 9f173d75014c515caf8713c0ced53a0e34f3e3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 022/100] fix: scenes without nodes were dropped from the asset

---
 src/fastgltf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index b519e54..21b0146 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3942,11 +3942,11 @@ fg::Error fg::Parser::parseScenes(const simdjson::dom::array& scenes, Asset& ass
 
                 scene.nodeIndices.emplace_back(static_cast<std::size_t>(index));
             }
-
-            asset.scenes.emplace_back(std::move(scene));
         } else if (nodeError != Error::MissingField) {
             return nodeError;
         }
+
+        asset.scenes.emplace_back(std::move(scene));
     }
 
 	return Error::None;
-- 
2.43.0


From 0b6b73d29ce11eede0b27f837a54630415b2dda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 023/100] fix: nodes with morph target weights were refused and
 their weights ignored

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 21b0146..9b0a9e6 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3648,7 +3648,7 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
 
         auto weightsError = getJsonArray(nodeObject, "weights", &array);
         if (weightsError != Error::MissingField) {
-            if (weightsError != Error::None) {
+            if (weightsError == Error::None) {
 	            node.weights = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(node.weights), resourceAllocator.get(), 0);
                 node.weights.reserve(array.size());
                 for (auto weightValue : array) {
-- 
2.43.0


From b9ea4b4c619b6451390483bfe63c83dc8711055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 024/100] fix: unknown top-level members made a document
 invalid

---
 src/fastgltf.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 9b0a9e6..dd3c4fd 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1563,11 +1563,11 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 		}
 
 		dom::array array;
-		if (object.value.get_array().get(array) != SUCCESS) FASTGLTF_UNLIKELY {
-			return Error::InvalidGltf;
-		}
+		const auto arrayError = object.value.get_array().get(array);
 
 #define KEY_SWITCH_CASE(name, id) case force_consteval<crc32c(FASTGLTF_QUOTE(id))>:       \
+                if (arrayError != SUCCESS)                \
+                    return Error::InvalidGltf;            \
                 if (hasBit(categories, Category::name))   \
                     error = parse##name(array, asset);                     \
                 readCategories |= Category::name;         \
@@ -1589,6 +1589,9 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			KEY_SWITCH_CASE(Skins, skins)
 			KEY_SWITCH_CASE(Textures, textures)
 			case force_consteval<crc32c("extensionsUsed")>: {
+				if (arrayError != SUCCESS) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
+				}
 				for (auto usedValue : array) {
 					std::string_view usedString;
 					if (auto eError = usedValue.get_string().get(usedString); eError == SUCCESS) FASTGLTF_LIKELY {
@@ -1602,6 +1605,9 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			}
 			case force_consteval<crc32c("extensionsRequired")>: {
 				// These are already parsed before this section.
+				if (arrayError != SUCCESS) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
+				}
 				break;
 			}
 			default:
-- 
2.43.0


From 7a31c38ca1bff6b243ea3ecf61ce40606e842082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:43 +0000
Subject: [PATCH 025/100] fix: the base color texture leaked its transform into
 the metallic roughness texture

---
 src/fastgltf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index dd3c4fd..19cdb68 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3338,9 +3338,10 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 				return Error::InvalidGltf;
 			}
 
-	        TextureInfo textureInfo;
+	        TextureInfo textureInfo = {};
             if (auto error = parseTextureInfo(pbrMetallicRoughness, "baseColorTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
                 pbr.baseColorTexture = std::move(textureInfo);
+                textureInfo = {};
             } else if (error != Error::MissingField) {
                 return error;
             }
-- 
2.43.0


From ff9f1e970e5ef8707bc9ae1e0b59bf242c0c319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:13 +0000
Subject: [PATCH 026/100] fix: detecting the type of a file read beyond short
 data and missed objects after whitespace

---
 src/fastgltf.cpp | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 19cdb68..a849068 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -70,6 +70,8 @@ namespace fastgltf {
     constexpr std::uint32_t binaryGltfJsonChunkMagic = 0x4E4F534A;
     constexpr std::uint32_t binaryGltfDataChunkMagic = 0x004E4942;
 
+    constexpr std::uint32_t utf8ByteOrderMark = 0xBFBBEF;
+
     struct BinaryGltfHeader {
         std::uint32_t magic;
         std::uint32_t version;
@@ -4833,25 +4835,40 @@ fg::Error fg::Parser::parsePhysicsRigidBody(simdjson::dom::object& khr_physics_r
 
 #pragma region Parser
 fg::GltfType fg::determineGltfFileType(GltfDataGetter& data) {
-	// We'll try and read a BinaryGltfHeader from the buffer to see if the magic is correct.
-	auto header = readBinaryHeader(data);
 	data.reset();
-	if (header.magic == binaryGltfHeaderMagic) {
+	const auto size = data.totalSize();
+
+	// Read the first four bytes to see if they are the magic of a binary glTF, or a UTF-8 byte order mark.
+	std::array<std::byte, sizeof(BinaryGltfHeader::magic)> begin = {};
+	data.read(begin.data(), std::min(begin.size(), size));
+	data.reset();
+
+	std::uint32_t magic = 0;
+	readUint32LE(magic, begin.data());
+	if (magic == binaryGltfHeaderMagic) {
 		return GltfType::GLB;
 	}
 
-	// First, check if any of the first four characters is a '{'.
-	std::array<std::uint8_t, 4> begin = {};
-	data.read(begin.data(), begin.size());
-	data.reset();
-	for (const auto& i : begin) {
-		if (static_cast<char>(i) == ' ')
+	std::size_t offset = 0;
+	if ((magic & 0xFFFFFFU) == utf8ByteOrderMark) {
+		offset = 3;
+		data.read(begin.data(), offset);
+	}
+
+	// Check if the first character that is not whitespace is a '{'.
+	auto type = GltfType::Invalid;
+	for (; offset < size; ++offset) {
+		char c = 0;
+		data.read(&c, 1);
+		if (c == ' ' || c == '\t' || c == '\n' || c == '\r')
 			continue;
-		if (static_cast<char>(i) == '{')
-			return GltfType::glTF;
+		if (c == '{')
+			type = GltfType::glTF;
+		break;
 	}
+	data.reset();
 
-	return GltfType::Invalid;
+	return type;
 }
 
 fg::Parser::Parser(Extensions extensionsToLoad) noexcept {
-- 
2.43.0


From 8f2b2b0e331305c71004b486d43a80bdc5351287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:13 +0000
Subject: [PATCH 027/100] fix: the lengths in binary files were not checked
 against each other and the data

---
 src/fastgltf.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index a849068..09b204c 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4940,6 +4940,10 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 
 	data.reset();
 
+    if (data.totalSize() < sizeof(BinaryGltfHeader) + sizeof(BinaryGltfChunk)) {
+	    return Error::InvalidGLB;
+    }
+
     auto header = readBinaryHeader(data);
     if (header.magic != binaryGltfHeaderMagic) {
 	    return Error::InvalidGLB;
@@ -4947,7 +4951,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 	if (header.version != 2) {
 		return Error::UnsupportedVersion;
 	}
-    if (header.length > data.totalSize()) {
+    if (header.length > data.totalSize() || header.length < sizeof(BinaryGltfHeader) + sizeof(BinaryGltfChunk)) {
 	    return Error::InvalidGLB;
     }
 
@@ -4955,7 +4959,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
     //  1. JSON chunk
     //  2. BIN chunk (optional)
     auto jsonChunk = readBinaryChunk(data);
-    if (jsonChunk.chunkType != binaryGltfJsonChunkMagic || jsonChunk.chunkLength > data.totalSize() - sizeof(BinaryGltfHeader)) {
+    if (jsonChunk.chunkType != binaryGltfJsonChunkMagic || jsonChunk.chunkLength > header.length - data.bytesRead()) {
 	    return Error::InvalidGLB;
     }
 
@@ -4981,7 +4985,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 
 		// TODO: Somehow allow skipping the binary part in the future?
 		if (binaryChunk.chunkLength != 0) {
-			if (binaryChunk.chunkLength > data.totalSize() - data.bytesRead()) {
+			if (binaryChunk.chunkLength > header.length - data.bytesRead()) {
 				return Error::InvalidGLB;
 			}
 
-- 
2.43.0


From bdd60eaf1527ae74fa1736da326fd80cfb0d7be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:13 +0000
Subject: [PATCH 028/100] fix: the binary chunk of an earlier load was used for
 later documents

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 09b204c..09f7009 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4906,6 +4906,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfJson(GltfDataGetter& data, fs::path
 
 	options = _options;
 	directory = std::move(_directory);
+	glbBuffer = std::monostate {};
 
 #if !defined(__ANDROID__)
     // If we never have to load the files ourselves, we're fine with the directory being invalid/blank.
@@ -4932,6 +4933,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 
 	options = _options;
 	directory = std::move(_directory);
+	glbBuffer = std::monostate {};
 
     // If we never have to load the files ourselves, we're fine with the directory being invalid/blank.
     if (std::error_code ec; hasBit(options, Options::LoadExternalBuffers) && (!fs::is_directory(directory, ec) || ec)) {
-- 
2.43.0


From 84f36fa932902801699ec21c2c0ea58b156b8a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:13 +0000
Subject: [PATCH 029/100] fix: memory mapped files had no padding for the JSON
 parser

---
 src/io.cpp | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 40a7eb1..6f7dc37 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -192,6 +192,11 @@ fg::MappedGltfFile::MappedGltfFile(const fs::path& path) noexcept {
 	}
 	mappedFile = map;
 #else
+/** The amount of memory that has to be mapped for a file of the given size, including the padding for simdjson. */
+static std::size_t getMappedSize(std::size_t fileSize) noexcept {
+	return fileSize + simdjson::SIMDJSON_PADDING;
+}
+
 fg::MappedGltfFile::MappedGltfFile(const fs::path& path) noexcept : mappedFile(MAP_FAILED) {
 	// Open the file
 	const auto fd = open(path.c_str(), O_RDONLY, 0);
@@ -204,19 +209,33 @@ fg::MappedGltfFile::MappedGltfFile(const fs::path& path) noexcept : mappedFile(M
 	// Get the file size
 	struct stat statInfo {};
 	if (fstat(fd, &statInfo) != 0) {
+		close(fd);
 		error = Error::InvalidPath;
 		return;
 	}
 
-	// Map the file
+	// Reserve enough memory for the file and the padding simdjson needs, and map the file over it.
+	// Accessing anything behind the last page of a file would otherwise be an invalid access.
+	const auto size = static_cast<std::size_t>(statInfo.st_size);
 	mappedFile = mmap(nullptr,
-					  statInfo.st_size,
+					  getMappedSize(size),
 					  PROT_READ,
-					  MAP_PRIVATE,
-					  fd,
+					  MAP_PRIVATE | MAP_ANONYMOUS,
+					  -1,
 					  0);
+	if (mappedFile != MAP_FAILED &&
+		mmap(mappedFile,
+			 size,
+			 PROT_READ,
+			 MAP_PRIVATE | MAP_FIXED,
+			 fd,
+			 0) == MAP_FAILED) {
+		munmap(mappedFile, getMappedSize(size));
+		mappedFile = MAP_FAILED;
+	}
+
 	if (mappedFile != MAP_FAILED) {
-		fileSize = static_cast<std::uint64_t>(statInfo.st_size);
+		fileSize = static_cast<std::uint64_t>(size);
 
 		// Hint about map access
 		madvise(mappedFile, fileSize, MADV_SEQUENTIAL);
@@ -260,8 +279,8 @@ fg::MappedGltfFile& fg::MappedGltfFile::operator=(fastgltf::MappedGltfFile &&oth
 	}
 	fileHandle = std::exchange(other.fileHandle, nullptr);
 #else
-	if (mappedFile != MAP_FAILED) {
-		munmap(mappedFile, fileSize);
+	if (mappedFile != nullptr && mappedFile != MAP_FAILED) {
+		munmap(mappedFile, getMappedSize(fileSize));
 	}
 	mappedFile = std::exchange(other.mappedFile, MAP_FAILED);
 #endif
@@ -283,8 +302,8 @@ fg::MappedGltfFile::~MappedGltfFile() noexcept {
 		CloseHandle(fileHandle);
 	}
 #else
-	if (mappedFile != MAP_FAILED) {
-		munmap(mappedFile, fileSize);
+	if (mappedFile != nullptr && mappedFile != MAP_FAILED) {
+		munmap(mappedFile, getMappedSize(fileSize));
 	}
 #endif
 }
-- 
2.43.0


From f825302c456f4418bed62b0b6ece07498bf83c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:13 +0000
Subject: [PATCH 030/100] fix: opening a file stream for a file that does not
 exist threw an exception

---
 src/io.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io.cpp b/src/io.cpp
index 6f7dc37..107c10b 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -119,7 +119,11 @@ std::size_t fg::GltfDataBuffer::totalSize() {
 }
 
 fg::GltfFileStream::GltfFileStream(const fs::path& path) : fileStream(path, std::ios::binary) {
-	fileSize = fs::file_size(path);
+	std::error_code ec;
+	fileSize = fs::file_size(path, ec);
+	if (ec) {
+		fileSize = 0;
+	}
 }
 
 bool fg::GltfFileStream::isOpen() const {
-- 
2.43.0


From e92af19c6007d645101d1c92a00b089e1e8985c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:28 +0000
Subject: [PATCH 031/100] fix: nodes with a matrix and any extension were
 refused when punctual lights were enabled

---
 src/fastgltf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 09f7009..c7366d6 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3760,14 +3760,14 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
         if (nodeObject["extensions"].get_object().get(extensionsObject) == SUCCESS) FASTGLTF_LIKELY {
 			if (hasBit(config.extensions, Extensions::KHR_lights_punctual)) {
 				dom::object lightsObject;
-				if (extensionsObject[extensions::KHR_lights_punctual].get_object().get(lightsObject) == SUCCESS) FASTGLTF_LIKELY {
+				if (auto lightsError = extensionsObject[extensions::KHR_lights_punctual].get_object().get(lightsObject); lightsError == SUCCESS) FASTGLTF_LIKELY {
 					std::uint64_t light;
 					if (auto lightError = lightsObject["light"].get_uint64().get(light); lightError == SUCCESS) FASTGLTF_LIKELY {
 						node.lightIndex = static_cast<std::size_t>(light);
 					} else {
 						return lightError == NO_SUCH_FIELD || lightError == INCORRECT_TYPE ? Error::InvalidGltf : Error::InvalidJson;
 					}
-				} else if (error != NO_SUCH_FIELD) {
+				} else if (lightsError != NO_SUCH_FIELD) {
 					return Error::InvalidGltf;
 				}
 			}
-- 
2.43.0


From b9c44d6a208d5c438ae1ea789b90fc838eba554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:28 +0000
Subject: [PATCH 032/100] fix: box shapes without a size became spheres

---
 src/fastgltf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index c7366d6..a68f77e 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4112,13 +4112,14 @@ fg::Error fg::Parser::parseShapes(const simdjson::dom::array& shapes, Asset& ass
 				return Error::InvalidGltf;
 		    }
 
+			auto& box = shape.emplace<BoxShape>();
+
 			dom::array sizeArray;
 			if (error = boxObject["size"].get_array().get(sizeArray); error == SUCCESS) {
 			    if (sizeArray.size() != 3) {
 					return Error::InvalidGltf;
 			    }
 
-				auto& box = shape.emplace<BoxShape>();
 				auto curIndex = 0;
 				for (auto sizeNum : sizeArray) {
 					double value;
-- 
2.43.0


From 7a4689d7cc3f1963d617a48041256dd836890861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:28 +0000
Subject: [PATCH 033/100] fix: packed textures leaked their properties into the
 next packed texture

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index a68f77e..bd6aef8 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3162,12 +3162,14 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 				TextureInfo textureInfo = {};
 				if (auto error = parseTextureInfo(occlusionRoughnessMetallic, "occlusionRoughnessMetallicTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
 					packedTextures->occlusionRoughnessMetallicTexture = std::move(textureInfo);
+					textureInfo = {};
 				} else if (error != Error::MissingField) {
 					return error;
 				}
 
 				if (auto error = parseTextureInfo(occlusionRoughnessMetallic, "roughnessMetallicOcclusionTexture", &textureInfo, config.extensions); error == Error::None) FASTGLTF_LIKELY {
 					packedTextures->roughnessMetallicOcclusionTexture = std::move(textureInfo);
+					textureInfo = {};
 				} else if (error != Error::MissingField) {
 					return error;
 				}
-- 
2.43.0


From f22fb4cc8d724ea7cf72d8aa4b8fdc539b622017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:25 +0000
Subject: [PATCH 034/100] fix: double accessors needed both
 Options::AllowDouble and KHR_accessor_float64

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index bd6aef8..996d1a7 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1662,7 +1662,7 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
             return Error::InvalidGltf;
         }
 		accessor.componentType = getComponentType(static_cast<std::underlying_type_t<ComponentType>>(componentType));
-        if (accessor.componentType == ComponentType::Double && (!hasBit(options, Options::AllowDouble) || !hasBit(config.extensions, Extensions::KHR_accessor_float64))) {
+        if (accessor.componentType == ComponentType::Double && (!hasBit(options, Options::AllowDouble) && !hasBit(config.extensions, Extensions::KHR_accessor_float64))) {
             return Error::InvalidGltf;
         }
 
-- 
2.43.0


From e89384cd361e96f45ea05cc30f39df95a30e2654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:39 +0000
Subject: [PATCH 035/100] fix: errors in material extensions were ignored

---
 src/fastgltf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 996d1a7..6dd1ea4 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3395,7 +3395,9 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 
         dom::object extensionsObject;
         if (auto extensionError = materialObject["extensions"].get_object().get(extensionsObject); extensionError == SUCCESS) {
-			parseMaterialExtensions(extensionsObject, material);
+			if (auto error = parseMaterialExtensions(extensionsObject, material); error != Error::None) FASTGLTF_UNLIKELY {
+				return error;
+			}
         } else if (extensionError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidJson;
         }
-- 
2.43.0


From 68715cb091055ee344f1d35c3a42d7986231ea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:39 +0000
Subject: [PATCH 036/100] fix: material factors of the wrong length or type
 were accepted

---
 src/fastgltf.cpp | 49 ++++++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 6dd1ea4..efd0130 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -2899,17 +2899,19 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 
 				dom::array diffuseTransmissionColorFactor;
 				if (auto error = diffuseTransmissionObject["diffuseTransmissionColorFactor"].get_array().get(diffuseTransmissionColorFactor); error == SUCCESS) FASTGLTF_LIKELY {
+					if (diffuseTransmissionColorFactor.size() != diffuseTransmission->diffuseTransmissionColorFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
 					for (auto factor: diffuseTransmissionColorFactor) {
-						if (i >= diffuseTransmission->diffuseTransmissionColorFactor.size()) {
-							return Error::InvalidGltf;
-						}
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
 						}
 						diffuseTransmission->diffuseTransmissionColorFactor[i++] = static_cast<num>(value);
 					}
+				} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
 				}
 
 				TextureInfo diffuseTransmissionColorTexture;
@@ -2938,11 +2940,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 				dom::array sheenColorFactor;
 				if (auto error = sheenObject["sheenColorFactor"].get_array().get(sheenColorFactor); error ==
 																									SUCCESS) {
+					if (sheenColorFactor.size() != sheen->sheenColorFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
 					for (auto factor: sheenColorFactor) {
-						if (i >= sheen->sheenColorFactor.size()) {
-							return Error::InvalidGltf;
-						}
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -3011,11 +3013,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 				dom::array specularColorFactor;
 				if (auto error = specularObject["specularColorFactor"].get_array().get(specularColorFactor);
 						error == SUCCESS) FASTGLTF_LIKELY {
+					if (specularColorFactor.size() != specular->specularColorFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
 					for (auto factor: specularColorFactor) {
-						if (i >= specular->specularColorFactor.size()) {
-							return Error::InvalidGltf;
-						}
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -3116,11 +3118,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 
 				dom::array attenuationColor;
 				if (auto error = volumeObject["attenuationColor"].get_array().get(attenuationColor); error == SUCCESS) FASTGLTF_LIKELY {
+					if (attenuationColor.size() != volume->attenuationColor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
 					for (auto factor : attenuationColor) {
-						if (i >= volume->attenuationColor.size()) {
-							return Error::InvalidGltf;
-						}
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -3196,11 +3198,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 
 				dom::array diffuseFactor;
 				if (auto error = specularGlossinessObject["diffuseFactor"].get_array().get(diffuseFactor); error == SUCCESS) FASTGLTF_LIKELY {
+					if (diffuseFactor.size() != specularGlossiness->diffuseFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
 					for (auto factor : diffuseFactor) {
-						if (i >= specularGlossiness->diffuseFactor.size()) {
-							return Error::InvalidGltf;
-						}
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -3220,11 +3222,11 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 
 				dom::array specularFactor;
 				if (auto error = specularGlossinessObject["specularFactor"].get_array().get(specularFactor); error == SUCCESS) FASTGLTF_LIKELY {
+					if (specularFactor.size() != specularGlossiness->specularFactor.size()) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					std::size_t i = 0;
 					for (auto factor : specularFactor) {
-						if (i >= specularGlossiness->specularFactor.size()) {
-							return Error::InvalidGltf;
-						}
 						double value;
 						if (factor.get_double().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
 							return Error::InvalidGltf;
@@ -3316,11 +3318,14 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 	    }
 
         dom::object pbrMetallicRoughness;
-        if (materialObject["pbrMetallicRoughness"].get_object().get(pbrMetallicRoughness) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto pbrError = materialObject["pbrMetallicRoughness"].get_object().get(pbrMetallicRoughness); pbrError == SUCCESS) FASTGLTF_LIKELY {
             PBRData pbr = {};
 
             dom::array baseColorFactor;
-            if (pbrMetallicRoughness["baseColorFactor"].get_array().get(baseColorFactor) == SUCCESS) FASTGLTF_LIKELY {
+            if (auto error = pbrMetallicRoughness["baseColorFactor"].get_array().get(baseColorFactor); error == SUCCESS) FASTGLTF_LIKELY {
+                if (baseColorFactor.size() != 4) FASTGLTF_UNLIKELY {
+                    return Error::InvalidGltf;
+                }
                 for (auto i = 0U; i < 4; ++i) {
                     double val;
                     if (baseColorFactor.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -3328,6 +3333,8 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
                     }
                     pbr.baseColorFactor[i] = static_cast<num>(val);
                 }
+            } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
             }
 
             double factor;
@@ -3357,6 +3364,8 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
             }
 
             material.pbrData = std::move(pbr);
+        } else if (pbrError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         std::string_view alphaMode;
-- 
2.43.0


From 4471e40291eb41ae93dd7aa706baa323a1c15b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:39 +0000
Subject: [PATCH 037/100] fix: malformed texture transforms and texture info
 extensions were ignored

---
 src/fastgltf.cpp | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index efd0130..64ff417 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -349,23 +349,32 @@ namespace fastgltf {
 		}
 
 		dom::object extensionsObject;
-		if (child["extensions"].get_object().get(extensionsObject) == SUCCESS) FASTGLTF_LIKELY {
+		if (auto extensionsError = child["extensions"].get_object().get(extensionsObject); extensionsError == SUCCESS) FASTGLTF_LIKELY {
 			dom::object textureTransform;
-			if (hasBit(extensions, Extensions::KHR_texture_transform) && extensionsObject[extensions::KHR_texture_transform].get_object().get(textureTransform) == SUCCESS) FASTGLTF_LIKELY {
+			auto transformError = hasBit(extensions, Extensions::KHR_texture_transform)
+				? extensionsObject[extensions::KHR_texture_transform].get_object().get(textureTransform) : NO_SUCH_FIELD;
+			if (transformError == SUCCESS) FASTGLTF_LIKELY {
 				auto transform = std::make_unique<TextureTransform>();
 				transform->rotation = 0.0F;
 
-				if (textureTransform["texCoord"].get_uint64().get(index) == SUCCESS) FASTGLTF_LIKELY {
+				if (auto error = textureTransform["texCoord"].get_uint64().get(index); error == SUCCESS) FASTGLTF_LIKELY {
 					transform->texCoordIndex = index;
+				} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
 				}
 
 				double rotation = 0.0F;
-				if (textureTransform["rotation"].get_double().get(rotation) == SUCCESS) FASTGLTF_LIKELY {
+				if (auto error = textureTransform["rotation"].get_double().get(rotation); error == SUCCESS) FASTGLTF_LIKELY {
 					transform->rotation = static_cast<num>(rotation);
+				} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
 				}
 
 				dom::array array;
-				if (textureTransform["offset"].get_array().get(array) == SUCCESS) FASTGLTF_LIKELY {
+				if (auto error = textureTransform["offset"].get_array().get(array); error == SUCCESS) FASTGLTF_LIKELY {
+					if (array.size() != 2) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					for (auto i = 0U; i < 2; ++i) {
 						double val;
 						if (array.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -373,9 +382,14 @@ namespace fastgltf {
 						}
 						transform->uvOffset[i] = static_cast<num>(val);
 					}
+				} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
 				}
 
-				if (textureTransform["scale"].get_array().get(array) == SUCCESS) FASTGLTF_LIKELY {
+				if (auto error = textureTransform["scale"].get_array().get(array); error == SUCCESS) FASTGLTF_LIKELY {
+					if (array.size() != 2) FASTGLTF_UNLIKELY {
+						return Error::InvalidGltf;
+					}
 					for (auto i = 0U; i < 2; ++i) {
 						double val;
 						if (array.at(i).get_double().get(val) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -383,10 +397,16 @@ namespace fastgltf {
 						}
 						transform->uvScale[i] = static_cast<num>(val);
 					}
+				} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
 				}
 
 				info->transform = std::move(transform);
+			} else if (transformError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
 			}
+		} else if (extensionsError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
 		}
 
 		return Error::None;
-- 
2.43.0


From 4899a04a743f97a0f45c2e760f0897ad0b59b638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:12 +0000
Subject: [PATCH 038/100] fix: an empty version string was read out of bounds;
 copyright and generator of the wrong type were ignored

---
 src/fastgltf.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 64ff417..115231e 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1510,7 +1510,11 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			return Error::InvalidOrMissingAssetField;
 		}
 
-		const auto major = static_cast<std::uint32_t>(version.substr(0, 1)[0] - '0');
+		if (version.empty()) FASTGLTF_UNLIKELY {
+			return Error::InvalidOrMissingAssetField;
+		}
+
+		const auto major = static_cast<std::uint32_t>(version[0] - '0');
 		// std::uint32_t minor = version.substr(2, 3)[0] - '0';
 		if (major != 2U) {
 			return Error::UnsupportedVersion;
@@ -1518,13 +1522,17 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 		info.gltfVersion = std::string { version };
 
 		std::string_view copyright;
-		if (assetInfo["copyright"].get_string().get(copyright) == SUCCESS) FASTGLTF_LIKELY {
+		if (error = assetInfo["copyright"].get_string().get(copyright); error == SUCCESS) FASTGLTF_LIKELY {
 			info.copyright = std::string { copyright };
+		} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
 		}
 
 		std::string_view generator;
-		if (assetInfo["generator"].get_string().get(generator) == SUCCESS) FASTGLTF_LIKELY {
+		if (error = assetInfo["generator"].get_string().get(generator); error == SUCCESS) FASTGLTF_LIKELY {
 			info.generator = std::string { generator };
+		} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
 		}
 
 		asset.assetInfo = std::move(info);
-- 
2.43.0


From af1134ba1164a3d6b9b8e1679f4b87ff43005eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:12 +0000
Subject: [PATCH 039/100] fix: extensionsRequired of the wrong type was ignored

---
 src/fastgltf.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 115231e..581e351 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1538,7 +1538,8 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 		asset.assetInfo = std::move(info);
 	}
 
-	if (dom::array extensionsRequired; root["extensionsRequired"].get_array().get(extensionsRequired) == SUCCESS) FASTGLTF_LIKELY {
+	dom::array extensionsRequired;
+	if (auto requiredError = root["extensionsRequired"].get_array().get(extensionsRequired); requiredError == SUCCESS) FASTGLTF_LIKELY {
 		for (auto extension : extensionsRequired) {
 			std::string_view string;
 			if (extension.get_string().get(string) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -1563,6 +1564,8 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			FASTGLTF_STD_PMR_NS::string FASTGLTF_CONSTRUCT_PMR_RESOURCE(requiredExtension, resourceAllocator.get(), string);
 			asset.extensionsRequired.emplace_back(std::move(requiredExtension));
 		}
+	} else if (requiredError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+		return Error::InvalidGltf;
 	}
 
 	Category readCategories = Category::None;
-- 
2.43.0


From f0d69f489bd27870b2733a8e2c82aed30cb2d49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:12 +0000
Subject: [PATCH 040/100] fix: accessor and component types outside of their
 enumerations were accepted

---
 src/fastgltf.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 581e351..74ecde3 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1692,7 +1692,13 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
         if (accessorObject["componentType"].get_uint64().get(componentType) != SUCCESS) FASTGLTF_UNLIKELY {
             return Error::InvalidGltf;
         }
+		if (componentType > std::numeric_limits<std::underlying_type_t<ComponentType>>::max()) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
+		}
 		accessor.componentType = getComponentType(static_cast<std::underlying_type_t<ComponentType>>(componentType));
+		if (accessor.componentType == ComponentType::Invalid) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
+		}
         if (accessor.componentType == ComponentType::Double && (!hasBit(options, Options::AllowDouble) && !hasBit(config.extensions, Extensions::KHR_accessor_float64))) {
             return Error::InvalidGltf;
         }
@@ -1702,6 +1708,9 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
             return Error::InvalidGltf;
         }
 		accessor.type = getAccessorType(accessorType);
+		if (accessor.type == AccessorType::Invalid) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
+		}
 
         std::uint64_t accessorCount;
         if (accessorObject["count"].get_uint64().get(accessorCount) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -1847,7 +1856,14 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
             if (child["componentType"].get_uint64().get(value) != SUCCESS) FASTGLTF_UNLIKELY {
                 return Error::InvalidGltf;
             }
+            if (value > std::numeric_limits<std::underlying_type_t<ComponentType>>::max()) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sparse.indexComponentType = getComponentType(static_cast<std::underlying_type_t<ComponentType>>(value));
+            if (sparse.indexComponentType != ComponentType::UnsignedByte && sparse.indexComponentType != ComponentType::UnsignedShort
+                && sparse.indexComponentType != ComponentType::UnsignedInt) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
 
             // Accessor Sparse Values
             if (sparseAccessorObject["values"].get_object().get(child) != SUCCESS) FASTGLTF_UNLIKELY {
-- 
2.43.0


From 02da29c32bb4e10236a097c9853ff210ee14a696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:12 +0000
Subject: [PATCH 041/100] fix: names that are no accessor type were mapped to
 one, and short names read out of bounds

---
 include/fastgltf/types.hpp | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index d5de77c..c2e0d9b 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -447,32 +447,6 @@ namespace fastgltf {
         AccessorType::Mat4,
     };
 
-    /**
-     * Gets the AccessorType by its string representation found in glTF files.
-     */
-    constexpr auto getAccessorType(std::string_view accessorTypeName) noexcept {
-        assert(!accessorTypeName.empty());
-        switch (accessorTypeName[0]) {
-            case 'S': return AccessorType::Scalar;
-            case 'V': {
-                const auto componentCount = static_cast<std::size_t>(accessorTypeName[3] - '2');
-                if (componentCount + 1 >= accessorTypes.size()) {
-                    return AccessorType::Invalid;
-                }
-                return accessorTypes[componentCount + 1];
-            }
-            case 'M': {
-                const auto componentCount = static_cast<std::size_t>(accessorTypeName[3] - '2');
-                if (componentCount + 4 >= accessorTypes.size()) {
-                    return AccessorType::Invalid;
-                }
-                return accessorTypes[componentCount + 4];
-            }
-        	default:
-        		return AccessorType::Invalid;
-        }
-    }
-
 	static constexpr std::array<std::string_view, 7> accessorTypeNames = {
 		"SCALAR",
 		"VEC2",
@@ -483,6 +457,18 @@ namespace fastgltf {
 		"MAT4"
 	};
 
+    /**
+     * Gets the AccessorType by its string representation found in glTF files.
+     */
+    constexpr auto getAccessorType(std::string_view accessorTypeName) noexcept {
+        for (std::size_t i = 0; i < accessorTypes.size(); ++i) {
+            if (accessorTypeName == accessorTypeNames[i]) {
+                return accessorTypes[i];
+            }
+        }
+        return AccessorType::Invalid;
+    }
+
 	constexpr std::string_view getAccessorTypeName(AccessorType type) noexcept {
     	static_assert(std::is_same_v<std::underlying_type_t<AccessorType>, std::uint8_t>);
 		if (type == AccessorType::Invalid)
-- 
2.43.0


From 171298375e2b25679a247d459104cdbbc2f1b4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:12 +0000
Subject: [PATCH 042/100] fix: names that are no combine mode, drive type or
 drive mode were mapped to one

---
 include/fastgltf/types.hpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index c2e0d9b..e3feab5 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -508,19 +508,13 @@ namespace fastgltf {
 
 #if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
 	[[nodiscard]] constexpr auto getCombineMode(const std::string_view name) noexcept {
-		assert(!name.empty());
-	    if(name[0] == 'a') {
+		if (name == "average") {
 			return CombineMode::Average;
-	    }
-
-		switch(name[1]) {
-	    case 'i':
+		} else if (name == "minimum") {
 			return CombineMode::Minimum;
-
-	    case 'a':
+		} else if (name == "maximum") {
 			return CombineMode::Maximum;
-
-	    case 'u':
+		} else if (name == "multiply") {
 			return CombineMode::Multiply;
 		}
 
@@ -541,9 +535,9 @@ namespace fastgltf {
 	}
 
 	[[nodiscard]] constexpr auto getDriveType(const std::string_view name) noexcept {
-		if (name[0] == 'l') {
+		if (name == "linear") {
 			return DriveType::Linear;
-		} else if (name[0] == 'a') {
+		} else if (name == "angular") {
 			return DriveType::Angular;
 		} else {
 			return DriveType::Invalid;
@@ -551,9 +545,9 @@ namespace fastgltf {
 	}
 
 	[[nodiscard]] constexpr auto getDriveMode(const std::string_view name) noexcept {
-	    if (name[0] == 'f') {
+	    if (name == "force") {
 			return DriveMode::Force;
-	    } else if (name[0] == 'a') {
+	    } else if (name == "acceleration") {
 			return DriveMode::Acceleration;
 	    } else {
 			return DriveMode::Invalid;
-- 
2.43.0


From d8c60e965d6bc92aef6b2ad4540675ad4dc2fd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:12 +0000
Subject: [PATCH 043/100] fix: unknown physics material combine modes were
 accepted

---
 src/fastgltf.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 74ecde3..e2bff67 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4314,13 +4314,19 @@ fg::Error fg::Parser::parsePhysicsMaterials(const simdjson::dom::array& physicsM
 		std::string_view frictionCombine;
 		if (auto error = materialObject["frictionCombine"].get_string().get(frictionCombine); error == SUCCESS) {
 			material.frictionCombine = getCombineMode(frictionCombine);
+			if (material.frictionCombine == CombineMode::Invalid) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
+			}
 		} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
 
 		std::string_view restitutionCombine;
 		if (auto error = materialObject["restitutionCombine"].get_string().get(restitutionCombine); error == SUCCESS) {
-		   material.restitutionCombine = getCombineMode(restitutionCombine);
+			material.restitutionCombine = getCombineMode(restitutionCombine);
+			if (material.restitutionCombine == CombineMode::Invalid) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
+			}
 		} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
-- 
2.43.0


From 3ea4b87a43efc7fcd3d360b59954aa4b485dc89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:12 +0000
Subject: [PATCH 044/100] fix: accessor members of the wrong type were ignored,
 and bounds too large for an integer were undefined behaviour

---
 src/fastgltf.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index e2bff67..b852f2d 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1720,8 +1720,10 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 
 
         std::uint64_t bufferView;
-        if (accessorObject["bufferView"].get_uint64().get(bufferView) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto error = accessorObject["bufferView"].get_uint64().get(bufferView); error == SUCCESS) FASTGLTF_LIKELY {
             accessor.bufferViewIndex = static_cast<std::size_t>(bufferView);
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         // byteOffset is optional, but defaults to 0
@@ -1735,7 +1737,7 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 		// Type of min and max should always be the same.
 		auto parseMinMax = [&](const std::string_view key, std::optional<AccessorBoundsArray>& ref) -> Error {
 			dom::array elements;
-			if (accessorObject[key].get_array().get(elements) == SUCCESS) FASTGLTF_LIKELY {
+			if (auto error = accessorObject[key].get_array().get(elements); error == SUCCESS) FASTGLTF_LIKELY {
 				const auto num = getNumComponents(accessor.type);
 
 				if (accessor.componentType == ComponentType::Float || accessor.componentType == ComponentType::Double) {
@@ -1761,6 +1763,10 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 							if (array.isType<double>()) {
 								array.set(idx++, value);
 							} else if (array.isType<std::int64_t>()) {
+								// Values of this size aren't allowed for any integer component type.
+								if (value < -9223372036854775808.0 || value >= 9223372036854775808.0) FASTGLTF_UNLIKELY {
+									return Error::InvalidGltf;
+								}
 								array.set(idx++, static_cast<std::int64_t>(value));
 							} else {
 								FASTGLTF_UNREACHABLE
@@ -1807,6 +1813,8 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 				if (idx < num) FASTGLTF_UNLIKELY {
 					return Error::InvalidGltf;
 				}
+			} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
 			}
 			return Error::None;
 		};
@@ -1828,7 +1836,7 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 		}
 
         dom::object sparseAccessorObject;
-        if (accessorObject["sparse"].get_object().get(sparseAccessorObject) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto sparseError = accessorObject["sparse"].get_object().get(sparseAccessorObject); sparseError == SUCCESS) FASTGLTF_LIKELY {
             SparseAccessor sparse = {};
             std::uint64_t value;
             dom::object child;
@@ -1882,6 +1890,8 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
             }
 
             accessor.sparse = sparse;
+        } else if (sparseError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 		if (config.extrasCallback != nullptr) {
-- 
2.43.0


From cb93b5a7522d3f4fd3f20f3e191a35a7e8a01c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:12 +0000
Subject: [PATCH 045/100] fix: unknown animation paths and interpolations of
 the wrong type were accepted

---
 src/fastgltf.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index b852f2d..3b255e1 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1973,6 +1973,8 @@ fg::Error fg::Parser::parseAnimations(simdjson::dom::array& animations, Asset& a
                     channel.path = AnimationPath::Scale;
                 } else if (path == "weights") {
                     channel.path = AnimationPath::Weights;
+                } else {
+                    return Error::InvalidGltf;
                 }
             }
 
@@ -2007,8 +2009,10 @@ fg::Error fg::Parser::parseAnimations(simdjson::dom::array& animations, Asset& a
             sampler.outputAccessor = static_cast<std::size_t>(output);
 
             std::string_view interpolation;
-            if (samplerObject["interpolation"].get_string().get(interpolation) != SUCCESS) FASTGLTF_UNLIKELY {
+            if (auto error = samplerObject["interpolation"].get_string().get(interpolation); error == NO_SUCH_FIELD) {
                 sampler.interpolation = AnimationInterpolation::Linear;
+            } else if (error != SUCCESS) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
             } else {
                 if (interpolation == "LINEAR") {
                     sampler.interpolation = AnimationInterpolation::Linear;
-- 
2.43.0


From 61a0d29f0d9a7ee8d546022b098d30cb29c6035f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:12 +0000
Subject: [PATCH 046/100] fix: buffer and image members of the wrong type were
 ignored

---
 src/fastgltf.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 3b255e1..d0cd62c 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -2084,7 +2084,11 @@ fg::Error fg::Parser::parseBuffers(simdjson::dom::array& buffers, Asset& asset)
         // When parsing GLB, there's a buffer object that will point to the BUF chunk in the
         // file. Otherwise, data must be specified in the "uri" field.
         std::string_view uriString;
-        if (bufferObject["uri"].get_string().get(uriString) == SUCCESS) FASTGLTF_LIKELY {
+        const auto uriError = bufferObject["uri"].get_string().get(uriString);
+        if (uriError != SUCCESS && uriError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
+        }
+        if (uriError == SUCCESS) FASTGLTF_LIKELY {
 			URIView uriView(uriString);
 
             if (!uriView.valid()) {
@@ -2525,7 +2529,11 @@ fg::Error fg::Parser::parseImages(simdjson::dom::array& images, Asset& asset) {
         }
 
         std::string_view uriString;
-        if (imageObject["uri"].get_string().get(uriString) == SUCCESS) FASTGLTF_LIKELY {
+        const auto uriError = imageObject["uri"].get_string().get(uriString);
+        if (uriError != SUCCESS && uriError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
+        }
+        if (uriError == SUCCESS) FASTGLTF_LIKELY {
             if (imageObject["bufferView"].error() == SUCCESS) FASTGLTF_LIKELY {
                 // If uri is declared, bufferView cannot be declared.
                 return Error::InvalidGltf;
@@ -2558,7 +2566,7 @@ fg::Error fg::Parser::parseImages(simdjson::dom::array& images, Asset& asset) {
             }
 
             std::string_view mimeType;
-            if (imageObject["mimeType"].get_string().get(mimeType) == SUCCESS) FASTGLTF_LIKELY {
+            if (auto mimeError = imageObject["mimeType"].get_string().get(mimeType); mimeError == SUCCESS) FASTGLTF_LIKELY {
                 std::visit([&](auto& arg) {
                     using T = std::decay_t<decltype(arg)>;
 
@@ -2567,11 +2575,13 @@ fg::Error fg::Parser::parseImages(simdjson::dom::array& images, Asset& asset) {
                         arg.mimeType = getMimeTypeFromString(mimeType);
                     }
                 }, image.data);
+            } else if (mimeError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
             }
         }
 
         std::uint64_t bufferViewIndex;
-        if (imageObject["bufferView"].get_uint64().get(bufferViewIndex) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto error = imageObject["bufferView"].get_uint64().get(bufferViewIndex); error == SUCCESS) FASTGLTF_LIKELY {
             std::string_view mimeType;
             if (imageObject["mimeType"].get_string().get(mimeType) != SUCCESS) FASTGLTF_UNLIKELY {
                 // If bufferView is defined, mimeType needs to also be defined.
@@ -2582,6 +2592,8 @@ fg::Error fg::Parser::parseImages(simdjson::dom::array& images, Asset& asset) {
                 static_cast<std::size_t>(bufferViewIndex),
                 getMimeTypeFromString(mimeType),
             };
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         if (std::holds_alternative<std::monostate>(image.data)) {
-- 
2.43.0


From 06b2a0f4f3c4a70f9b9b085cc379d25f58fd33b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:12 +0000
Subject: [PATCH 047/100] fix: buffer view targets outside of the enumeration
 and malformed buffer view extensions were accepted

---
 src/fastgltf.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index d0cd62c..3b62057 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -2185,6 +2185,9 @@ fg::Error fg::Parser::parseBufferViews(const simdjson::dom::array& bufferViews,
         }
 
         if (auto error = bufferViewObject["target"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (number != to_underlying(BufferTarget::ArrayBuffer) && number != to_underlying(BufferTarget::ElementArrayBuffer)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             view.target = static_cast<BufferTarget>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidJson;
@@ -2198,9 +2201,11 @@ fg::Error fg::Parser::parseBufferViews(const simdjson::dom::array& bufferViews,
         }
 
         dom::object extensionObject;
-        if (bufferViewObject["extensions"].get_object().get(extensionObject) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto extensionError = bufferViewObject["extensions"].get_object().get(extensionObject); extensionError == SUCCESS) FASTGLTF_LIKELY {
             dom::object meshoptCompression;
-            if (hasBit(config.extensions, Extensions::EXT_meshopt_compression) && extensionObject[extensions::EXT_meshopt_compression].get_object().get(meshoptCompression) == SUCCESS) FASTGLTF_LIKELY {
+            auto meshoptError = hasBit(config.extensions, Extensions::EXT_meshopt_compression)
+                ? extensionObject[extensions::EXT_meshopt_compression].get_object().get(meshoptCompression) : NO_SUCH_FIELD;
+            if (meshoptError == SUCCESS) FASTGLTF_LIKELY {
                 auto compression = std::make_unique<CompressedBufferView>();
 
                 if (auto error = meshoptCompression["buffer"].get_uint64().get(number); error != SUCCESS) FASTGLTF_UNLIKELY {
@@ -2281,7 +2286,11 @@ fg::Error fg::Parser::parseBufferViews(const simdjson::dom::array& bufferViews,
                 }
 
                 view.meshoptCompression = std::move(compression);
+            } else if (meshoptError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
             }
+        } else if (extensionError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 		if (config.extrasCallback != nullptr) {
-- 
2.43.0


From 4200de3f43c12c65aa223153ae37ed171997e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 048/100] fix: malformed lights were accepted

---
 src/fastgltf.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 3b62057..68ea372 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -2435,7 +2435,7 @@ fg::Error fg::Parser::parseExtensions(const simdjson::dom::object& extensionsObj
                 if (auto error = extensionObject["lights"].get_array().get(lightsArray); error == SUCCESS) FASTGLTF_LIKELY {
                     if (auto lightsError = parseLights(lightsArray, asset); lightsError != Error::None)
 						return lightsError;
-                } else if (error != NO_SUCH_FIELD) {
+                } else {
                     return Error::InvalidGltf;
                 }
                 break;
@@ -2643,7 +2643,7 @@ fg::Error fg::Parser::parseLights(const simdjson::dom::array& lights, Asset& ass
 
         std::string_view type;
         if (lightObject["type"].get_string().get(type) == SUCCESS) FASTGLTF_LIKELY {
-            switch (crcStringFunction(type.data())) {
+            switch (crcStringFunction(type)) {
                 case force_consteval<crc32c("directional")>: {
                     light.type = LightType::Directional;
                     break;
@@ -2709,15 +2709,19 @@ fg::Error fg::Parser::parseLights(const simdjson::dom::array& lights, Asset& ass
         }
 
         double intensity;
-        if (lightObject["intensity"].get_double().get(intensity) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto error = lightObject["intensity"].get_double().get(intensity); error == SUCCESS) FASTGLTF_LIKELY {
             light.intensity = static_cast<num>(intensity);
-        } else {
+        } else if (error == NO_SUCH_FIELD) {
             light.intensity = 1.0f;
+        } else {
+            return Error::InvalidGltf;
         }
 
         double range;
-        if (lightObject["range"].get_double().get(range) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto error = lightObject["range"].get_double().get(range); error == SUCCESS) FASTGLTF_LIKELY {
             light.range = static_cast<num>(range);
+        } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 		std::string_view name;
-- 
2.43.0


From 6601f59e26f7462787a0316523ec7f9c939e67a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 049/100] fix: primitive modes outside of the enumeration and
 targets of the wrong type were accepted

---
 src/fastgltf.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 68ea372..6bf877c 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3630,7 +3630,7 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 			}
 
 			dom::array targets;
-			if (primitiveObject["targets"].get_array().get(targets) == SUCCESS) FASTGLTF_LIKELY {
+			if (auto targetsError = primitiveObject["targets"].get_array().get(targets); targetsError == SUCCESS) FASTGLTF_LIKELY {
 				primitive.targets = FASTGLTF_CONSTRUCT_PMR_RESOURCE(decltype(primitive.targets), resourceAllocator.get(), 0);
 				primitive.targets.reserve(targets.size());
 				for (auto targetValue : targets) {
@@ -3642,10 +3642,15 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 						return attributesError;
 					}
 				}
+			} else if (targetsError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+				return Error::InvalidGltf;
 			}
 
 			std::uint64_t value;
 			if (auto error = primitiveObject["mode"].get_uint64().get(value); error == SUCCESS) FASTGLTF_LIKELY {
+				if (value > to_underlying(PrimitiveType::TriangleFan)) FASTGLTF_UNLIKELY {
+					return Error::InvalidGltf;
+				}
 				primitive.type = static_cast<PrimitiveType>(value);
 			} else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 				return Error::InvalidGltf;
-- 
2.43.0


From 11fc6185c1d00e7489637facf16a111c5600f536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 050/100] fix: node extensions and matrices of the wrong type
 were ignored

---
 src/fastgltf.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 6bf877c..06157fe 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3858,10 +3858,12 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
             }
 
             node.transform = trs;
+        } else FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
         dom::object extensionsObject;
-        if (nodeObject["extensions"].get_object().get(extensionsObject) == SUCCESS) FASTGLTF_LIKELY {
+        if (auto extensionsError = nodeObject["extensions"].get_object().get(extensionsObject); extensionsError == SUCCESS) FASTGLTF_LIKELY {
 			if (hasBit(config.extensions, Extensions::KHR_lights_punctual)) {
 				dom::object lightsObject;
 				if (auto lightsError = extensionsObject[extensions::KHR_lights_punctual].get_object().get(lightsObject); lightsError == SUCCESS) FASTGLTF_LIKELY {
@@ -3939,6 +3941,8 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
         			return Error::InvalidGltf;
         		}
         	}
+        } else if (extensionsError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+            return Error::InvalidGltf;
         }
 
 		if (config.extrasCallback != nullptr) {
-- 
2.43.0


From ec143f90859c04b67431996004866a70c6bfeead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 051/100] fix: sampler filters and wrap modes outside of their
 enumerations were accepted

---
 src/fastgltf.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 06157fe..0edf122 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -3968,6 +3968,14 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
 fg::Error fg::Parser::parseSamplers(const simdjson::dom::array& samplers, Asset& asset) {
     using namespace simdjson;
 
+    const auto isFilter = [](std::uint64_t value) {
+        return value == to_underlying(Filter::Nearest) || value == to_underlying(Filter::Linear)
+            || (value >= to_underlying(Filter::NearestMipMapNearest) && value <= to_underlying(Filter::LinearMipMapLinear));
+    };
+    const auto isWrap = [](std::uint64_t value) {
+        return value == to_underlying(Wrap::ClampToEdge) || value == to_underlying(Wrap::MirroredRepeat) || value == to_underlying(Wrap::Repeat);
+    };
+
     std::uint64_t number;
     asset.samplers.reserve(samplers.size());
     for (auto samplerValue : samplers) {
@@ -3978,22 +3986,34 @@ fg::Error fg::Parser::parseSamplers(const simdjson::dom::array& samplers, Asset&
         }
 
         if (auto error = samplerObject["magFilter"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (!isFilter(number)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sampler.magFilter = static_cast<Filter>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
         if (auto error = samplerObject["minFilter"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (!isFilter(number)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sampler.minFilter = static_cast<Filter>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
 			return Error::InvalidGltf;
 		}
 
         if (auto error = samplerObject["wrapS"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (!isWrap(number)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sampler.wrapS = static_cast<Wrap>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidGltf;
         }
         if (auto error = samplerObject["wrapT"].get_uint64().get(number); error == SUCCESS) FASTGLTF_LIKELY {
+            if (!isWrap(number)) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             sampler.wrapT = static_cast<Wrap>(number);
         } else if (error != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
             return Error::InvalidGltf;
-- 
2.43.0


From e3b9be51e8e755dc9004bf6f5f6a384cc696c068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 052/100] fix: physics joint limits of the wrong type were
 ignored

---
 src/fastgltf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 0edf122..a43bfbf 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -4500,7 +4500,7 @@ fg::Error fg::Parser::parsePhysicsJoints(const simdjson::dom::array& physicsJoin
 		}
 
 		dom::array limitsArray;
-		if (physicsJointValue["limits"].get_array().get(limitsArray) == SUCCESS) {
+		if (auto limitsError = physicsJointValue["limits"].get_array().get(limitsArray); limitsError == SUCCESS) {
 			physicsJoint.limits.reserve(limitsArray.size());
             for (auto limitValue : limitsArray) {
 				auto& limit = physicsJoint.limits.emplace_back();
@@ -4577,6 +4577,8 @@ fg::Error fg::Parser::parsePhysicsJoints(const simdjson::dom::array& physicsJoin
 					return Error::InvalidGltf;
 				}
             }
+		} else if (limitsError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
 		}
 
 		dom::array driveArray;
-- 
2.43.0


From 7f44fdc9df35f5eeb2bb6f94f4e868761c52ee50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 053/100] fix: asset versions such as 20.0 were taken for 2.x

---
 src/fastgltf.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index a43bfbf..eb37395 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1514,9 +1514,8 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			return Error::InvalidOrMissingAssetField;
 		}
 
-		const auto major = static_cast<std::uint32_t>(version[0] - '0');
-		// std::uint32_t minor = version.substr(2, 3)[0] - '0';
-		if (major != 2U) {
+		const auto major = version.substr(0, version.find('.'));
+		if (major != "2") {
 			return Error::UnsupportedVersion;
 		}
 		info.gltfVersion = std::string { version };
-- 
2.43.0


From aa6da7bd335a4819365cce0527bf3d78ced278b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 054/100] fix: categories that were not requested were reported
 as available

---
 src/fastgltf.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index eb37395..26901ec 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1600,9 +1600,10 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 #define KEY_SWITCH_CASE(name, id) case force_consteval<crc32c(FASTGLTF_QUOTE(id))>:       \
                 if (arrayError != SUCCESS)                \
                     return Error::InvalidGltf;            \
-                if (hasBit(categories, Category::name))   \
-                    error = parse##name(array, asset);                     \
-                readCategories |= Category::name;         \
+                if (hasBit(categories, Category::name)) { \
+                    error = parse##name(array, asset);    \
+                    readCategories |= Category::name;     \
+                }                                         \
                 break;
 
 		Error error = Error::None;
-- 
2.43.0


From ff733af380d205d247be53c35ee5e9480952a512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 055/100] fix: a chunk header at the very end of a binary glTF
 was not checked

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 26901ec..ab5e81f 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5115,7 +5115,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
     }
 
     // Is there enough room for another chunk header?
-    if (header.length > (data.bytesRead() + sizeof(BinaryGltfChunk))) {
+    if (header.length >= (data.bytesRead() + sizeof(BinaryGltfChunk))) {
         auto binaryChunk = readBinaryChunk(data);
 
         if (binaryChunk.chunkType != binaryGltfDataChunkMagic) {
-- 
2.43.0


From 2180e3ff6a89320303d21df1551f7ccaf7c0a633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:33 +0000
Subject: [PATCH 056/100] fix: data URIs without media type separator, data or
 with incomplete base64 quads were decoded out of bounds

---
 src/fastgltf.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index ab5e81f..7304ae9 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -706,15 +706,22 @@ bool fg::URI::isDataUri() const noexcept {
 fg::Expected<fg::DataSource> fg::Parser::decodeDataUri(const URIView& uri) const noexcept {
     auto path = uri.path();
     auto mimeEnd = path.find(';');
-    auto mime = path.substr(0, mimeEnd);
-
     auto encodingEnd = path.find(',');
+    if (mimeEnd == std::string_view::npos || encodingEnd == std::string_view::npos || encodingEnd < mimeEnd) {
+		return Error::InvalidURI;
+    }
+
+    auto mime = path.substr(0, mimeEnd);
     auto encoding = path.substr(mimeEnd + 1, encodingEnd - mimeEnd - 1);
     if (encoding != "base64") {
 		return Error::InvalidURI;
     }
 
     auto encodedData = path.substr(encodingEnd + 1);
+    if (encodedData.size() < 4 || encodedData.size() % 4 != 0) {
+		return Error::InvalidURI;
+    }
+
     if (config.mapCallback != nullptr) {
         // If a map callback is specified, we use a pointer to memory specified by it.
         auto padding = base64::getPadding(encodedData);
-- 
2.43.0


From e9c9fb23e4b948534153dc8c9382676b0a752e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:33 +0000
Subject: [PATCH 057/100] fix: external files that could not be read were
 loaded as if they were

---
 src/io.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index 107c10b..d34da83 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -468,6 +468,9 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noe
 	}
 
 	std::ifstream file(path, std::ios::binary);
+	if (!file.is_open()) {
+		return Error::MissingExternalBuffer;
+	}
 
 	if (config.mapCallback != nullptr) {
 		auto info = config.mapCallback(static_cast<std::uint64_t>(length), config.userPointer);
@@ -477,6 +480,9 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noe
 			if (config.unmapCallback != nullptr) {
 				config.unmapCallback(&info, config.userPointer);
 			}
+			if (file.gcount() != length) {
+				return Error::MissingExternalBuffer;
+			}
 
 			return { customBufferSource };
 		}
@@ -484,6 +490,9 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noe
 
 	StaticVector<std::byte> data(static_cast<std::size_t>(length));
 	file.read(reinterpret_cast<char*>(data.data()), length);
+	if (file.gcount() != length) {
+		return Error::MissingExternalBuffer;
+	}
 	sources::Array arraySource {
 		std::move(data),
 	};
-- 
2.43.0


From f615588da67aa73c7d6512d7a030adbfb423888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 058/100] fix: buffers whose data is shorter than their
 byteLength were accepted

---
 include/fastgltf/core.hpp |  5 +++--
 src/fastgltf.cpp          | 21 ++++++++++++++-------
 src/io.cpp                |  5 ++++-
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/fastgltf/core.hpp b/include/fastgltf/core.hpp
index f8b29a4..a4bef2c 100644
--- a/include/fastgltf/core.hpp
+++ b/include/fastgltf/core.hpp
@@ -831,6 +831,7 @@ namespace fastgltf {
 
 		ParserInternalConfig config = {};
 		DataSource glbBuffer;
+		std::size_t glbBufferSize = 0;
 #if !FASTGLTF_DISABLE_CUSTOM_MEMORY_POOL
 		std::shared_ptr<std::pmr::monotonic_buffer_resource> resourceAllocator;
 #endif
@@ -843,8 +844,8 @@ namespace fastgltf {
 		template <typename T>
 		Error parseAttributes(simdjson::dom::object& object, T& attributes);
 
-		[[nodiscard]] auto decodeDataUri(const URIView& uri) const noexcept -> Expected<DataSource>;
-		[[nodiscard]] auto loadFileFromUri(URIView& uri) const noexcept -> Expected<DataSource>;
+		[[nodiscard]] auto decodeDataUri(const URIView& uri, std::size_t minimumSize = 0) const noexcept -> Expected<DataSource>;
+		[[nodiscard]] auto loadFileFromUri(URIView& uri, std::size_t minimumSize = 0) const noexcept -> Expected<DataSource>;
 #if defined(__ANDROID__)
 		[[nodiscard]] auto loadFileFromApk(const std::filesystem::path& filepath) const noexcept -> Expected<DataSource>;
 #endif
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 7304ae9..4dc987a 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -703,7 +703,7 @@ bool fg::URI::isDataUri() const noexcept {
 #pragma endregion
 
 #pragma region glTF parsing
-fg::Expected<fg::DataSource> fg::Parser::decodeDataUri(const URIView& uri) const noexcept {
+fg::Expected<fg::DataSource> fg::Parser::decodeDataUri(const URIView& uri, std::size_t minimumSize) const noexcept {
     auto path = uri.path();
     auto mimeEnd = path.find(';');
     auto encodingEnd = path.find(',');
@@ -722,10 +722,14 @@ fg::Expected<fg::DataSource> fg::Parser::decodeDataUri(const URIView& uri) const
 		return Error::InvalidURI;
     }
 
+    auto padding = base64::getPadding(encodedData);
+    auto size = base64::getOutputSize(encodedData.size(), padding);
+    if (size < minimumSize) {
+		return Error::InvalidGltf;
+    }
+
     if (config.mapCallback != nullptr) {
         // If a map callback is specified, we use a pointer to memory specified by it.
-        auto padding = base64::getPadding(encodedData);
-        auto size = base64::getOutputSize(encodedData.size(), padding);
         auto info = config.mapCallback(size, config.userPointer);
         if (info.mappedMemory != nullptr) {
             if (config.decodeCallback != nullptr) {
@@ -746,8 +750,7 @@ fg::Expected<fg::DataSource> fg::Parser::decodeDataUri(const URIView& uri) const
     }
 
 	// Decode the base64 data into a traditional vector
-	auto padding = base64::getPadding(encodedData);
-	fg::StaticVector<std::byte> uriData(base64::getOutputSize(encodedData.size(), padding));
+	fg::StaticVector<std::byte> uriData(size);
 	if (config.decodeCallback != nullptr) {
 		config.decodeCallback(encodedData, reinterpret_cast<std::uint8_t*>(uriData.data()), padding, uriData.size(), config.userPointer);
 	} else {
@@ -2103,14 +2106,14 @@ fg::Error fg::Parser::parseBuffers(simdjson::dom::array& buffers, Asset& asset)
             }
 
             if (uriView.isDataUri()) {
-                auto [error, source] = decodeDataUri(uriView);
+                auto [error, source] = decodeDataUri(uriView, buffer.byteLength);
                 if (error != Error::None) {
                     return error;
                 }
 
                 buffer.data = std::move(source);
             } else if (uriView.isLocalPath() && hasBit(options, Options::LoadExternalBuffers)) {
-	            auto [error, source] = loadFileFromUri(uriView);
+	            auto [error, source] = loadFileFromUri(uriView, buffer.byteLength);
                 if (error != Error::None) {
                     return error;
                 }
@@ -2123,6 +2126,9 @@ fg::Error fg::Parser::parseBuffers(simdjson::dom::array& buffers, Asset& asset)
                 buffer.data = std::move(filePath);
             }
         } else if (bufferIndex == 0 && !std::holds_alternative<std::monostate>(glbBuffer)) {
+            if (glbBufferSize < buffer.byteLength) FASTGLTF_UNLIKELY {
+                return Error::InvalidGltf;
+            }
             buffer.data = std::move(glbBuffer);
         } else if (meshoptCompressionRequired) {
 			// This buffer is not a GLB buffer and has no URI source and is therefore a fallback.
@@ -5135,6 +5141,7 @@ fg::Expected<fg::Asset> fg::Parser::loadGltfBinary(GltfDataGetter& data, fs::pat
 				return Error::InvalidGLB;
 			}
 
+			glbBufferSize = binaryChunk.chunkLength;
 			if (config.mapCallback != nullptr) {
 				auto info = config.mapCallback(binaryChunk.chunkLength, config.userPointer);
 				if (info.mappedMemory != nullptr) {
diff --git a/src/io.cpp b/src/io.cpp
index d34da83..3e3454d 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -427,7 +427,7 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromApk(const fs::path& path) c
 }
 #endif
 
-fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noexcept {
+fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri, std::size_t minimumSize) const noexcept {
 	URI decodedUri(uri.path()); // Re-allocate so we can decode potential characters.
 	// JSON strings are always in UTF-8, so we can safely always use u8path here.
 	// Since u8path is deprecated with C++20 and newer, u8path is deprecated.
@@ -466,6 +466,9 @@ fg::Expected<fg::DataSource> fg::Parser::loadFileFromUri(URIView& uri) const noe
 	if (error) {
 		return Error::InvalidURI;
 	}
+	if (static_cast<std::size_t>(length) < minimumSize) {
+		return Error::InvalidGltf;
+	}
 
 	std::ifstream file(path, std::ios::binary);
 	if (!file.is_open()) {
-- 
2.43.0


From c682537183f485b2871624a91900e96ede5e4acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 059/100] fix: element traits of 32-bit signed vectors name the
 wrong component type

---
 include/fastgltf/tools.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 32fcd8c..406edba 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -152,9 +152,9 @@ template<> struct ElementTraits<math::u16vec2> : ElementTraitsBase<math::u16vec2
 template<> struct ElementTraits<math::u16vec3> : ElementTraitsBase<math::u16vec3, AccessorType::Vec3, std::uint16_t> {};
 template<> struct ElementTraits<math::u16vec4> : ElementTraitsBase<math::u16vec4, AccessorType::Vec4, std::uint16_t> {};
 
-template<> struct ElementTraits<math::s32vec2> : ElementTraitsBase<math::s32vec2, AccessorType::Vec2, std::int16_t> {};
-template<> struct ElementTraits<math::s32vec3> : ElementTraitsBase<math::s32vec3, AccessorType::Vec3, std::int16_t> {};
-template<> struct ElementTraits<math::s32vec4> : ElementTraitsBase<math::s32vec4, AccessorType::Vec4, std::int16_t> {};
+template<> struct ElementTraits<math::s32vec2> : ElementTraitsBase<math::s32vec2, AccessorType::Vec2, std::int32_t> {};
+template<> struct ElementTraits<math::s32vec3> : ElementTraitsBase<math::s32vec3, AccessorType::Vec3, std::int32_t> {};
+template<> struct ElementTraits<math::s32vec4> : ElementTraitsBase<math::s32vec4, AccessorType::Vec4, std::int32_t> {};
 template<> struct ElementTraits<math::u32vec2> : ElementTraitsBase<math::u32vec2, AccessorType::Vec2, std::uint32_t> {};
 template<> struct ElementTraits<math::u32vec3> : ElementTraitsBase<math::u32vec3, AccessorType::Vec3, std::uint32_t> {};
 template<> struct ElementTraits<math::u32vec4> : ElementTraitsBase<math::u32vec4, AccessorType::Vec4, std::uint32_t> {};
-- 
2.43.0


From cb194e06095566c04ce7afdb09b90d9c25cdf573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 060/100] fix: sparse index lookup truncates the element index
 to the index type

---
 include/fastgltf/tools.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 406edba..6346059 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -400,7 +400,7 @@ bool findSparseIndex(const std::byte* indices, std::size_t indexCount, std::size
 		auto step = count / 2;
 		auto index = resultIndex + step;
 
-		if (deserializeComponent<ElementType>(indices, index) < static_cast<ElementType>(desiredIndex)) {
+		if (static_cast<std::size_t>(deserializeComponent<ElementType>(indices, index)) < desiredIndex) {
 			resultIndex = index + 1;
 			count -= step + 1;
 		} else {
@@ -408,7 +408,7 @@ bool findSparseIndex(const std::byte* indices, std::size_t indexCount, std::size
 		}
 	}
 
-	return resultIndex < indexCount && deserializeComponent<ElementType>(indices, resultIndex) == static_cast<ElementType>(desiredIndex);
+	return resultIndex < indexCount && static_cast<std::size_t>(deserializeComponent<ElementType>(indices, resultIndex)) == desiredIndex;
 }
 
 // Finds the index of the nearest sparse index to the desired index
-- 
2.43.0


From a165cf433e32a6d5c7dc91a07a0a7993c910ea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 061/100] fix: accessors without a buffer view read quaternions
 and matrices as identity instead of zeros

---
 include/fastgltf/tools.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 6346059..da15596 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -28,6 +28,7 @@
 #define FASTGLTF_TOOLS_HPP
 
 #if !defined(FASTGLTF_USE_STD_MODULE) || !FASTGLTF_USE_STD_MODULE
+#include <array>
 #include <cstring>
 #include <iterator>
 #endif
@@ -388,6 +389,17 @@ ElementType getAccessorElementAt(ComponentType componentType, const std::byte* b
 	}
 }
 
+// Returns the element of an accessor without a buffer view, of which every component is zero. Note that
+// value-initialization does not suffice, as it makes matrices and quaternions the identity.
+template <typename ElementType>
+#if FASTGLTF_HAS_CONCEPTS
+requires Element<ElementType>
+#endif
+ElementType getZeroElement() {
+	constexpr std::array<std::byte, 16> zeros {};
+	return getAccessorElementAt<ElementType>(ComponentType::UnsignedByte, zeros.data());
+}
+
 // Performs a binary search for the index into the sparse index list whose value matches the desired index
 template <typename ElementType>
 bool findSparseIndex(const std::byte* indices, std::size_t indexCount, std::size_t desiredIndex,
@@ -649,11 +661,7 @@ ElementType getAccessorElement(const Asset& asset, const Accessor& accessor, siz
 	// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros; sparse
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
-		if constexpr (std::is_aggregate_v<ElementType>) {
-			return ElementType{};
-		} else {
-			return ElementType();
-		}
+		return internal::getZeroElement<ElementType>();
 	}
 
 	const auto& view = asset.bufferViews[*accessor.bufferViewIndex];
-- 
2.43.0


From d084dcf5c9bcbbcb81e8cd8188fdcb7f8e858a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 062/100] fix: accessor iterators depend on how often they are
 dereferenced

---
 include/fastgltf/tools.hpp | 47 ++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index da15596..7a0109c 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -486,8 +486,16 @@ class AccessorIterator {
 protected:
 	const IterableAccessor<ElementType, BufferDataAdapter>* accessor = nullptr;
 	std::size_t idx = std::numeric_limits<std::size_t>::max();
-	mutable std::size_t sparseIdx = 0;
-	mutable std::size_t nextSparseIndex = 0;
+	std::size_t sparseIdx = 0;
+	std::size_t nextSparseIndex = std::numeric_limits<std::size_t>::max();
+
+	// Reads the index of the element which the current sparse entry replaces.
+	void readSparseIndex() noexcept {
+		nextSparseIndex = sparseIdx < accessor->sparseCount
+			? internal::getAccessorElementAt<std::uint32_t>(accessor->indexComponentType,
+			                                                &accessor->indicesBytes[accessor->indexStride * sparseIdx])
+			: std::numeric_limits<std::size_t>::max();
+	}
 
 public:
 	using value_type = ElementType;
@@ -503,14 +511,19 @@ public:
 
 	AccessorIterator(const IterableAccessor<ElementType, BufferDataAdapter>* accessor, std::size_t idx = 0)
 			: accessor(accessor), idx(idx) {
-		if (accessor->accessor.sparse.has_value()) {
-			// Get the first sparse index.
-			nextSparseIndex = internal::getAccessorElementAt<std::uint32_t>(accessor->indexComponentType,
-			                                                                &accessor->indicesBytes[accessor->indexStride * sparseIdx]);
+		if (accessor->sparseCount > 0) {
+			// Get the first sparse index at or after this position.
+			internal::findSparseIndex(accessor->indexComponentType, accessor->indicesBytes.data(),
+			                          accessor->sparseCount, idx, sparseIdx);
+			readSparseIndex();
 		}
 	}
 
 	AccessorIterator& operator++() noexcept {
+		if (idx == nextSparseIndex) {
+			++sparseIdx;
+			readSparseIndex();
+		}
 		++idx;
 		return *this;
 	}
@@ -539,21 +552,11 @@ public:
 	}
 
 	[[nodiscard]] ElementType operator*() const noexcept {
-		if (accessor->accessor.sparse.has_value()) {
-			if (idx == nextSparseIndex) {
-				// Get the sparse value for this index
-				auto value = internal::getAccessorElementAt<ElementType>(accessor->componentType,
-																		 &accessor->valuesBytes[accessor->valueStride * sparseIdx],
-																		 accessor->accessor.normalized);
-
-				// Find the next sparse index.
-				++sparseIdx;
-				if (sparseIdx < accessor->sparseCount) {
-					nextSparseIndex = internal::getAccessorElementAt<std::uint32_t>(accessor->indexComponentType,
-					                                                                &accessor->indicesBytes[accessor->indexStride * sparseIdx]);
-				}
-				return value;
-			}
+		if (idx == nextSparseIndex) {
+			// Get the sparse value for this index
+			return internal::getAccessorElementAt<ElementType>(accessor->componentType,
+			                                                   &accessor->valuesBytes[accessor->valueStride * sparseIdx],
+			                                                   accessor->accessor.normalized);
 		}
 
 		return internal::getAccessorElementAt<ElementType>(accessor->componentType,
@@ -583,7 +586,7 @@ class IterableAccessor {
 	span<const std::byte> valuesBytes;
 	std::size_t indexStride;
 	std::size_t valueStride;
-	std::size_t sparseCount;
+	std::size_t sparseCount = 0;
 
 public:
 	using iterator = AccessorIterator<ElementType, BufferDataAdapter>;
-- 
2.43.0


From ca9fda2bc3bbe01a911a76dce8caf23b9874c554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 063/100] fix: iterating accessors without a buffer view reads
 an absent buffer view

---
 include/fastgltf/tools.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 7a0109c..8e27e7a 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -559,6 +559,10 @@ public:
 			                                                   accessor->accessor.normalized);
 		}
 
+		if (!accessor->accessor.bufferViewIndex) {
+			return internal::getZeroElement<ElementType>();
+		}
+
 		return internal::getAccessorElementAt<ElementType>(accessor->componentType,
 														   &accessor->bufferBytes[idx * accessor->stride],
 														   accessor->accessor.normalized);
@@ -577,7 +581,7 @@ class IterableAccessor {
 	const Accessor& accessor;
 
 	span<const std::byte> bufferBytes;
-	std::size_t stride;
+	std::size_t stride = 0;
 	fastgltf::ComponentType componentType;
 
 	// Data needed for sparse accessors
@@ -595,10 +599,15 @@ public:
 		assert(accessor.type == ElementTraits<ElementType>::type && "The destination type needs to have the same AccessorType as the accessor.");
 		componentType = accessor.componentType;
 
-		const auto& view = asset.bufferViews[*accessor.bufferViewIndex];
-		stride = view.byteStride ? *view.byteStride : getElementByteSize(accessor.type, accessor.componentType);
+		// 5.1.1. accessor.bufferView
+		// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros; sparse
+		// property or extensions MAY override zeros with actual values.
+		if (accessor.bufferViewIndex) {
+			const auto& view = asset.bufferViews[*accessor.bufferViewIndex];
+			stride = view.byteStride ? *view.byteStride : getElementByteSize(accessor.type, accessor.componentType);
 
-		bufferBytes = adapter(asset, *accessor.bufferViewIndex).subspan(accessor.byteOffset);
+			bufferBytes = adapter(asset, *accessor.bufferViewIndex).subspan(accessor.byteOffset);
+		}
 
 		if (accessor.sparse.has_value()) {
 			indicesBytes = adapter(asset, accessor.sparse->indicesBufferView).subspan(accessor.sparse->indicesByteOffset);
@@ -745,7 +754,7 @@ void iterateAccessor(const Asset& asset, const Accessor& accessor, Functor&& fun
 
 				std::invoke(func, element);
 			} else {
-				std::invoke(func, ElementType {});
+				std::invoke(func, internal::getZeroElement<ElementType>());
 			}
 		}
 
@@ -757,7 +766,7 @@ void iterateAccessor(const Asset& asset, const Accessor& accessor, Functor&& fun
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
 		for (std::size_t i = 0; i < accessor.count; ++i) {
-			std::invoke(func, ElementType {});
+			std::invoke(func, internal::getZeroElement<ElementType>());
 		}
 	} else {
 		auto& view = asset.bufferViews[*accessor.bufferViewIndex];
-- 
2.43.0


From 27ecc2622415fa1c4a0aedccb08289fbc345a6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 064/100] fix: bulk copies of accessors without a buffer view
 do not zero every element

---
 include/fastgltf/tools.hpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 8e27e7a..cae012e 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -826,22 +826,13 @@ void copyFromAccessor(const Asset& asset, const Accessor& accessor, void* dest,
 	// property or extensions MAY override zeros with actual values.
 	if (!accessor.bufferViewIndex) {
 		if constexpr (std::is_trivially_copyable_v<ElementType>) {
-			if (TargetStride == elemSize) {
-				std::memset(dest, 0, elemSize * accessor.count);
-			} else {
-				for (std::size_t i = 0; i < accessor.count; ++i) {
-					std::memset(dstBytes + i * TargetStride, 0, elemSize);
-				}
+			for (std::size_t i = 0; i < accessor.count; ++i) {
+				std::memset(dstBytes + i * TargetStride, 0, sizeof(ElementType));
 			}
 		} else {
 			for (std::size_t i = 0; i < accessor.count; ++i) {
 				auto* pDest = reinterpret_cast<ElementType*>(dstBytes + TargetStride * i);
-
-				if constexpr (std::is_aggregate_v<ElementType>) {
-					*pDest = ElementType {};
-				} else {
-					*pDest = ElementType();
-				}
+				*pDest = internal::getZeroElement<ElementType>();
 			}
 		}
 
-- 
2.43.0


From 70f457dd60279814f88b44e93e14c5b64ee69c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 065/100] fix: bulk copies do not convert normalized components

---
 include/fastgltf/tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index cae012e..4b66050 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -857,7 +857,7 @@ void copyFromAccessor(const Asset& asset, const Accessor& accessor, void* dest,
 		for (std::size_t i = 0; i < accessor.count; ++i) {
 			auto* pDest = reinterpret_cast<ElementType*>(dstBytes + TargetStride * i);
 			*pDest = internal::getAccessorElementAt<ElementType>(
-                    accessor.componentType, &srcBytes[srcStride * i]);
+                    accessor.componentType, &srcBytes[srcStride * i], accessor.normalized);
 		}
 	}
 }
-- 
2.43.0


From 6ceaf1678f3a314e7c866dc376a5f94f6d4c263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 066/100] fix: component copies place converted elements at the
 source element size and read absent buffer views

---
 include/fastgltf/tools.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 4b66050..936fe84 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -879,6 +879,14 @@ void copyComponentsFromAccessor(const Asset& asset, const Accessor& accessor, vo
 	auto elemSize = getElementByteSize(accessor.type, accessor.componentType);
 	auto componentCount = getNumComponents(accessor.type);
 
+	// 5.1.1. accessor.bufferView
+	// The index of the buffer view. When undefined, the accessor MUST be initialized with zeros; sparse
+	// property or extensions MAY override zeros with actual values.
+	if (!accessor.bufferViewIndex) {
+		std::memset(dest, 0, sizeof(ComponentType) * componentCount * accessor.count);
+		return;
+	}
+
 	auto& view = asset.bufferViews[*accessor.bufferViewIndex];
 	auto srcStride = view.byteStride.value_or(elemSize);
 
@@ -895,7 +903,7 @@ void copyComponentsFromAccessor(const Asset& asset, const Accessor& accessor, vo
 	} else {
 		for (std::size_t i = 0; i < accessor.count; ++i) {
 			for (std::size_t j = 0; j < componentCount; ++j) {
-				auto* pDest = reinterpret_cast<ComponentType*>(dstBytes + elemSize * i) + j;
+				auto* pDest = reinterpret_cast<ComponentType*>(dstBytes) + componentCount * i + j;
 				*pDest = internal::getAccessorComponentAt<ComponentType>(
 					accessor.componentType, accessor.type, &srcBytes[i * srcStride], j, accessor.normalized);
 			}
-- 
2.43.0


From 5f0078c03260546967ce0e8012122097ab97d074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 067/100] fix: generated mesh indices do not match the
 primitive topology, exceed the vertices and are fewer than the accessor says

---
 src/fastgltf.cpp | 86 +++++++++---------------------------------------
 1 file changed, 15 insertions(+), 71 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 4dc987a..f7409cc 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -852,54 +852,23 @@ template fg::Error fg::Parser::parseAttributes(simdjson::dom::object&, decltype(
 
 namespace fastgltf {
 	template<typename T>
-	void writeIndices(PrimitiveType type, span<T> indices, std::size_t primitiveCount) {
-		// Generate the correct indices for every primitive topology
-		switch (type) {
-			case PrimitiveType::Points: {
-				for (std::size_t i = 0; i < primitiveCount; ++i)
-					indices[i] = static_cast<T>(i);
-				break;
-			}
-			case PrimitiveType::Lines:
-			case PrimitiveType::LineLoop:
-			case PrimitiveType::LineStrip: {
-				for (std::size_t i = 0; i < primitiveCount; ++i) {
-					indices[i * 2 + 0] = static_cast<T>(i * 2 + 0);
-					indices[i * 2 + 1] = static_cast<T>(i * 2 + 1);
-				}
-				break;
-			}
-			case PrimitiveType::Triangles:
-			case PrimitiveType::TriangleStrip:
-			case PrimitiveType::TriangleFan: {
-				for (std::size_t i = 0; i < primitiveCount; ++i) {
-					indices[i * 3 + 0] = static_cast<T>(i * 3 + 0);
-					indices[i * 3 + 1] = static_cast<T>(i * 3 + 1);
-					indices[i * 3 + 2] = static_cast<T>(i * 3 + 2);
-				}
-				break;
-			}
-			default: FASTGLTF_UNREACHABLE
-		}
+	StaticVector<std::byte> writeIndices(std::size_t vertexCount) {
+		StaticVector<std::byte> generatedIndices(vertexCount * sizeof(T));
+		span<T> indices(reinterpret_cast<T*>(generatedIndices.data()), vertexCount);
+		for (std::size_t i = 0; i < vertexCount; ++i)
+			indices[i] = static_cast<T>(i);
+		return generatedIndices;
 	}
 
-	std::pair<StaticVector<std::byte>, ComponentType> writeIndices(PrimitiveType type, std::size_t indexCount, std::size_t primitiveCount) {
-		if (indexCount < 255) {
-			StaticVector<std::byte> generatedIndices(indexCount * sizeof(std::uint8_t));
-			span<std::uint8_t> indices(reinterpret_cast<std::uint8_t*>(generatedIndices.data()), generatedIndices.size() / sizeof(std::uint8_t));
-			writeIndices(type, indices, primitiveCount);
-			return std::make_pair(generatedIndices, ComponentType::UnsignedByte);
-		} else if (indexCount < 65535) {
-			StaticVector<std::byte> generatedIndices(indexCount * sizeof(std::uint16_t));
-			span<std::uint16_t> indices(reinterpret_cast<std::uint16_t*>(generatedIndices.data()), generatedIndices.size() / sizeof(std::uint16_t));
-			writeIndices(type, indices, primitiveCount);
-			return std::make_pair(generatedIndices, ComponentType::UnsignedShort);
-		} else {
-			StaticVector<std::byte> generatedIndices(indexCount * sizeof(std::uint32_t));
-			span<std::uint32_t> indices(reinterpret_cast<std::uint32_t*>(generatedIndices.data()), generatedIndices.size() / sizeof(std::uint32_t));
-			writeIndices(type, indices, primitiveCount);
-			return std::make_pair(generatedIndices, ComponentType::UnsignedInt);
+	// Lists all vertices in order, which draws the same as no indices for every topology. The maximum value
+	// of an index type is the primitive restart value, and therefore not a valid index.
+	std::pair<StaticVector<std::byte>, ComponentType> writeIndices(std::size_t vertexCount) {
+		if (vertexCount <= std::numeric_limits<std::uint8_t>::max()) {
+			return std::make_pair(writeIndices<std::uint8_t>(vertexCount), ComponentType::UnsignedByte);
+		} else if (vertexCount <= std::numeric_limits<std::uint16_t>::max()) {
+			return std::make_pair(writeIndices<std::uint16_t>(vertexCount), ComponentType::UnsignedShort);
 		}
+		return std::make_pair(writeIndices<std::uint32_t>(vertexCount), ComponentType::UnsignedInt);
 	}
 }
 
@@ -915,32 +884,7 @@ fg::Error fg::Parser::generateMeshIndices(fastgltf::Asset& asset) const {
 			}
 			auto positionCount = asset.accessors[positionAttribute->accessorIndex].count;
 
-			auto primitiveCount = [&]() -> std::size_t {
-				switch (primitive.type) {
-					case PrimitiveType::Points: return positionCount;
-					case PrimitiveType::Lines: return positionCount / 2;
-					case PrimitiveType::LineLoop:
-					case PrimitiveType::LineStrip: return max<std::size_t>(0, positionCount - 1);
-					case PrimitiveType::Triangles: return positionCount / 3;
-					case PrimitiveType::TriangleStrip: return max<std::size_t>(0U, positionCount - 2);
-					case PrimitiveType::TriangleFan: return max<std::size_t>(0U, positionCount - 2);
-					default: FASTGLTF_UNREACHABLE
-				}
-			}();
-			auto indexCount = [&]() -> std::size_t {
-				switch (primitive.type) {
-					case PrimitiveType::Points: return primitiveCount;
-					case PrimitiveType::Lines:
-					case PrimitiveType::LineLoop:
-					case PrimitiveType::LineStrip: return primitiveCount * 2;
-					case PrimitiveType::Triangles:
-					case PrimitiveType::TriangleStrip:
-					case PrimitiveType::TriangleFan: return primitiveCount * 3;
-					default: FASTGLTF_UNREACHABLE
-				}
-			}();
-
-			auto [generatedIndices, componentType] = writeIndices(primitive.type, indexCount, primitiveCount);
+			auto [generatedIndices, componentType] = writeIndices(positionCount);
 
 			auto bufferIdx = asset.buffers.size();
 			auto& buffer = asset.buffers.emplace_back();
-- 
2.43.0


From 3e01f6d271171d20a3e6dfdd3e549f853f936cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 068/100] fix: generating mesh indices refuses primitives
 without positions and reads absent accessors

---
 src/fastgltf.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index f7409cc..c4ab596 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -879,10 +879,18 @@ fg::Error fg::Parser::generateMeshIndices(fastgltf::Asset& asset) const {
 				continue;
 
 			auto* positionAttribute = primitive.findAttribute("POSITION");
-			if (positionAttribute == primitive.attributes.end()) {
+			if (positionAttribute == primitive.attributes.end())
+				continue;
+
+			// Without the accessors the vertex count is not known.
+			if (!hasBit(asset.availableCategories, Category::Accessors))
+				continue;
+			if (positionAttribute->accessorIndex >= asset.accessors.size())
 				return Error::InvalidGltf;
-			}
+
 			auto positionCount = asset.accessors[positionAttribute->accessorIndex].count;
+			if (positionCount == 0 || positionCount > std::numeric_limits<std::uint32_t>::max())
+				return Error::InvalidGltf;
 
 			auto [generatedIndices, componentType] = writeIndices(positionCount);
 
-- 
2.43.0


From 90ff11c897b1c9be9019da79db224d8aa27b8b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 069/100] fix: decomposing mirrored matrices, half turns and
 zero scales yields other transforms or NaN

---
 include/fastgltf/math.hpp | 114 ++++++++++++++++++++++++++------------
 1 file changed, 78 insertions(+), 36 deletions(-)

diff --git a/include/fastgltf/math.hpp b/include/fastgltf/math.hpp
index c2dab8f..b85dff7 100644
--- a/include/fastgltf/math.hpp
+++ b/include/fastgltf/math.hpp
@@ -911,47 +911,89 @@ namespace fastgltf::math {
 
 	/**
 	 * Decomposes a transform matrix into the translation, rotation, and scale components. This
-	 * function does not support skew, shear, or perspective. This currently uses a quick algorithm
-	 * to calculate the quaternion from the rotation matrix, which might occasionally loose some
-	 * precision, though we try to use doubles here.
+	 * function does not support skew, shear, or perspective. Mirrored matrices yield
+	 * negative scales, and the calculation uses doubles to not lose precision.
 	 */
 	FASTGLTF_EXPORT inline void decomposeTransformMatrix(fmat4x4 matrix, fvec3& scale, fquat& rotation, fvec3& translation) {
-		// Extract the translation. We zero the translation out, as we reuse the matrix as
-		// the rotation matrix at the end.
+		// Extract the translation.
 		translation = matrix.col(3);
-		matrix.col(3) = fvec4(0.f, 0.f, 0.f, matrix.col(3)[3]);
-
-		// Extract the scale. We calculate the euclidean length of the columns.
-		// We then construct a vector with those lengths.
-		scale = math::fvec3(
-			length(matrix.col(0)),
-			length(matrix.col(1)),
-			length(matrix.col(2))
-		);
-
-		// Remove the scaling from the matrix, leaving only the rotation.
-		// matrix is now the rotation matrix.
-		matrix.col(0) /= scale.x();
-		matrix.col(1) /= scale.y();
-		matrix.col(2) /= scale.z();
 
-		// Construct the quaternion. This algo is copied from here:
-		// https://www.euclideanspace.com/maths/geometry/rotations/conversions/matrixToQuaternion/christian.htm.
+		// Extract the scale. We calculate the euclidean length of the columns, using doubles for the precision
+		// and so that the squares don't overflow, and construct a vector with those lengths.
+		dvec3 axes[3], lengths;
+		for (std::size_t i = 0; i < 3; ++i) {
+			const auto col = matrix.col(i);
+			axes[i] = dvec3(static_cast<double>(col[0]), static_cast<double>(col[1]), static_cast<double>(col[2]));
+			lengths[i] = length(axes[i]);
+			// Remove the scaling from the columns, leaving only the rotation.
+			if (lengths[i] > 0.)
+				axes[i] /= lengths[i];
+		}
+
+		// Columns without any length don't have a direction, so any that completes the rotation does.
+		for (std::size_t i = 0; i < 3; ++i) {
+			if (lengths[i] > 0.)
+				continue;
+			auto& u = axes[(i + 1) % 3];
+			auto& v = axes[(i + 2) % 3];
+			if (dot(u, u) == 0. && dot(v, v) == 0.) {
+				axes[i] = dvec3(i == 0 ? 1. : 0., i == 1 ? 1. : 0., i == 2 ? 1. : 0.);
+			} else if (dot(u, u) == 0. || dot(v, v) == 0.) {
+				// Only one of the other columns has a direction, use anything perpendicular to it.
+				const auto& other = dot(u, u) == 0. ? v : u;
+				const auto helper = std::abs(other[0]) < 0.5 ? dvec3(1., 0., 0.) : dvec3(0., 1., 0.);
+				axes[i] = cross(other, helper);
+				axes[i] /= length(axes[i]);
+			} else {
+				axes[i] = cross(u, v);
+			}
+		}
+
+		// If the columns form a left-handed system there's no rotation that yields them, so we need to mirror the scale.
+		if (dot(axes[0], cross(axes[1], axes[2])) < 0.) {
+			for (std::size_t i = 0; i < 3; ++i) {
+				axes[i] = axes[i] * -1.;
+				lengths[i] *= -1.;
+			}
+		}
+		scale = fvec3(static_cast<float>(lengths[0]), static_cast<float>(lengths[1]), static_cast<float>(lengths[2]));
+
+		// Construct the quaternion. We get the largest component from the diagonal, which is the precise one,
+		// and calculate the others from it, as their signs can't be determined from the diagonal.
 		// glTF orders the components as x,y,z,w
-		rotation = math::fquat(
-			max(.0f, 1.f + matrix[0][0] - matrix[1][1] - matrix[2][2]),
-			max(.0f, 1.f - matrix[0][0] + matrix[1][1] - matrix[2][2]),
-			max(.0f, 1.f - matrix[0][0] - matrix[1][1] + matrix[2][2]),
-			max(.0f, 1.f + matrix[0][0] + matrix[1][1] + matrix[2][2])
-		);
-		rotation.x() = static_cast<float>(sqrt(static_cast<double>(rotation.x()))) / 2;
-		rotation.y() = static_cast<float>(sqrt(static_cast<double>(rotation.y()))) / 2;
-		rotation.z() = static_cast<float>(sqrt(static_cast<double>(rotation.z()))) / 2;
-		rotation.w() = static_cast<float>(sqrt(static_cast<double>(rotation.w()))) / 2;
-
-		rotation.x() = std::copysignf(rotation.x(), matrix[1][2] - matrix[2][1]);
-		rotation.y() = std::copysignf(rotation.y(), matrix[2][0] - matrix[0][2]);
-		rotation.z() = std::copysignf(rotation.z(), matrix[0][1] - matrix[1][0]);
+		const double squares[4] = {
+			1. + axes[0][0] - axes[1][1] - axes[2][2],
+			1. - axes[0][0] + axes[1][1] - axes[2][2],
+			1. - axes[0][0] - axes[1][1] + axes[2][2],
+			1. + axes[0][0] + axes[1][1] + axes[2][2],
+		};
+		std::size_t largest = 3;
+		for (std::size_t i = 0; i < 3; ++i) {
+			if (squares[i] > squares[largest])
+				largest = i;
+		}
+
+		const auto root = std::sqrt(squares[largest]);
+		const auto factor = 0.5 / root;
+		double components[4];
+		components[largest] = root / 2;
+		if (largest == 3) {
+			components[0] = (axes[1][2] - axes[2][1]) * factor;
+			components[1] = (axes[2][0] - axes[0][2]) * factor;
+			components[2] = (axes[0][1] - axes[1][0]) * factor;
+		} else {
+			const auto j = (largest + 1) % 3;
+			const auto k = (largest + 2) % 3;
+			components[j] = (axes[largest][j] + axes[j][largest]) * factor;
+			components[k] = (axes[largest][k] + axes[k][largest]) * factor;
+			components[3] = (axes[j][k] - axes[k][j]) * factor;
+			if (components[3] < 0.) {
+				for (auto& component : components)
+					component = -component;
+			}
+		}
+		rotation = fquat(static_cast<float>(components[0]), static_cast<float>(components[1]),
+		                 static_cast<float>(components[2]), static_cast<float>(components[3]));
 	}
 } // namespace fastgltf::math
 
-- 
2.43.0


From 2495ca7ef3383c5af4edcf3b6ee100a2367d35ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 070/100] fix: walking a deep node hierarchy overflows the
 stack

---
 include/fastgltf/tools.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/fastgltf/tools.hpp b/include/fastgltf/tools.hpp
index 936fe84..adf8f7f 100644
--- a/include/fastgltf/tools.hpp
+++ b/include/fastgltf/tools.hpp
@@ -944,20 +944,26 @@ requires std::same_as<std::remove_cvref_t<AssetType>, Asset>
 void iterateSceneNodes(AssetType&& asset, std::size_t sceneIndex, math::fmat4x4 initial, Callback callback) {
 	auto& scene = asset.scenes[sceneIndex];
 
-	auto function = [&](std::size_t nodeIndex, math::fmat4x4 nodeMatrix, auto& self) -> void {
+	// Node hierarchies can be arbitrarily deep, so this keeps its own stack of the nodes left to visit.
+	std::vector<std::pair<std::size_t, math::fmat4x4>> pending;
+	const auto pushNodes = [&pending](const auto& nodeIndices, const math::fmat4x4& matrix) {
+		for (auto i = nodeIndices.size(); i > 0; --i) {
+			pending.emplace_back(nodeIndices[i - 1], matrix);
+		}
+	};
+
+	pushNodes(scene.nodeIndices, initial);
+	while (!pending.empty()) {
+		const auto [nodeIndex, parentMatrix] = pending.back();
+		pending.pop_back();
+
 		assert(asset.nodes.size() > nodeIndex);
 		auto& node = asset.nodes[nodeIndex];
-		nodeMatrix = getTransformMatrix(node, nodeMatrix);
+		const auto nodeMatrix = getTransformMatrix(node, parentMatrix);
 
-		std::invoke(callback, node, std::as_const(nodeMatrix));
-
-		for (auto& child : node.children) {
-			self(child, nodeMatrix, self);
-		}
-	};
+		std::invoke(callback, node, nodeMatrix);
 
-	for (auto& sceneNode : scene.nodeIndices) {
-		function(sceneNode, initial, function);
+		pushNodes(node.children, nodeMatrix);
 	}
 }
 
-- 
2.43.0


From 4c24405d9d634891158a0097b23f025bb0717261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 071/100] fix: pretty-printing mistakes escaped backslashes,
 strings before other tokens and the end of the text

---
 src/fastgltf.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index c4ab596..356526d 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5152,13 +5152,12 @@ void fg::prettyPrintJson(std::string& json) {
     while (i < json.size()) {
         if (json[i] == '"') {
             // Skip to the end of the string
-            do {
-                ++i;
-                if (json[i] == '"' && json[i - 1] != '\\') {
-                    break;
-                }
-            } while (true);
+            ++i;
+            while (i < json.size() && json[i] != '"') {
+                i += json[i] == '\\' ? 2 : 1; // Skip over escaped characters
+            }
             ++i; // Skip over the last "
+            continue;
         }
 
         switch (json[i]) {
@@ -5168,7 +5167,8 @@ void fg::prettyPrintJson(std::string& json) {
                 insertNewline();
                 break;
             case '}': case ']':
-                --depth;
+                if (depth > 0)
+                    --depth;
                 insertNewline();
                 ++i; // Insert \n before the character
                 break;
-- 
2.43.0


From 126ca1273d409a7bd459b6fd5db07791bd1b4fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 072/100] fix: escaping skips characters after an escaped one
 and leaves control characters

---
 src/fastgltf.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 356526d..fb9d7c9 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5186,7 +5186,7 @@ void fg::prettyPrintJson(std::string& json) {
 namespace fastgltf {
 	static void escapeString(std::string& string) {
 		std::size_t i = 0;
-		do {
+		while (i < string.size()) {
 			switch (string[i]) {
 				case '\"': {
 					constexpr std::string_view s = "\\\"";
@@ -5200,11 +5200,21 @@ namespace fastgltf {
 					i += s.size();
 					break;
 				}
-				default:
+				default: {
+					const auto c = static_cast<unsigned char>(string[i]);
+					if (c < 0x20) {
+						// Control characters may not appear in JSON strings (RFC 8259, section 7).
+						constexpr std::string_view digits = "0123456789abcdef";
+						const std::array<char, 6> s = {'\\', 'u', '0', '0', digits[c >> 4U], digits[c & 0xFU]};
+						string.replace(i, 1, s.data(), s.size());
+						i += s.size();
+					} else {
+						++i;
+					}
 					break;
+				}
 			}
-			++i;
-		} while (i < string.size());
+		}
 	}
 
 	/**
-- 
2.43.0


From 80c34d27600904ad2471b2d885a5c3420630b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 073/100] fix: an exporter that failed once fails for every
 further asset

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index fb9d7c9..314ef1e 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7220,6 +7220,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
 fg::Expected<fg::ExportResult<std::string>> fg::Exporter::writeGltfJson(const Asset& asset, ExportOptions _options) {
     bufferPaths.clear();
     imagePaths.clear();
+    errorCode = Error::None;
     options = _options;
 	exportingBinary = false;
 
@@ -7245,6 +7246,7 @@ fg::Expected<fg::ExportResult<std::string>> fg::Exporter::writeGltfJson(const As
 fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBinary(const Asset& asset, ExportOptions _options) {
     bufferPaths.clear();
     imagePaths.clear();
+    errorCode = Error::None;
     options = _options;
 	exportingBinary = true;
 
-- 
2.43.0


From 8e8fd6794f91e75576a2c5088c12338e8e877d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 074/100] fix: spot light cone angles are exported as invalid
 JSON

---
 src/fastgltf.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 314ef1e..b13e6ce 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5782,11 +5782,15 @@ void fg::Exporter::writeLights(const Asset& asset, std::string& json) {
 		}
 
 		if (it->type == LightType::Spot) {
+			json += R"(,"spot":{)";
 			if (it->innerConeAngle.has_value())
-				json += R"("innerConeAngle":)" + to_string_fp(it->innerConeAngle.value()) + ',';
+				json += R"("innerConeAngle":)" + to_string_fp(it->innerConeAngle.value());
 
-			if (it->outerConeAngle.has_value())
-				json += R"("outerConeAngle":)" + to_string_fp(it->outerConeAngle.value()) + ',';
+			if (it->outerConeAngle.has_value()) {
+				if (json.back() != '{') json += ',';
+				json += R"("outerConeAngle":)" + to_string_fp(it->outerConeAngle.value());
+			}
+			json += '}';
 		}
 
 		if (!it->name.empty())
-- 
2.43.0


From 63f4c55caad6c8d43950eb19656042775011371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 075/100] fix: packed occlusion/roughness/metallic textures are
 exported without separators

---
 src/fastgltf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index b13e6ce..6ad1738 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6154,10 +6154,12 @@ void fg::Exporter::writeMaterials(const Asset& asset, std::string& json) {
 				writeTextureInfo(json, &it->packedOcclusionRoughnessMetallicTextures->occlusionRoughnessMetallicTexture.value());
 			}
 			if (it->packedOcclusionRoughnessMetallicTextures->roughnessMetallicOcclusionTexture.has_value()) {
+				if (json.back() != '{') json += ',';
 				json += R"("roughnessMetallicOcclusionTexture":)";
 				writeTextureInfo(json, &it->packedOcclusionRoughnessMetallicTextures->roughnessMetallicOcclusionTexture.value());
 			}
 			if (it->packedOcclusionRoughnessMetallicTextures->normalTexture.has_value()) {
+				if (json.back() != '{') json += ',';
 				json += R"("normalTexture":)";
 				writeTextureInfo(json, &it->packedOcclusionRoughnessMetallicTextures->normalTexture.value());
 			}
-- 
2.43.0


From f78f4bf7a35790520c4175a66f3638119626804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 076/100] fix: exporting variants reads beyond the mappings of
 a primitive

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 6ad1738..0e7ec3f 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6250,7 +6250,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
 				if (!itp->mappings.empty()) {
 					json += R"("KHR_materials_variants":{"mappings":[)";
 					// TODO: We should optimise to avoid writing multiple objects for the same material index
-					for (std::size_t i = 0; i < asset.materialVariants.size(); ++i) {
+					for (std::size_t i = 0; i < itp->mappings.size(); ++i) {
 						if (!itp->mappings[i].has_value())
 							continue;
 						if (json.back() == '}')
-- 
2.43.0


From 225338993cead30b758000a0ead21ebc58301e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 077/100] fix: a texture without sampler and image is exported
 as invalid JSON if it has a name

---
 src/fastgltf.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 0e7ec3f..97f9ef1 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6737,8 +6737,10 @@ void fg::Exporter::writeTextures(const Asset& asset, std::string& json) {
 			}
 		}
 
-		if (!it->name.empty())
-			json += R"(,"name":")" + fg::escapeString(it->name) + '"';
+		if (!it->name.empty()) {
+			if (json.back() != '{') json += ',';
+			json += R"("name":")" + fg::escapeString(it->name) + '"';
+		}
 		json += '}';
 		if (uabs(std::distance(asset.textures.begin(), it)) + 1 <asset.textures.size())
 			json += ',';
-- 
2.43.0


From 8ee0f2223fbc64fc3196b7f019d19c3dceb1c27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:36 +0000
Subject: [PATCH 078/100] fix: attribute, extension, variant and collision
 system names and versions are exported unescaped

---
 src/fastgltf.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 97f9ef1..5baf64b 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6207,7 +6207,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
                 {
                     json += R"("attributes":{)";
                     for (auto ita = itp->attributes.begin(); ita != itp->attributes.end(); ++ita) {
-                        json += '"' + std::string(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+                        json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
                         if (uabs(std::distance(itp->attributes.begin(), ita)) + 1 <itp->attributes.size())
                             json += ',';
                     }
@@ -6228,7 +6228,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
             		for (auto itt = itp->targets.begin(); itt != itp->targets.end(); ++itt) {
 						json += '{';
 						for (auto ita = itt->begin(); ita != itt->end(); ++ita) {
-							json += '"' + std::string(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+							json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
 							if (uabs(std::distance(itt->begin(), ita)) + 1 < itt->size())
 								json += ',';
 						}
@@ -6267,7 +6267,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
 					json += R"("bufferView":)" + std::to_string(itp->dracoCompression->bufferView) + ',';
 					json += R"("attributes":{)";
 					for (auto ita = itp->dracoCompression->attributes.begin(); ita != itp->dracoCompression->attributes.end(); ++ita) {
-						json += '"' + std::string(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+						json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
 						if (uabs(std::distance(itp->dracoCompression->attributes.begin(), ita)) + 1 < itp->dracoCompression->attributes.size())
 							json += ',';
 					}
@@ -6425,7 +6425,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 			if (!it->instancingAttributes.empty()) {
 				json += R"("EXT_mesh_gpu_instancing":{"attributes":{)";
 				for (auto ait = it->instancingAttributes.begin(); ait != it->instancingAttributes.end(); ++ait) {
-					json += '"' + std::string(ait->name) + "\":" + std::to_string(ait->accessorIndex);
+					json += '"' + fg::escapeString(ait->name) + "\":" + std::to_string(ait->accessorIndex);
 					if (uabs(std::distance(it->instancingAttributes.begin(), ait)) + 1 <
 						it->instancingAttributes.size())
 						json += ',';
@@ -6889,7 +6889,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			json += R"("collisionSystems":[)";
 			for (auto systemIt = filter.collisionSystems.begin(); systemIt != filter.collisionSystems.end(); ++systemIt) {
 				json += '"';
-				json += *systemIt;
+				json += fg::escapeString(*systemIt);
 				json += '"';
 
 				if (uabs(std::distance(filter.collisionSystems.begin(), systemIt)) + 1 < filter.collisionSystems.size()) {
@@ -6906,7 +6906,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			json += R"("collideWithSystems":[)";
 			for (auto systemIt = filter.collideWithSystems.begin(); systemIt != filter.collideWithSystems.end(); ++systemIt) {
 				json += '"';
-				json += *systemIt;
+				json += fg::escapeString(*systemIt);
 				json += '"';
 
 				if (uabs(std::distance(filter.collideWithSystems.begin(), systemIt)) + 1 < filter.collideWithSystems.size()) {
@@ -6923,7 +6923,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			json += R"("notCollideWithSystems":[)";
 			for (auto systemIt = filter.notCollideWithSystems.begin(); systemIt != filter.notCollideWithSystems.end(); ++systemIt) {
 				json += '"';
-				json += *systemIt;
+				json += fg::escapeString(*systemIt);
 				json += '"';
 
 				if (uabs(std::distance(filter.notCollideWithSystems.begin(), systemIt)) + 1 < filter.notCollideWithSystems.size()) {
@@ -7113,7 +7113,7 @@ void fg::Exporter::writeExtensions(const fastgltf::Asset& asset, std::string& js
 		for (const auto& variant : asset.materialVariants) {
 			if (json.back() == '}')
 				json += ',';
-			json += R"({"name":")" + variant + "\"}";
+			json += R"({"name":")" + fg::escapeString(variant) + "\"}";
 		}
 		json += "]}";
 	}
@@ -7172,7 +7172,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
             outputString += R"("copyright":")" + fg::escapeString(asset.assetInfo->copyright) + "\",";
         if (!asset.assetInfo->generator.empty())
             outputString += R"("generator":")" + fg::escapeString(asset.assetInfo->generator) + "\",";
-        outputString += R"("version":")" + asset.assetInfo->gltfVersion + '"';
+        outputString += R"("version":")" + fg::escapeString(asset.assetInfo->gltfVersion) + '"';
     } else {
         outputString += R"("generator":"fastgltf",)";
         outputString += R"("version":"2.0")";
@@ -7184,7 +7184,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
 		if (outputString.back() != '{') outputString += ',';
 		outputString += "\"extensionsUsed\":[";
 		for (auto it = asset.extensionsUsed.begin(); it != asset.extensionsUsed.end(); ++it) {
-			outputString += '\"' + *it + '\"';
+			outputString += '\"' + fg::escapeString(*it) + '\"';
 			if (uabs(std::distance(asset.extensionsUsed.begin(), it)) + 1 <asset.extensionsUsed.size())
 				outputString += ',';
 		}
@@ -7194,7 +7194,7 @@ std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
 		if (outputString.back() != '{') outputString += ',';
 		outputString += "\"extensionsRequired\":[";
 		for (auto it = asset.extensionsRequired.begin(); it != asset.extensionsRequired.end(); ++it) {
-			outputString += '\"' + *it + '\"';
+			outputString += '\"' + fg::escapeString(*it) + '\"';
 			if (uabs(std::distance(asset.extensionsRequired.begin(), it)) + 1 <asset.extensionsRequired.size())
 				outputString += ',';
 		}
-- 
2.43.0


From f15151a28dd6e9a5a91911084cfe6cc3db7dbefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:37 +0000
Subject: [PATCH 079/100] fix: rigid bodies of nodes are exported as invalid
 JSON under other names

---
 src/fastgltf.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 5baf64b..91bca3a 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6440,23 +6440,23 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 #if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
 			if (it->physicsRigidBody) {
 				if (json.back() != '{') json += ',';
-				json += R"("KHR_physics_rigid_body":{)";
+				json += R"("KHR_physics_rigid_bodies":{)";
 				if (it->physicsRigidBody->motion.has_value()) {
 					const auto& motion = *it->physicsRigidBody->motion;
-					json += R"("motion":{"isKinematic":)" + std::to_string(motion.isKinematic);
+					json += R"("motion":{"isKinematic":)" + std::string(motion.isKinematic ? "true" : "false");
 					if (motion.mass.has_value()) {
 						json += R"(,"mass":)" + to_string_fp(*motion.mass);
 					}
 					json += R"(,"centerOfMass":[)" + to_string(motion.centerOfMass) + ']';
 					if (motion.inertialDiagonal.has_value()) {
-						json += R"(,"inertialDiagonal":[)" + to_string(*motion.inertialDiagonal) + ']';
+						json += R"(,"inertiaDiagonal":[)" + to_string(*motion.inertialDiagonal) + ']';
 					}
 					if (motion.inertialOrientation.has_value()) {
 						json += R"(,"inertialOrientation":[)" + to_string(*motion.inertialOrientation) + ']';
 					}
-					json += R"(,"linearVelocity":)" + to_string(motion.linearVelocity)
+					json += R"(,"linearVelocity":[)" + to_string(motion.linearVelocity)
 				        + R"(],"angularVelocity":[)" + to_string(motion.angularVelocity)
-				        + R"(],"gravityFactor":[)" + to_string_fp(motion.gravityFactor) + '}';
+				        + R"(],"gravityFactor":)" + to_string_fp(motion.gravityFactor) + '}';
 				}
 
 				if (it->physicsRigidBody->trigger.has_value()) {
@@ -6471,7 +6471,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 							} else if(geometry.geometry.node.has_value()) {
 								json += R"("node":)" + std::to_string(*geometry.geometry.node) + ',';
 							}
-							json += R"("convexHull":)" + std::to_string(geometry.geometry.convexHull) + '}';
+							json += R"("convexHull":)" + std::string(geometry.geometry.convexHull ? "true" : "false") + '}';
 
 							if (geometry.collisionFilter.has_value()) {
 								json += R"(,"collisionFilter":)" + std::to_string(*geometry.collisionFilter);
@@ -6495,7 +6495,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					const auto& joint = *it->physicsRigidBody->joint;
 					json += R"("joint":{"connectedNode":)" + std::to_string(joint.connectedNode)
 				        + R"(,"joint":)" + std::to_string(joint.joint)
-				        + R"(,"enableCollision":)" + std::to_string(joint.enableCollision) + '}';
+				        + R"(,"enableCollision":)" + std::string(joint.enableCollision ? "true" : "false") + '}';
 				}
 
 				if (it->physicsRigidBody->collider.has_value()) {
@@ -6509,7 +6509,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					} else if (collider.geometry.node.has_value()) {
 						json += R"("node":)" + std::to_string(*collider.geometry.node) + ',';
 					}
-					json += R"("convexHull":)" + std::to_string(collider.geometry.convexHull) + '}';
+					json += R"("convexHull":)" + std::string(collider.geometry.convexHull ? "true" : "false") + '}';
 
 					if (collider.physicsMaterial.has_value()) {
 						json += R"(,"physicsMaterial":)" + std::to_string(*collider.physicsMaterial);
@@ -6519,6 +6519,7 @@ void fg::Exporter::writeNodes(const Asset& asset, std::string& json) {
 					}
 					json += '}';
 				}
+				json += '}';
 			}
 #endif
 
-- 
2.43.0


From e9224755a41baf10fc06bf7f65f4dbf6eb0a3e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:37 +0000
Subject: [PATCH 080/100] fix: collision filters are exported with trailing
 commas and the extras of shapes

---
 src/fastgltf.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 91bca3a..9452ea6 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6899,11 +6899,11 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			}
 			json += ']';
 		}
-		if (json.back() == ']') {
-			json += ',';
-		}
 
 		if (!filter.collideWithSystems.empty()) {
+			if (json.back() != '{') {
+				json += ',';
+			}
 			json += R"("collideWithSystems":[)";
 			for (auto systemIt = filter.collideWithSystems.begin(); systemIt != filter.collideWithSystems.end(); ++systemIt) {
 				json += '"';
@@ -6916,11 +6916,11 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 			}
 			json += ']';
 		}
-		if (json.back() == ']') {
-			json += ',';
-		}
 
 		if (!filter.notCollideWithSystems.empty()) {
+			if (json.back() != '{') {
+				json += ',';
+			}
 			json += R"("notCollideWithSystems":[)";
 			for (auto systemIt = filter.notCollideWithSystems.begin(); systemIt != filter.notCollideWithSystems.end(); ++systemIt) {
 				json += '"';
@@ -6935,7 +6935,7 @@ void fg::Exporter::writeCollisionFilters(const Asset& asset, std::string& json)
 		}
 
 		if (extrasWriteCallback != nullptr) {
-			auto extras = extrasWriteCallback(uabs(std::distance(asset.collisionFilters.begin(), it)), fastgltf::Category::Shapes, userPointer);
+			auto extras = extrasWriteCallback(uabs(std::distance(asset.collisionFilters.begin(), it)), fastgltf::Category::CollisionFilters, userPointer);
 			if (extras.has_value()) {
 				if (json.back() != '{') {
 					json += ',';
-- 
2.43.0


From b96d0e018a35f183f1e32a7514d3e2044e9c8942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:37 +0000
Subject: [PATCH 081/100] fix: the media type of images with URIs, WebP
 extensions and views of bytes are lost when exporting images

---
 src/fastgltf.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 9452ea6..d34744a 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5719,8 +5719,19 @@ void fg::Exporter::writeImages(const Asset& asset, std::string& json) {
 			},
 			[&](const sources::URI& uri) {
 				json += std::string(R"("uri":")") + fg::escapeString(uri.uri.string()) + '"';
+				if (uri.mimeType != MimeType::None) {
+					json += std::string(R"(,"mimeType":")") + std::string(getMimeTypeString(uri.mimeType)) + '"';
+				}
                 imagePaths.emplace_back(std::nullopt);
 			},
+			[&](const sources::ByteView& view) {
+				auto path = getImageFilePath(asset, imageIdx, view.mimeType);
+				json += std::string(R"("uri":")") + fg::normalizeAndFormatPath(path) + '"';
+				if (view.mimeType != MimeType::None) {
+					json += std::string(R"(,"mimeType":")") + std::string(getMimeTypeString(view.mimeType)) + '"';
+				}
+				imagePaths.emplace_back(path);
+			},
 		}, it->data);
 		if (errorCode != Error::None)
 			return;
@@ -7145,6 +7156,9 @@ fs::path fg::Exporter::getImageFilePath(const Asset& asset, std::size_t index, M
 		case MimeType::DDS:
 			extension = ".dds";
 			break;
+		case MimeType::WEBP:
+			extension = ".webp";
+			break;
 		default:
 		case MimeType::None:
 		case MimeType::GltfBuffer:
-- 
2.43.0


From 86a95958e34b7639921780478912bbd60162fe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:04 +0000
Subject: [PATCH 082/100] fix: URIs are exported decoded, so that they refer to
 other resources or are no URIs

---
 src/fastgltf.cpp | 97 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 90 insertions(+), 7 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index d34744a..8d48550 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -5218,13 +5218,96 @@ namespace fastgltf {
 	}
 
 	/**
-	 * Normalizes the path using lexically_normal, calls generic_string to always use forward slashes,
-	 * and escapes any necessary characters.
+	 * Percent-encodes every ASCII character which is neither unreserved (RFC 3986, section 2.3), nor
+	 * one of the given reserved characters. Non-ASCII characters are allowed in IRIs, and are kept.
+	 */
+	static void appendPercentEncoded(std::string& string, std::string_view component, std::string_view reserved) {
+		constexpr std::string_view digits = "0123456789ABCDEF";
+		for (const auto ch : component) {
+			const auto c = static_cast<unsigned char>(ch);
+			const bool unreserved = c >= 0x80 || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')
+				|| c == '-' || c == '.' || c == '_' || c == '~';
+			if (unreserved || (c != 0 && reserved.find(ch) != std::string_view::npos)) {
+				string += ch;
+			} else {
+				string += '%';
+				string += digits[c >> 4U];
+				string += digits[c & 0xFU];
+			}
+		}
+	}
+
+	/**
+	 * Percent-encodes the path component of a URI. The path might be mistaken for an authority if it
+	 * starts with two slashes, and its first segment for a scheme if it contains a colon.
+	 */
+	static void appendPercentEncodedPath(std::string& string, std::string_view path, bool withColons) {
+		if (startsWith(path, "//")) {
+			string += "/%2F";
+			path.remove_prefix(2);
+		}
+		appendPercentEncoded(string, path, withColons ? "/!$&'()*+,;=@:" : "/!$&'()*+,;=@");
+	}
+
+	/**
+	 * Since sources::URI holds a decoded URI, the components have to be encoded again, so that decoding
+	 * yields the same components.
+	 */
+	static std::string encodeUri(const URI& uri) {
+		const auto string = uri.string();
+		std::string encoded;
+		encoded.reserve(string.size());
+
+		std::size_t position = 0;
+		const auto appendUntil = [&](std::string_view component) {
+			// Only contains delimiters, unless the URI is not valid.
+			const auto begin = static_cast<std::size_t>(component.data() - string.data());
+			appendPercentEncoded(encoded, string.substr(position, begin - position), ":/?#[]@!$&'()*+,;=");
+			position = begin + component.size();
+		};
+
+		if (const auto scheme = uri.scheme(); !scheme.empty()) {
+			appendUntil(scheme);
+			appendPercentEncoded(encoded, scheme, "+");
+		}
+		if (const auto userinfo = uri.userinfo(); !userinfo.empty()) {
+			appendUntil(userinfo);
+			appendPercentEncoded(encoded, userinfo, "!$&'()*+,;=:");
+		}
+		if (const auto host = uri.host(); !host.empty()) {
+			appendUntil(host);
+			const bool isLiteral = !encoded.empty() && encoded.back() == '[';
+			appendPercentEncoded(encoded, host, isLiteral ? "!$&'()*+,;=:" : "!$&'()*+,;=");
+		}
+		if (const auto port = uri.port(); !port.empty()) {
+			appendUntil(port);
+			appendPercentEncoded(encoded, port, "");
+		}
+		if (const auto path = uri.path(); !path.empty()) {
+			appendUntil(path);
+			appendPercentEncodedPath(encoded, path, !uri.scheme().empty());
+		}
+		if (const auto query = uri.query(); !query.empty()) {
+			appendUntil(query);
+			appendPercentEncoded(encoded, query, "!$&'()*+,;=:@/?");
+		}
+		if (const auto fragment = uri.fragment(); !fragment.empty()) {
+			appendUntil(fragment);
+			appendPercentEncoded(encoded, fragment, "!$&'()*+,;=:@/?");
+		}
+		appendPercentEncoded(encoded, string.substr(position), ":/?#[]@!$&'()*+,;=");
+		return encoded;
+	}
+
+	/**
+	 * Normalizes the path using lexically_normal, uses the generic UTF-8 format to always use forward slashes,
+	 * and encodes the path as an URI. This never yields any characters that have to be escaped.
 	 */
 	static std::string normalizeAndFormatPath(const fs::path& path) {
-		auto string = path.lexically_normal().generic_string();
-		escapeString(string);
-		return string;
+		const auto string = path.lexically_normal().generic_u8string();
+		std::string encoded;
+		appendPercentEncodedPath(encoded, { reinterpret_cast<const char*>(string.data()), string.size() }, false);
+		return encoded;
 	}
 
 	// replacement for std::to_string that uses simdjson's grisu2 implementation, which is
@@ -5524,7 +5607,7 @@ void fg::Exporter::writeBuffers(const Asset& asset, std::string& json) {
                 bufferPaths.emplace_back(path);
 			},
 			[&](const sources::URI& uri) {
-				json += std::string(R"("uri":")") + fg::escapeString(uri.uri.string()) + '"' + ',';
+				json += std::string(R"("uri":")") + fg::encodeUri(uri.uri) + '"' + ',';
                 bufferPaths.emplace_back(std::nullopt);
 			},
 			[&]([[maybe_unused]] const sources::Fallback& fallback) {
@@ -5718,7 +5801,7 @@ void fg::Exporter::writeImages(const Asset& asset, std::string& json) {
 				imagePaths.emplace_back(path);
 			},
 			[&](const sources::URI& uri) {
-				json += std::string(R"("uri":")") + fg::escapeString(uri.uri.string()) + '"';
+				json += std::string(R"("uri":")") + fg::encodeUri(uri.uri) + '"';
 				if (uri.mimeType != MimeType::None) {
 					json += std::string(R"(,"mimeType":")") + std::string(getMimeTypeString(uri.mimeType)) + '"';
 				}
-- 
2.43.0


From ba3cc84a867ce6de585823f1ccf6ac23a035e2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 083/100] fix: exported files overwrite each other or leave the
 target folder depending on the names

---
 src/fastgltf.cpp | 63 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 10 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 8d48550..9ce4c72 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -29,6 +29,7 @@
 #error "fastgltf requires C++17"
 #endif
 
+#include <algorithm>
 #include <cctype>
 #include <fstream>
 #include <functional>
@@ -7216,12 +7217,57 @@ void fg::Exporter::writeExtensions(const fastgltf::Asset& asset, std::string& js
     json += '}';
 }
 
+namespace fastgltf {
+	/**
+	 * Checks if the name can be used as the name of a single file on all common filesystems.
+	 */
+	static bool isValidFileName(std::string_view name) {
+		constexpr std::size_t maxLength = 200;
+		if (name.empty() || name.size() > maxLength)
+			return false;
+		return std::none_of(name.begin(), name.end(), [](char c) {
+			return static_cast<unsigned char>(c) < 0x20 || std::string_view("/\\:*?\"<>|").find(c) != std::string_view::npos;
+		});
+	}
+
+	/**
+	 * Finds a path for a new file which no other buffer or image of the asset uses.
+	 */
+	static fs::path getUniqueFilePath(const Asset& asset, const std::vector<std::optional<fs::path>>& bufferPaths,
+			const std::vector<std::optional<fs::path>>& imagePaths, const fs::path& folder,
+			std::string_view name, const std::string& fallbackName, std::string_view extension) {
+		const auto isUsed = [&](const fs::path& path) {
+			const auto normalized = path.lexically_normal();
+			const auto isSame = [&](const std::optional<fs::path>& other) {
+				return other.has_value() && other->lexically_normal() == normalized;
+			};
+			const auto refersTo = [&](const auto& object) {
+				const auto* uri = std::get_if<sources::URI>(&object.data);
+				return uri != nullptr && uri->uri.isLocalPath() && uri->uri.fspath().lexically_normal() == normalized;
+			};
+			return std::any_of(bufferPaths.begin(), bufferPaths.end(), isSame)
+				|| std::any_of(imagePaths.begin(), imagePaths.end(), isSame)
+				|| std::any_of(asset.buffers.begin(), asset.buffers.end(), refersTo)
+				|| std::any_of(asset.images.begin(), asset.images.end(), refersTo);
+		};
+
+		if (isValidFileName(name)) {
+			auto path = folder / (std::string(name) + std::string(extension));
+			if (!isUsed(path))
+				return path;
+		}
+
+		auto path = folder / (fallbackName + std::string(extension));
+		for (std::size_t i = 0; isUsed(path); ++i) {
+			path = folder / (fallbackName + '_' + std::to_string(i) + std::string(extension));
+		}
+		return path;
+	}
+} // namespace fastgltf
+
 fs::path fg::Exporter::getBufferFilePath(const Asset& asset, std::size_t index) {
-    const auto& bufferName = asset.buffers[index].name;
-    if (bufferName.empty()) {
-        return bufferFolder / ("buffer" + std::to_string(index) + ".bin");
-    }
-	return bufferFolder / (bufferName + ".bin");
+	return getUniqueFilePath(asset, bufferPaths, imagePaths, bufferFolder, asset.buffers[index].name,
+		"buffer" + std::to_string(index), ".bin");
 }
 
 fs::path fg::Exporter::getImageFilePath(const Asset& asset, std::size_t index, MimeType mimeType) {
@@ -7250,11 +7296,8 @@ fs::path fg::Exporter::getImageFilePath(const Asset& asset, std::size_t index, M
 			break;
     }
 
-    const auto& imageName = asset.images[index].name;
-	if (imageName.empty()) {
-		return imageFolder / ("image" + std::to_string(index) + std::string(extension));
-	}
-	return imageFolder / (std::string(imageName) + std::string(extension));
+	return getUniqueFilePath(asset, bufferPaths, imagePaths, imageFolder, asset.images[index].name,
+		"image" + std::to_string(index), extension);
 }
 
 std::string fg::Exporter::writeJson(const fastgltf::Asset &asset) {
-- 
2.43.0


From 64c7275254915b2030e7bf7e9c89fb0b4e4b18db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 084/100] fix: exporting to the current folder or a nested new
 folder fails, and failed writes are not reported

---
 src/fastgltf.cpp | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 9ce4c72..f61768e 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7494,9 +7494,10 @@ namespace fastgltf {
 	bool writeFile(const DataSource& dataSource, const fs::path& baseFolder, const fs::path& filePath) {
 		// Get the final normalized path. TODO: Perhaps move these filesystem checks to the parent function?
 		auto finalPath = (baseFolder / filePath).lexically_normal();
-		if (std::error_code ec; !fs::exists(finalPath.parent_path(), ec) || ec) {
+		const auto parentPath = finalPath.parent_path();
+		if (std::error_code ec; !parentPath.empty() && (!fs::exists(parentPath, ec) || ec)) {
 			// If the parent folder of the destination file does not exist, we'll create it.
-			fs::create_directory(finalPath.parent_path(), ec);
+			fs::create_directories(parentPath, ec);
 			if (ec) {
 				return false;
 			}
@@ -7537,7 +7538,16 @@ namespace fastgltf {
 	}
 
 	template<typename T>
-	bool writeFiles(const Asset& asset, ExportResult<T> &result, const fs::path& baseFolder) {
+	bool writeFiles(const Asset& asset, ExportResult<T> &result, const fs::path& baseFolder, const fs::path& target) {
+		// None of the files may overwrite the glTF itself.
+		const auto overwritesTarget = [&](const std::optional<fs::path>& path) {
+			return path.has_value() && (baseFolder / *path).lexically_normal() == target.lexically_normal();
+		};
+		if (std::any_of(result.bufferPaths.begin(), result.bufferPaths.end(), overwritesTarget)
+				|| std::any_of(result.imagePaths.begin(), result.imagePaths.end(), overwritesTarget)) {
+			return false;
+		}
+
 		for (std::size_t i = 0; i < asset.buffers.size(); ++i) {
 			auto& path = result.bufferPaths[i];
 			if (path.has_value()) {
@@ -7558,8 +7568,9 @@ namespace fastgltf {
 } // namespace fastgltf
 
 fg::Error fg::FileExporter::writeGltfJson(const Asset& asset, const fs::path& target, const ExportOptions _options) {
-	if (std::error_code ec; !fs::exists(target.parent_path(), ec) || ec) {
-		fs::create_directory(target.parent_path(), ec);
+	const auto parentPath = target.parent_path();
+	if (std::error_code ec; !parentPath.empty() && (!fs::exists(parentPath, ec) || ec)) {
+		fs::create_directories(parentPath, ec);
 		if (ec) {
 			return Error::InvalidPath;
 		}
@@ -7579,16 +7590,20 @@ fg::Error fg::FileExporter::writeGltfJson(const Asset& asset, const fs::path& ta
 
     file << result.output;
     file.close();
+    if (!file.good()) {
+        return Error::FailedWritingFiles;
+    }
 
-	if (!writeFiles(asset, result, target.parent_path())) {
+	if (!writeFiles(asset, result, parentPath, target)) {
 		return Error::FailedWritingFiles;
 	}
     return Error::None;
 }
 
 fg::Error fg::FileExporter::writeGltfBinary(const Asset& asset, const fs::path& target, const ExportOptions _options) {
-	if (std::error_code ec; !fs::exists(target.parent_path(), ec) || ec) {
-		fs::create_directory(target.parent_path(), ec);
+	const auto parentPath = target.parent_path();
+	if (std::error_code ec; !parentPath.empty() && (!fs::exists(parentPath, ec) || ec)) {
+		fs::create_directories(parentPath, ec);
 		if (ec) {
 			return Error::InvalidPath;
 		}
@@ -7608,8 +7623,12 @@ fg::Error fg::FileExporter::writeGltfBinary(const Asset& asset, const fs::path&
 
     file.write(reinterpret_cast<const char*>(result.output.data()),
                static_cast<std::streamsize>(result.output.size()));
+    file.close();
+    if (!file.good()) {
+        return Error::FailedWritingFiles;
+    }
 
-	if (!writeFiles(asset, result, target.parent_path())) {
+	if (!writeFiles(asset, result, parentPath, target)) {
 		return Error::FailedWritingFiles;
 	}
     return Error::None;
-- 
2.43.0


From 02e196d8f6e6ff3863043ce08d891c4ac75f2747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:07 +0000
Subject: [PATCH 085/100] fix: binary export ignores the validation option and
 reads beyond buffers with less bytes than their byte length

---
 src/fastgltf.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index f61768e..b22e340 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7401,6 +7401,12 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
 
     options &= (~ExportOptions::PrettyPrintJson);
 
+    if (hasBit(options, ExportOptions::ValidateAsset)) {
+        if (const auto validation = validate(asset); validation != Error::None) {
+            return validation;
+        }
+    }
+
     ExportResult<std::vector<std::byte>> result;
     auto json = writeJson(asset);
     if (errorCode != Error::None) {
@@ -7416,6 +7422,19 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
 			&& (std::holds_alternative<sources::Array>(asset.buffers.front().data) || std::holds_alternative<sources::ByteView>(asset.buffers.front().data) || std::holds_alternative<sources::Vector>(asset.buffers.front().data))
 			&& asset.buffers.front().byteLength < std::numeric_limits<decltype(BinaryGltfChunk::chunkLength)>::max();
 
+	if (withEmbeddedBuffer) {
+		const auto& buffer = asset.buffers.front();
+		const auto availableBytes = std::visit(visitor {
+			[](const auto&) -> std::size_t { return 0; },
+			[](const sources::Array& vector) -> std::size_t { return vector.bytes.size(); },
+			[](const sources::Vector& vector) -> std::size_t { return vector.bytes.size(); },
+			[](const sources::ByteView& byteView) -> std::size_t { return byteView.bytes.size(); },
+		}, buffer.data);
+		if (availableBytes < buffer.byteLength) {
+			return Error::InvalidGltf;
+		}
+	}
+
     std::size_t binarySize = 0;
     binarySize += sizeof(BinaryGltfHeader); // glTF header
     binarySize += sizeof(BinaryGltfChunk) + alignUp(json.size(), 4); // JSON chunk
-- 
2.43.0


From f2bdbcad5df38b6913f1414ae5bdb4e33b73ae3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:55 +0000
Subject: [PATCH 086/100] fix: binary export silently drops a first buffer of 4
 GiB or more

---
 src/fastgltf.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index b22e340..1fde922 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -7419,8 +7419,7 @@ fg::Expected<fg::ExportResult<std::vector<std::byte>>> fg::Exporter::writeGltfBi
 	// TODO: Add ExportOption enumeration for disabling this?
     const bool withEmbeddedBuffer = !asset.buffers.empty()
 			// We only support writing Vectors and ByteViews as embedded buffers
-			&& (std::holds_alternative<sources::Array>(asset.buffers.front().data) || std::holds_alternative<sources::ByteView>(asset.buffers.front().data) || std::holds_alternative<sources::Vector>(asset.buffers.front().data))
-			&& asset.buffers.front().byteLength < std::numeric_limits<decltype(BinaryGltfChunk::chunkLength)>::max();
+			&& (std::holds_alternative<sources::Array>(asset.buffers.front().data) || std::holds_alternative<sources::ByteView>(asset.buffers.front().data) || std::holds_alternative<sources::Vector>(asset.buffers.front().data));
 
 	if (withEmbeddedBuffer) {
 		const auto& buffer = asset.buffers.front();
-- 
2.43.0


From 76bf97da9baaed4d54a42b52da492b0c764f3695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:40 +0000
Subject: [PATCH 087/100] fix: setting an extras callback makes valid documents
 with extras that are no objects fail to load

---
 src/fastgltf.cpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 1fde922..d2b1fed 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1861,7 +1861,7 @@ fg::Error fg::Parser::parseAccessors(const simdjson::dom::array& accessors, Asse
 			dom::object extrasObject;
 			if (auto extrasError = accessorObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.accessors.size(), Category::Accessors, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -1995,7 +1995,7 @@ fg::Error fg::Parser::parseAnimations(simdjson::dom::array& animations, Asset& a
 			dom::object extrasObject;
 			if (auto extrasError = animationObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.animations.size(), Category::Animations, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -2099,7 +2099,7 @@ fg::Error fg::Parser::parseBuffers(simdjson::dom::array& buffers, Asset& asset)
 			dom::object extrasObject;
 			if (auto extrasError = bufferObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.buffers.size(), Category::Buffers, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -2263,7 +2263,7 @@ fg::Error fg::Parser::parseBufferViews(const simdjson::dom::array& bufferViews,
 			dom::object extrasObject;
 			if (auto extrasError = bufferViewObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.bufferViews.size(), Category::BufferViews, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -2369,7 +2369,7 @@ fg::Error fg::Parser::parseCameras(simdjson::dom::array& cameras, Asset& asset)
 			dom::object extrasObject;
 			if (auto extrasError = cameraObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.cameras.size(), Category::Cameras, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -2579,7 +2579,7 @@ fg::Error fg::Parser::parseImages(simdjson::dom::array& images, Asset& asset) {
 			dom::object extrasObject;
 			if (auto extrasError = imageObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.images.size(), Category::Images, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -3467,7 +3467,7 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 			dom::object extrasObject;
 			if (auto extrasError = materialObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.materials.size(), Category::Materials, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -3665,7 +3665,7 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 			dom::object extrasObject;
 			if (auto extrasError = meshObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.meshes.size(), Category::Meshes, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -3915,7 +3915,7 @@ fg::Error fg::Parser::parseNodes(simdjson::dom::array& nodes, Asset& asset) {
 			dom::object extrasObject;
 			if (auto extrasError = nodeObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.nodes.size(), Category::Nodes, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -3989,7 +3989,7 @@ fg::Error fg::Parser::parseSamplers(const simdjson::dom::array& samplers, Asset&
 			dom::object extrasObject;
 			if (auto extrasError = samplerObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.samplers.size(), Category::Samplers, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -4026,7 +4026,7 @@ fg::Error fg::Parser::parseScenes(const simdjson::dom::array& scenes, Asset& ass
 			dom::object extrasObject;
 			if (auto extrasError = sceneObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.scenes.size(), Category::Scenes, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -4095,7 +4095,7 @@ fg::Error fg::Parser::parseSkins(const simdjson::dom::array& skins, Asset& asset
 			dom::object extrasObject;
 			if (auto extrasError = skinObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.skins.size(), Category::Skins, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -4150,7 +4150,7 @@ fg::Error fg::Parser::parseTextures(const simdjson::dom::array& textures, Asset&
 			dom::object extrasObject;
 			if (auto extrasError = textureObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.textures.size(), Category::Textures, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) {
 				return Error::InvalidGltf;
 			}
 		}
@@ -4302,7 +4302,7 @@ fg::Error fg::Parser::parseShapes(const simdjson::dom::array& shapes, Asset& ass
 			dom::object extrasObject;
 			if (auto extrasError = shapeObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.shapes.size() - 1, Category::Shapes, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) FASTGLTF_UNLIKELY {
 				return Error::InvalidGltf;
 			}
 		}
@@ -4369,7 +4369,7 @@ fg::Error fg::Parser::parsePhysicsMaterials(const simdjson::dom::array& physicsM
 			dom::object extrasObject;
 			if (auto extrasError = materialObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.physicsMaterials.size() - 1, Category::PhysicsMaterials, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) FASTGLTF_UNLIKELY {
 				return Error::InvalidGltf;
 			}
 		}
@@ -4444,7 +4444,7 @@ fg::Error fg::Parser::parseCollisionFilters(const simdjson::dom::array& collisio
 			dom::object extrasObject;
 			if (auto extrasError = collisionFilterObject["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.collisionFilters.size() - 1, Category::CollisionFilters, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) FASTGLTF_UNLIKELY {
 				return Error::InvalidGltf;
 			}
 		}
@@ -4649,7 +4649,7 @@ fg::Error fg::Parser::parsePhysicsJoints(const simdjson::dom::array& physicsJoin
 			dom::object extrasObject;
 			if (auto extrasError = physicsJointValue["extras"].get_object().get(extrasObject); extrasError == SUCCESS) {
 				config.extrasCallback(&extrasObject, asset.physicsJoints.size() - 1, Category::PhysicsJoints, config.userPointer);
-			} else if (extrasError != NO_SUCH_FIELD) FASTGLTF_UNLIKELY {
+			} else if (extrasError != NO_SUCH_FIELD && extrasError != INCORRECT_TYPE) FASTGLTF_UNLIKELY {
 				return Error::InvalidGltf;
 			}
 		}
-- 
2.43.0


From 697ed25ba11736a9f7f8d440f59b5b57bd3f5b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 088/100] fix: validation reads outside the asset for
 references it does not check, and accepts references to objects that do not
 exist

---
 src/fastgltf.cpp | 124 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 115 insertions(+), 9 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index d2b1fed..0add304 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -992,6 +992,10 @@ fg::Error fg::validate(const Asset& asset) {
 		}
 
 		if (accessor.sparse) {
+			if (accessor.sparse->indicesBufferView >= asset.bufferViews.size() ||
+			    accessor.sparse->valuesBufferView >= asset.bufferViews.size())
+				return Error::InvalidGltf;
+
 			const auto& indicesView = asset.bufferViews[accessor.sparse->indicesBufferView];
 			if (indicesView.byteStride || indicesView.target)
 				return Error::InvalidGltf;
@@ -1008,6 +1012,8 @@ fg::Error fg::validate(const Asset& asset) {
 		for (const auto& channel1 : animation.channels) {
 			if (!channel1.nodeIndex.has_value())
 				continue;
+			if (*channel1.nodeIndex >= asset.nodes.size())
+				return Error::InvalidGltf;
 			for (const auto& channel2 : animation.channels) {
 				if (&channel1 == &channel2)
 					continue;
@@ -1018,7 +1024,13 @@ fg::Error fg::validate(const Asset& asset) {
 
 		if (animation.samplers.empty())
 			return Error::InvalidGltf;
+		for (const auto& sampler : animation.samplers) {
+			if (sampler.inputAccessor >= asset.accessors.size() || sampler.outputAccessor >= asset.accessors.size())
+				return Error::InvalidGltf;
+		}
 		for (const auto& channel : animation.channels) {
+			if (channel.samplerIndex >= animation.samplers.size())
+				return Error::InvalidGltf;
 			const auto& sampler = animation.samplers[channel.samplerIndex];
 
 			const auto& inputAccessor = asset.accessors[sampler.inputAccessor];
@@ -1074,6 +1086,8 @@ fg::Error fg::validate(const Asset& asset) {
 
 		if (bufferView.meshoptCompression) {
 			const auto& compression = bufferView.meshoptCompression;
+			if (compression->bufferIndex >= asset.buffers.size())
+				return Error::InvalidGltf;
 			switch (compression->mode) {
 				case MeshoptCompressionMode::Attributes:
 					if (compression->byteStride % 4 != 0 || compression->byteStride > 256)
@@ -1138,20 +1152,50 @@ fg::Error fg::validate(const Asset& asset) {
 	}
 
 	for (const auto& material : asset.materials) {
-		auto isInvalidTexture = [&textures = asset.textures](std::optional<std::size_t> textureIndex) {
-			return textureIndex.has_value() && textureIndex.value() >= textures.size();
+		auto isInvalidTexture = [&textures = asset.textures](const auto& texture) {
+			return texture.has_value() && texture->textureIndex >= textures.size();
 		};
-		if (material.normalTexture.has_value() && isInvalidTexture(material.normalTexture->textureIndex))
+		if (isInvalidTexture(material.normalTexture))
+			return Error::InvalidGltf;
+		if (isInvalidTexture(material.emissiveTexture))
+			return Error::InvalidGltf;
+		if (isInvalidTexture(material.occlusionTexture))
+			return Error::InvalidGltf;
+		if (isInvalidTexture(material.pbrData.baseColorTexture))
+			return Error::InvalidGltf;
+		if (isInvalidTexture(material.pbrData.metallicRoughnessTexture))
+			return Error::InvalidGltf;
+		if (material.anisotropy && isInvalidTexture(material.anisotropy->anisotropyTexture))
+			return Error::InvalidGltf;
+		if (material.clearcoat && (isInvalidTexture(material.clearcoat->clearcoatTexture) ||
+		    isInvalidTexture(material.clearcoat->clearcoatRoughnessTexture) ||
+		    isInvalidTexture(material.clearcoat->clearcoatNormalTexture)))
 			return Error::InvalidGltf;
-		if (material.emissiveTexture.has_value() && isInvalidTexture(material.emissiveTexture->textureIndex))
+		if (material.diffuseTransmission && (isInvalidTexture(material.diffuseTransmission->diffuseTransmissionTexture) ||
+		    isInvalidTexture(material.diffuseTransmission->diffuseTransmissionColorTexture)))
 			return Error::InvalidGltf;
-		if (material.occlusionTexture.has_value() && isInvalidTexture(material.occlusionTexture->textureIndex))
+		if (material.iridescence && (isInvalidTexture(material.iridescence->iridescenceTexture) ||
+		    isInvalidTexture(material.iridescence->iridescenceThicknessTexture)))
 			return Error::InvalidGltf;
-		if (material.pbrData.baseColorTexture.has_value() &&
-		    isInvalidTexture(material.pbrData.baseColorTexture->textureIndex))
+		if (material.sheen && (isInvalidTexture(material.sheen->sheenColorTexture) ||
+		    isInvalidTexture(material.sheen->sheenRoughnessTexture)))
 			return Error::InvalidGltf;
-		if (material.pbrData.metallicRoughnessTexture.has_value() &&
-		    isInvalidTexture(material.pbrData.metallicRoughnessTexture->textureIndex))
+		if (material.specular && (isInvalidTexture(material.specular->specularTexture) ||
+		    isInvalidTexture(material.specular->specularColorTexture)))
+			return Error::InvalidGltf;
+		if (material.specularGlossiness && (isInvalidTexture(material.specularGlossiness->diffuseTexture) ||
+		    isInvalidTexture(material.specularGlossiness->specularGlossinessTexture)))
+			return Error::InvalidGltf;
+		if (material.transmission && isInvalidTexture(material.transmission->transmissionTexture))
+			return Error::InvalidGltf;
+		if (material.volume && isInvalidTexture(material.volume->thicknessTexture))
+			return Error::InvalidGltf;
+		if (isInvalidTexture(material.packedNormalMetallicRoughnessTexture))
+			return Error::InvalidGltf;
+		if (const auto& packed = material.packedOcclusionRoughnessMetallicTextures; packed &&
+		    (isInvalidTexture(packed->occlusionRoughnessMetallicTexture) ||
+		     isInvalidTexture(packed->roughnessMetallicOcclusionTexture) ||
+		     isInvalidTexture(packed->normalTexture)))
 			return Error::InvalidGltf;
 
 		// Validate that for every additional material field from an extension the correct extension is marked as used by the asset.
@@ -1213,6 +1257,16 @@ fg::Error fg::validate(const Asset& asset) {
 				}
 			}
 
+			for (const auto& target : primitive.targets) {
+				for (const auto& attribute : target) {
+					if (asset.accessors.size() <= attribute.accessorIndex)
+						return Error::InvalidGltf;
+				}
+			}
+
+			if (primitive.dracoCompression && primitive.dracoCompression->bufferView >= asset.bufferViews.size())
+				return Error::InvalidGltf;
+
 			for (const auto& [name, index] : primitive.attributes) {
 				if (asset.accessors.size() <= index)
 					return Error::InvalidGltf;
@@ -1322,6 +1376,51 @@ fg::Error fg::validate(const Asset& asset) {
 			return Error::InvalidGltf;
 		if (node.meshIndex.has_value() && asset.meshes.size() <= node.meshIndex.value())
 			return Error::InvalidGltf;
+		if (node.lightIndex.has_value() && asset.lights.size() <= node.lightIndex.value())
+			return Error::InvalidGltf;
+		for (const auto& child : node.children) {
+			if (asset.nodes.size() <= child)
+				return Error::InvalidGltf;
+		}
+		for (const auto& attribute : node.instancingAttributes) {
+			if (asset.accessors.size() <= attribute.accessorIndex)
+				return Error::InvalidGltf;
+		}
+
+#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
+		if (node.physicsRigidBody) {
+			auto isInvalidGeometry = [&asset](const Geometry& geometry) {
+				return (geometry.shape.has_value() && asset.shapes.size() <= geometry.shape.value()) ||
+				       (geometry.node.has_value() && asset.nodes.size() <= geometry.node.value());
+			};
+			auto isInvalidFilter = [&asset](const Optional<std::size_t>& filter) {
+				return filter.has_value() && asset.collisionFilters.size() <= filter.value();
+			};
+
+			const auto& body = *node.physicsRigidBody;
+			if (body.collider.has_value()) {
+				if (isInvalidGeometry(body.collider->geometry) || isInvalidFilter(body.collider->collisionFilter))
+					return Error::InvalidGltf;
+				if (body.collider->physicsMaterial.has_value() &&
+				    asset.physicsMaterials.size() <= body.collider->physicsMaterial.value())
+					return Error::InvalidGltf;
+			}
+			if (body.trigger.has_value()) {
+				if (const auto* pGeometry = std::get_if<GeometryTrigger>(&*body.trigger)) {
+					if (isInvalidGeometry(pGeometry->geometry) || isInvalidFilter(pGeometry->collisionFilter))
+						return Error::InvalidGltf;
+				} else if (const auto* pNodes = std::get_if<NodeTrigger>(&*body.trigger)) {
+					for (const auto& index : pNodes->nodes) {
+						if (asset.nodes.size() <= index)
+							return Error::InvalidGltf;
+					}
+				}
+			}
+			if (body.joint.has_value() && (asset.nodes.size() <= body.joint->connectedNode ||
+			    asset.physicsJoints.size() <= body.joint->joint))
+				return Error::InvalidGltf;
+		}
+#endif
 
 		if (const auto* pTRS = std::get_if<TRS>(&node.transform)) {
 			if (pTRS->rotation.x() > 1.0 || pTRS->rotation.x() < -1.0)
@@ -1366,6 +1465,9 @@ fg::Error fg::validate(const Asset& asset) {
 		}
 	}
 
+	if (asset.defaultScene.has_value() && asset.defaultScene.value() >= asset.scenes.size())
+		return Error::InvalidGltf;
+
 	for (const auto& scene : asset.scenes) {
 		for (const auto& node : scene.nodeIndices) {
 			if (node >= asset.nodes.size())
@@ -1376,6 +1478,10 @@ fg::Error fg::validate(const Asset& asset) {
 	for (const auto& skin : asset.skins) {
 		if (skin.joints.empty())
 			return Error::InvalidGltf;
+		for (const auto& joint : skin.joints) {
+			if (joint >= asset.nodes.size())
+				return Error::InvalidGltf;
+		}
 		if (skin.skeleton.has_value() && skin.skeleton.value() >= asset.nodes.size())
 			return Error::InvalidGltf;
 		if (skin.inverseBindMatrices.has_value() && skin.inverseBindMatrices.value() >= asset.accessors.size())
-- 
2.43.0


From 141d2366e51ede8311fcdb988790a2e417a826f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 089/100] fix: validation accepts node hierarchies that are no
 trees, which traversals never leave

---
 src/fastgltf.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 0add304..d389903 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1459,6 +1459,31 @@ fg::Error fg::validate(const Asset& asset) {
 		}
 	}
 
+	// From the spec: the node hierarchy MUST be a set of disjoint strict trees. That is, a node MUST NOT be a child of
+	// more than one node, a node hierarchy MUST NOT contain cycles, and a scene MUST only reference root nodes.
+	std::vector<Optional<std::size_t>> parents(asset.nodes.size());
+	for (std::size_t i = 0; i < asset.nodes.size(); ++i) {
+		for (const auto& child : asset.nodes[i].children) {
+			if (parents[child].has_value())
+				return Error::InvalidGltf;
+			parents[child] = i;
+		}
+	}
+	// Every node has at most one parent, so all nodes that can be reached from a root are part of a tree,
+	// and any other node is either part of a cycle or a descendant of one.
+	std::vector<std::size_t> reachable;
+	reachable.reserve(asset.nodes.size());
+	for (std::size_t i = 0; i < asset.nodes.size(); ++i) {
+		if (!parents[i].has_value())
+			reachable.emplace_back(i);
+	}
+	for (std::size_t i = 0; i < reachable.size(); ++i) {
+		const auto& children = asset.nodes[reachable[i]].children;
+		reachable.insert(reachable.end(), children.begin(), children.end());
+	}
+	if (reachable.size() != asset.nodes.size())
+		return Error::InvalidGltf;
+
 	for (const auto& sampler : asset.samplers) {
 		if (sampler.magFilter.has_value() && (sampler.magFilter != Filter::Nearest && sampler.magFilter != Filter::Linear)) {
 			return Error::InvalidGltf;
@@ -1470,7 +1495,7 @@ fg::Error fg::validate(const Asset& asset) {
 
 	for (const auto& scene : asset.scenes) {
 		for (const auto& node : scene.nodeIndices) {
-			if (node >= asset.nodes.size())
+			if (node >= asset.nodes.size() || parents[node].has_value())
 				return Error::InvalidGltf;
 		}
 	}
-- 
2.43.0


From 7a93f21df1ea3815224bca075dda9b449c90685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 090/100] fix: validation only checks the alignment of
 accessors and strides when the accessor has an offset of its own

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index d389903..784b9fb 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -954,7 +954,7 @@ fg::Error fg::validate(const Asset& asset) {
 		if (accessor.bufferViewIndex.has_value() &&
 		    accessor.bufferViewIndex.value() >= asset.bufferViews.size())
 			return Error::InvalidGltf;
-		if (accessor.byteOffset != 0) {
+		{
 			// The offset of an accessor into a bufferView (i.e., accessor.byteOffset)
 			// and the offset of an accessor into a buffer (i.e., accessor.byteOffset + bufferView.byteOffset)
 			// MUST be a multiple of the size of the accessor’s component type.
-- 
2.43.0


From 76481e9fcf20ea07ca8d4d8166aec1d099901d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:01 +0000
Subject: [PATCH 091/100] fix: validation refuses spot lights whose outer cone
 angle is exactly pi / 2

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 784b9fb..5d7a3c6 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1146,7 +1146,7 @@ fg::Error fg::validate(const Asset& asset) {
 				return Error::InvalidGltf;
 			if (light.innerConeAngle.value() > light.outerConeAngle.value())
 				return Error::InvalidGltf;
-			if (light.outerConeAngle.value() > math::pi / 2)
+			if (light.outerConeAngle.value() > static_cast<num>(math::pi / 2))
 				return Error::InvalidGltf;
 		}
 	}
-- 
2.43.0


From f8ff43e6e6f8aabf49dadbf3ab9426ac90eacc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 092/100] fix: the library does not compile without the custom
 memory pool

---
 src/fastgltf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 5d7a3c6..6f3ccf4 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -6493,7 +6493,7 @@ void fg::Exporter::writeMeshes(const Asset& asset, std::string& json) {
 					json += R"("bufferView":)" + std::to_string(itp->dracoCompression->bufferView) + ',';
 					json += R"("attributes":{)";
 					for (auto ita = itp->dracoCompression->attributes.begin(); ita != itp->dracoCompression->attributes.end(); ++ita) {
-						json += '"' + fg::escapeString(ita->name) + "\":" + std::to_string(ita->accessorIndex);
+						json += '"' + fg::escapeString(std::string_view(ita->name)) + "\":" + std::to_string(ita->accessorIndex);
 						if (uabs(std::distance(itp->dracoCompression->attributes.begin(), ita)) + 1 < itp->dracoCompression->attributes.size())
 							json += ',';
 					}
-- 
2.43.0


From 64291c109287410103818ae47f3b3d201d0dd950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 093/100] fix: a variant index beyond the list of variants
 writes outside of the mappings or allocates any amount of memory

---
 include/fastgltf/core.hpp |  2 +-
 src/fastgltf.cpp          | 37 +++++++++++++++++++++++--------------
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/include/fastgltf/core.hpp b/include/fastgltf/core.hpp
index a4bef2c..daa0f27 100644
--- a/include/fastgltf/core.hpp
+++ b/include/fastgltf/core.hpp
@@ -862,7 +862,7 @@ namespace fastgltf {
 		Error parseLights(const simdjson::dom::array& array, Asset& asset);
 		Error parseMaterialExtensions(simdjson::dom::object& object, Material& material);
 		Error parseMaterials(simdjson::dom::array& array, Asset& asset);
-		Error parsePrimitiveExtensions(const simdjson::dom::object& object, Primitive& primitive);
+		Error parsePrimitiveExtensions(const simdjson::dom::object& object, const Asset& asset, Primitive& primitive);
 		Error parseMeshes(simdjson::dom::array& array, Asset& asset);
 		Error parseNodes(simdjson::dom::array& array, Asset& asset);
 		Error parseSamplers(const simdjson::dom::array& array, Asset& asset);
diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 6f3ccf4..58045e9 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -1661,6 +1661,21 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 		return Error::InvalidGltf;
 	}
 
+	// The variants have to be known when reading the primitives, regardless of the order of the members.
+	for (const auto object : root) {
+		if (crcStringFunction(object.key) != force_consteval<crc32c("extensions")>) {
+			continue;
+		}
+
+		dom::object extensionsObject;
+		if (object.value.get_object().get(extensionsObject) != SUCCESS) FASTGLTF_UNLIKELY {
+			return Error::InvalidGltf;
+		}
+
+		if (auto error = parseExtensions(extensionsObject, asset); error != Error::None)
+			return error;
+	}
+
 	Category readCategories = Category::None;
 	for (const auto object : root) {
 		auto hashedKey = crcStringFunction(object.key);
@@ -1673,18 +1688,7 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 			continue;
 		}
 
-		if (hashedKey == force_consteval<crc32c("extensions")>) {
-			dom::object extensionsObject;
-			if (object.value.get_object().get(extensionsObject) != SUCCESS) FASTGLTF_UNLIKELY {
-				return Error::InvalidGltf;
-			}
-
-			if (auto error = parseExtensions(extensionsObject, asset); error != Error::None)
-				return error;
-			continue;
-		}
-
-		if (hashedKey == force_consteval<crc32c("asset")> || hashedKey == force_consteval<crc32c("extras")>) {
+		if (hashedKey == force_consteval<crc32c("extensions")> || hashedKey == force_consteval<crc32c("asset")> || hashedKey == force_consteval<crc32c("extras")>) {
 			continue;
 		}
 
@@ -3609,7 +3613,7 @@ fg::Error fg::Parser::parseMaterials(simdjson::dom::array& materials, Asset& ass
 	return Error::None;
 }
 
-fastgltf::Error fg::Parser::parsePrimitiveExtensions(const simdjson::dom::object& object, Primitive& primitive) {
+fastgltf::Error fg::Parser::parsePrimitiveExtensions(const simdjson::dom::object& object, const Asset& asset, Primitive& primitive) {
 	using namespace simdjson;
 
 	for (auto extension : object) {
@@ -3649,6 +3653,11 @@ fastgltf::Error fg::Parser::parsePrimitiveExtensions(const simdjson::dom::object
 							return Error::InvalidGltf;
 						}
 
+						// There is no such variant, and therefore nothing to map.
+						if (variantIndex >= asset.materialVariants.size()) FASTGLTF_UNLIKELY {
+							continue;
+						}
+
 						primitive.mappings.resize(max(primitive.mappings.size(),
 													  static_cast<std::size_t>(variantIndex + 1)));
 						primitive.mappings[static_cast<std::size_t>(variantIndex)] = materialIndex;
@@ -3768,7 +3777,7 @@ fg::Error fg::Parser::parseMeshes(simdjson::dom::array& meshes, Asset& asset) {
 			if (hasBit(config.extensions, Extensions::KHR_materials_variants) || hasBit(config.extensions, Extensions::KHR_draco_mesh_compression)) {
 				dom::object extensionsObject;
 				if (auto error = primitiveObject["extensions"].get_object().get(extensionsObject); error == SUCCESS) {
-					if (auto extensionError = parsePrimitiveExtensions(extensionsObject, primitive); extensionError != Error::None)
+					if (auto extensionError = parsePrimitiveExtensions(extensionsObject, asset, primitive); extensionError != Error::None)
 						return extensionError;
 				} else if (error != NO_SUCH_FIELD) {
 					return Error::InvalidGltf;
-- 
2.43.0


From 0d1be00658ad1864281b0eae081b335e684b8f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 094/100] fix: a name with the same hash as a known name is
 taken for that name

---
 src/fastgltf.cpp | 50 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/fastgltf.cpp b/src/fastgltf.cpp
index 58045e9..0dcd1d3 100644
--- a/src/fastgltf.cpp
+++ b/src/fastgltf.cpp
@@ -242,6 +242,36 @@ namespace fastgltf {
 #endif
     }
 
+	/**
+	 * Returns the hash of any of the names which the parser tells apart by their hashes. Every other name, which may
+	 * well have the same hash as one of these, yields 0.
+	 */
+	[[nodiscard]] std::uint32_t hashKnownName(std::string_view name) {
+		static constexpr auto names = to_array<std::string_view>({
+			// The members of the root object.
+			"accessors", "animations", "asset", "buffers", "bufferViews", "cameras", "extensions", "extensionsRequired",
+			"extensionsUsed", "extras", "images", "materials", "meshes", "nodes", "samplers", "scene", "scenes", "skins",
+			"textures",
+			// The light types, and the modes and filters of EXT_meshopt_compression.
+			"directional", "point", "spot",
+			"ATTRIBUTES", "TRIANGLES", "INDICES", "NONE", "OCTAHEDRAL", "QUATERNION", "EXPONENTIAL",
+			// The MIME types.
+			mimeTypeJpeg, mimeTypePng, mimeTypeKtx, mimeTypeDds, mimeTypeWebp, mimeTypeGltfBuffer, mimeTypeOctetStream,
+		});
+
+		for (const auto& known : names) {
+			if (known == name) {
+				return crcStringFunction(name);
+			}
+		}
+		for (const auto& [known, extension] : extensionStrings) {
+			if (known == name) {
+				return crcStringFunction(name);
+			}
+		}
+		return 0;
+	}
+
 	[[nodiscard, gnu::always_inline]] inline bool getImageIndexForExtension(const simdjson::dom::element& element, Optional<std::size_t>& imageIndexOut) {
 		using namespace simdjson;
 
@@ -260,7 +290,7 @@ namespace fastgltf {
 
 	[[nodiscard, gnu::always_inline]] inline bool parseTextureExtensions(Texture& texture, const simdjson::dom::object& extensions, const Extensions extensionFlags) {
 		for (auto extension : extensions) {
-			switch (crcStringFunction(extension.key)) {
+			switch (hashKnownName(extension.key)) {
 				case force_consteval<crc32c(extensions::KHR_texture_basisu)>: {
 					if (!hasBit(extensionFlags, Extensions::KHR_texture_basisu))
 						break;
@@ -795,7 +825,7 @@ void fg::Parser::fillCategories(Category& inputCategories) noexcept {
 }
 
 fg::MimeType fg::Parser::getMimeTypeFromString(std::string_view mime) {
-    switch (crcStringFunction(mime)) {
+    switch (hashKnownName(mime)) {
         case force_consteval<crc32c(mimeTypeJpeg)>: {
             return MimeType::JPEG;
         }
@@ -1663,7 +1693,7 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 
 	// The variants have to be known when reading the primitives, regardless of the order of the members.
 	for (const auto object : root) {
-		if (crcStringFunction(object.key) != force_consteval<crc32c("extensions")>) {
+		if (hashKnownName(object.key) != force_consteval<crc32c("extensions")>) {
 			continue;
 		}
 
@@ -1678,7 +1708,7 @@ fg::Expected<fg::Asset> fg::Parser::parse(simdjson::dom::object root, Category c
 
 	Category readCategories = Category::None;
 	for (const auto object : root) {
-		auto hashedKey = crcStringFunction(object.key);
+		auto hashedKey = hashKnownName(object.key);
 		if (hashedKey == force_consteval<crc32c("scene")>) {
 			std::uint64_t defaultScene;
 			if (object.value.get_uint64().get(defaultScene) != SUCCESS) FASTGLTF_UNLIKELY {
@@ -2340,7 +2370,7 @@ fg::Error fg::Parser::parseBufferViews(const simdjson::dom::array& bufferViews,
                 if (auto error = meshoptCompression["mode"].get_string().get(string); error != SUCCESS) FASTGLTF_UNLIKELY {
                     return error == NO_SUCH_FIELD ? Error::InvalidGltf : Error::InvalidJson;
                 }
-                switch (crcStringFunction(string)) {
+                switch (hashKnownName(string)) {
                     case force_consteval<crc32c("ATTRIBUTES")>: {
                         compression->mode = MeshoptCompressionMode::Attributes;
                         break;
@@ -2359,7 +2389,7 @@ fg::Error fg::Parser::parseBufferViews(const simdjson::dom::array& bufferViews,
                 }
 
                 if (auto error = meshoptCompression["filter"].get_string().get(string); error == SUCCESS) FASTGLTF_LIKELY {
-                    switch (crcStringFunction(string)) {
+                    switch (hashKnownName(string)) {
                         case force_consteval<crc32c("NONE")>: {
                             compression->filter = MeshoptCompressionFilter::None;
                             break;
@@ -2527,7 +2557,7 @@ fg::Error fg::Parser::parseExtensions(const simdjson::dom::object& extensionsObj
             return Error::InvalidGltf;
         }
 
-        switch (crcStringFunction(extensionValue.key)) {
+        switch (hashKnownName(extensionValue.key)) {
             case force_consteval<crc32c(extensions::KHR_lights_punctual)>: {
                 if (!hasBit(config.extensions, Extensions::KHR_lights_punctual))
                     break;
@@ -2744,7 +2774,7 @@ fg::Error fg::Parser::parseLights(const simdjson::dom::array& lights, Asset& ass
 
         std::string_view type;
         if (lightObject["type"].get_string().get(type) == SUCCESS) FASTGLTF_LIKELY {
-            switch (crcStringFunction(type)) {
+            switch (hashKnownName(type)) {
                 case force_consteval<crc32c("directional")>: {
                     light.type = LightType::Directional;
                     break;
@@ -2840,7 +2870,7 @@ fg::Error fg::Parser::parseMaterialExtensions(simdjson::dom::object &object, Mat
 	using namespace simdjson;
 
 	for (auto extensionField : object) {
-		switch (crcStringFunction(extensionField.key)) {
+		switch (hashKnownName(extensionField.key)) {
 			case force_consteval<crc32c(extensions::KHR_materials_anisotropy)>: {
 				if (!hasBit(config.extensions, Extensions::KHR_materials_anisotropy))
 					break;
@@ -3617,7 +3647,7 @@ fastgltf::Error fg::Parser::parsePrimitiveExtensions(const simdjson::dom::object
 	using namespace simdjson;
 
 	for (auto extension : object) {
-		switch (crcStringFunction(extension.key)) {
+		switch (hashKnownName(extension.key)) {
 			case force_consteval<crc32c(extensions::KHR_materials_variants)>: {
 				if (!hasBit(config.extensions, Extensions::KHR_materials_variants))
 					break;
-- 
2.43.0


From 3057ed3d5eed99155740461bb89b303c0f1fd850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:03 +0000
Subject: [PATCH 095/100] fix: growing a SmallVector uses freed elements as
 arguments, and leaks or destroys too much when a constructor throws

---
 include/fastgltf/types.hpp | 137 +++++++++++++++++++++++--------------
 1 file changed, 86 insertions(+), 51 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index e3feab5..f19fe73 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -721,22 +721,63 @@ namespace fastgltf {
             }
         }
 
-		// Moves, or copies if they can't be moved safely, the elements into uninitialized memory and
-		// destroys the originals.
+		// Destroys the elements constructed so far, unless they've been released.
+		struct Constructed {
+			T* first;
+			T* last;
+
+			explicit Constructed(T* first) noexcept : first(first), last(first) {}
+			Constructed(const Constructed&) = delete;
+			Constructed& operator=(const Constructed&) = delete;
+			~Constructed() { std::destroy(first, last); }
+
+			void release() noexcept { first = last; }
+		};
+
+		// Moves, or copies if it can't be moved safely, the element into uninitialized memory.
+		static void transfer(T& element, T* result) {
+			if constexpr (std::is_nothrow_move_constructible_v<T>) {
+				new(result) T(std::move(element));
+			} else if constexpr (std::is_copy_constructible_v<T>) {
+				new(result) T(element);
+			} else {
+				new(result) T(std::move(element));
+			}
+		}
+
+		// Transfers the elements into uninitialized memory and destroys the originals.
 		static void relocate(T* first, std::size_t count, T* result) {
+			Constructed constructed(result);
 			for (std::size_t i = 0; i < count; ++i) {
-				auto& x = first[i];
-				if constexpr (std::is_nothrow_move_constructible_v<T>) {
-					new(result + i) T(std::move(x));
-				} else if constexpr (std::is_copy_constructible_v<T>) {
-					new(result + i) T(x);
-				} else {
-					new(result + i) T(std::move(x));
-				}
+				transfer(first[i], constructed.last);
+				++constructed.last;
 			}
+			constructed.release();
 			std::destroy(first, first + count);
 		}
 
+		// Moves all elements into a new allocation with the given capacity.
+		void reallocate(std::size_t newCapacity) {
+			struct Allocation {
+				Allocator& allocator;
+				T* data;
+				std::size_t capacity;
+
+				~Allocation() {
+					if (data)
+						allocator.deallocate(data, capacity);
+				}
+			} allocation { allocator, allocator.allocate(newCapacity), newCapacity };
+
+			relocate(begin(), size(), allocation.data);
+
+			if (!isUsingStack() && _data) {
+				allocator.deallocate(_data, _capacity);
+			}
+			_data = std::exchange(allocation.data, nullptr);
+			_capacity = newCapacity;
+		}
+
 		// Takes over the elements of other, which needs to use an equal allocator. This has to be empty and
 		// not own any heap allocation.
 		void take(SmallVector& other) {
@@ -760,19 +801,19 @@ namespace fastgltf {
 
 		explicit SmallVector(const Allocator& allocator) noexcept : allocator(allocator), _data(reinterpret_cast<T*>(storage.data())) {}
 
-        explicit SmallVector(std::size_t size, const Allocator& allocator = Allocator()) : allocator(allocator), _data(reinterpret_cast<T*>(storage.data())) {
+        explicit SmallVector(std::size_t size, const Allocator& allocator = Allocator()) : SmallVector(allocator) {
             resize(size);
         }
 
-        SmallVector(std::size_t size, const T& value, const Allocator& allocator = Allocator()) : allocator(allocator), _data(reinterpret_cast<T*>(storage.data())) {
+        SmallVector(std::size_t size, const T& value, const Allocator& allocator = Allocator()) : SmallVector(allocator) {
             assign(size, value);
         }
 
-        SmallVector(std::initializer_list<T> init, const Allocator& allocator = Allocator()) : allocator(allocator), _data(reinterpret_cast<T*>(storage.data())) {
+        SmallVector(std::initializer_list<T> init, const Allocator& allocator = Allocator()) : SmallVector(allocator) {
             assign(init);
         }
 
-        SmallVector(const SmallVector& other) noexcept : _data(reinterpret_cast<T*>(storage.data())) {
+        SmallVector(const SmallVector& other) : SmallVector() {
             resize(other.size());
             copy(other.begin(), other.size(), begin());
         }
@@ -867,17 +908,7 @@ namespace fastgltf {
             // We use geometric growth, similarly to std::vector.
             newCapacity = static_cast<std::size_t>(1) << (std::numeric_limits<decltype(newCapacity)>::digits - clz(newCapacity));
 
-			T* alloc = allocator.allocate(newCapacity);
-
-			// Copy/Move the old data into the new memory and destroy all objects in the old allocation
-			relocate(begin(), size(), alloc);
-
-            if (!isUsingStack() && _data) {
-				allocator.deallocate(_data, _capacity);
-            }
-
-            _data = alloc;
-            _capacity = newCapacity;
+			reallocate(newCapacity);
         }
 
         void resize(std::size_t newSize) {
@@ -891,11 +922,12 @@ namespace fastgltf {
 				std::destroy(begin() + newSize, end());
 			} else {
                 // Reserve enough capacity and copy the new value over.
-                auto oldSize = _size;
                 reserve(newSize);
-                for (auto it = begin() + oldSize; it != begin() + newSize; ++it) {
-                    new (it) T();
+                Constructed constructed(end());
+                for (; constructed.last != begin() + newSize; ++constructed.last) {
+                    new (constructed.last) T();
                 }
+                constructed.release();
             }
 
             _size = newSize;
@@ -911,21 +943,14 @@ namespace fastgltf {
 				// Just destroy the "overflowing" elements.
 				std::destroy(begin() + newSize, end());
 			} else {
-				// Reserve enough capacity and copy the new value over.
-				auto oldSize = _size;
+				// The value might be one of our own elements, which reserving more capacity invalidates.
+				const T copied(value);
 				reserve(newSize);
-				for (auto it = begin() + oldSize; it != begin() + newSize; ++it) {
-					if (it == nullptr)
-						break;
-
-					if constexpr (std::is_move_constructible_v<T>) {
-						new (it) T(std::move(value));
-					} else if constexpr (std::is_trivially_copyable_v<T>) {
-						std::memcpy(it, std::addressof(value), sizeof(T));
-					} else {
-						new (it) T(value);
-					}
+				Constructed constructed(end());
+				for (; constructed.last != begin() + newSize; ++constructed.last) {
+					new (constructed.last) T(copied);
 				}
+				constructed.release();
 			}
 
 			_size = newSize;
@@ -939,13 +964,16 @@ namespace fastgltf {
 
 			// If we can use the object's memory again, we'll move everything over. Otherwise, we have to
 			// use heap allocated memory.
-			const auto newCapacity = size() <= N ? N : size();
-			auto* memory = size() <= N ? reinterpret_cast<T*>(storage.data()) : allocator.allocate(newCapacity);
+			if (size() > N) {
+				reallocate(size());
+				return;
+			}
+			auto* memory = reinterpret_cast<T*>(storage.data());
 			relocate(begin(), size(), memory);
 			allocator.deallocate(_data, _capacity);
 
 			_data = memory;
-			_capacity = newCapacity;
+			_capacity = N;
 		}
 
 		void assign(std::size_t count, const T& value) {
@@ -957,15 +985,17 @@ namespace fastgltf {
 			static_assert(std::is_trivially_copyable_v<T> || std::is_copy_constructible_v<T>, "T needs to be trivially copyable or be copy constructible");
 			clear();
 			reserve(init.size());
-			_size = init.size();
 
 			if constexpr (std::is_trivially_copyable_v<T>) {
 				std::memcpy(begin(), init.begin(), init.size() * sizeof(T));
 			} else if constexpr (std::is_copy_constructible_v<T>) {
-				for (auto it = init.begin(); it != init.end(); ++it) {
-					new (_data + std::distance(init.begin(), it)) T(*it);
+				Constructed constructed(begin());
+				for (auto it = init.begin(); it != init.end(); ++it, ++constructed.last) {
+					new (constructed.last) T(*it);
 				}
+				constructed.release();
 			}
+			_size = init.size();
 		}
 
 		void clear() noexcept {
@@ -982,10 +1012,15 @@ namespace fastgltf {
 
         template <typename... Args>
         decltype(auto) emplace_back(Args&&... args) {
-            // We reserve enough capacity for the new element, and then just increment the size.
-			reserve(_size + 1);
-			++_size;
-            new (std::addressof(back())) T(std::forward<Args>(args)...);
+            if (_size == capacity()) {
+                // The arguments might refer to our own elements, which reserving more capacity invalidates.
+                T value(std::forward<Args>(args)...);
+                reserve(_size + 1);
+                transfer(value, end());
+            } else {
+                new (end()) T(std::forward<Args>(args)...);
+            }
+            ++_size;
             return (back());
         }
 
-- 
2.43.0


From 62bc80256592a4e18c95ca87785ca55bc86f870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:05 +0000
Subject: [PATCH 096/100] fix: static vectors of anything but bytes and
 integers are compared by their bytes

---
 include/fastgltf/types.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index f19fe73..e66e9a3 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -28,6 +28,7 @@
 #define FASTGLTF_TYPES_HPP
 
 #if !defined(FASTGLTF_USE_STD_MODULE) || !FASTGLTF_USE_STD_MODULE
+#include <algorithm>
 #include <cassert>
 #include <filesystem>
 #include <optional>
@@ -674,13 +675,13 @@ namespace fastgltf {
 
         bool operator==(const StaticVector<value_type>& other) const {
             if (other.size() != size()) return false;
-            return std::memcmp(data(), other.data(), size_bytes()) == 0;
+            return std::equal(begin(), end(), other.begin());
         }
 
         // This is mostly just here for compatibility and the tests
         bool operator==(const std::vector<value_type>& other) const {
             if (other.size() != size()) return false;
-            return std::memcmp(data(), other.data(), size_bytes()) == 0;
+            return std::equal(begin(), end(), other.begin());
         }
     };
 
-- 
2.43.0


From 20e36962dcb8aaf4b8a53b73958dd63f61a13b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 097/100] fix: initialise the bounds of an accessor from the
 first value included instead of from zero

---
 include/fastgltf/types.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index e66e9a3..368d0d2 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -2719,10 +2719,14 @@ namespace fastgltf {
 		 */
 		template <typename T, std::enable_if_t<AccessorBoundsArray::is_valid_type_v<T>, bool> = true>
 		void updateBoundsToInclude(T value) {
-			if (!max)
+			if (!max) {
 				max = AccessorBoundsArray::ForType<T>(1);
-			if (!min)
+				max->set<T>(0, value);
+			}
+			if (!min) {
 				min = AccessorBoundsArray::ForType<T>(1);
+				min->set<T>(0, value);
+			}
 
 			assert(max->isType<T>() && min->isType<T>());
 			assert(max->size() == 1 && min->size() == 1);
@@ -2741,10 +2745,16 @@ namespace fastgltf {
 		 */
 		template <typename T, std::size_t N, std::enable_if_t<AccessorBoundsArray::is_valid_type_v<T>, bool> = true>
 		void updateBoundsToInclude(math::vec<T, N> value) {
-			if (!max)
+			if (!max) {
 				max = AccessorBoundsArray::ForType<T>(value.size());
-			if (!min)
+				for (std::size_t i = 0; i < value.size(); ++i)
+					max->set<T>(i, value[i]);
+			}
+			if (!min) {
 				min = AccessorBoundsArray::ForType<T>(value.size());
+				for (std::size_t i = 0; i < value.size(); ++i)
+					min->set<T>(i, value[i]);
+			}
 
 			assert(max->isType<T>() && min->isType<T>());
 			assert(max->size() == value.size() && min->size() == value.size());
-- 
2.43.0


From 792e5fe84872798559d36934c3aa01efd51b2fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:06 +0000
Subject: [PATCH 098/100] fix: return the optional itself from
 OptionalWithFlagValue::or_else, which never compiled

---
 include/fastgltf/types.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 368d0d2..630bc5b 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1363,12 +1363,12 @@ namespace fastgltf {
 		}
 
 		template <typename F>
-		[[nodiscard]] T or_else(F&& func) const& {
+		[[nodiscard]] OptionalWithFlagValue<T> or_else(F&& func) const& {
 			return *this ? *this : std::invoke(std::forward<F>(func));
 		}
 
 		template <typename F>
-		[[nodiscard]] T or_else(F&& func)&& {
+		[[nodiscard]] OptionalWithFlagValue<T> or_else(F&& func)&& {
 			return *this ? std::move(*this) : std::invoke(std::forward<F>(func));
 		}
 
-- 
2.43.0


From 1cf32deaef7316735ca788491708d57d5994e701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 099/100] fix: let an OptionalWithFlagValue be assigned from
 one of another type, which never compiled

---
 include/fastgltf/types.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index 630bc5b..a9841d6 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1225,9 +1225,9 @@ namespace fastgltf {
 		OptionalWithFlagValue& operator=(const OptionalWithFlagValue<U>& other) {
 			if (other.has_value()) {
 				if (has_value()) {
-					_value = other._value;
+					_value = *other;
 				} else {
-					new(std::addressof(_value)) T(other._value);
+					new(std::addressof(_value)) T(*other);
 				}
 			} else {
 				reset();
@@ -1239,9 +1239,9 @@ namespace fastgltf {
 		OptionalWithFlagValue& operator=(OptionalWithFlagValue<U>&& other) noexcept(std::is_nothrow_assignable_v<T&, T> && std::is_nothrow_constructible_v<T, T>) {
 			if (other.has_value()) {
 				if (has_value()) {
-					_value = std::move(other._value);
+					_value = std::move(*other);
 				} else {
-					new(std::addressof(_value)) T(other._value);
+					new(std::addressof(_value)) T(std::move(*other));
 				}
 			} else {
 				reset();
-- 
2.43.0


From be565cc3edc3c96e3a8ede2df00a6f6e0cba9740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:25 +0000
Subject: [PATCH 100/100] fix: give the optional members of structures their
 default values also outside of the parser

---
 include/fastgltf/types.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/fastgltf/types.hpp b/include/fastgltf/types.hpp
index a9841d6..1abd8fe 100644
--- a/include/fastgltf/types.hpp
+++ b/include/fastgltf/types.hpp
@@ -1888,7 +1888,7 @@ namespace fastgltf {
         };
 
         FASTGLTF_EXPORT struct URI {
-            std::size_t fileByteOffset;
+            std::size_t fileByteOffset = 0;
             fastgltf::URI uri;
             MimeType mimeType = MimeType::None;
         };
@@ -2096,7 +2096,7 @@ namespace fastgltf {
         /**
          * Flag to indicate that the geometry should be a convex hull.
          */
-        bool convexHull;
+        bool convexHull = false;
 	};
 
 	FASTGLTF_EXPORT struct PhysicsMaterial {
@@ -2106,9 +2106,9 @@ namespace fastgltf {
 
 		num restitution = 0.0f;
 
-		CombineMode frictionCombine;
+		CombineMode frictionCombine = CombineMode::Average;
 
-		CombineMode restitutionCombine;
+		CombineMode restitutionCombine = CombineMode::Average;
 	};
 
 	FASTGLTF_EXPORT struct CollisionFilter {
@@ -2216,17 +2216,17 @@ namespace fastgltf {
         /**
          * The maximum force that the drive can apply
          */
-        num maxForce;
+        num maxForce = 0;
 
         /**
          * The desired relative target between the pivot axes
          */
-        num positionTarget;
+        num positionTarget = 0;
 
         /**
          * The desired relative velocity of the pivot axes
          */
-        num velocityTarget;
+        num velocityTarget = 0;
 
         /**
          * The drive's stiffness, used to achieve the position target
@@ -2409,7 +2409,7 @@ namespace fastgltf {
         /**
          * Rotate the UVs by this many radians counter-clockwise around the origin. This is equivalent to a similar rotation of the image clockwise.
          */
-        num rotation;
+        num rotation = 0;
 
 		/**
 		 * The offset of the UV coordinate origin as a factor of the texture dimensions.
@@ -2772,11 +2772,11 @@ namespace fastgltf {
 
     FASTGLTF_EXPORT struct CompressedBufferView {
         std::size_t bufferIndex;
-        std::size_t byteOffset;
+        std::size_t byteOffset = 0;
         std::size_t byteLength;
         std::size_t count;
         MeshoptCompressionMode mode;
-        MeshoptCompressionFilter filter;
+        MeshoptCompressionFilter filter = MeshoptCompressionFilter::None;
 
         std::size_t byteStride;
     };
@@ -2808,10 +2808,10 @@ namespace fastgltf {
     FASTGLTF_EXPORT struct Light {
         LightType type;
         /** RGB light color in linear space. */
-        math::nvec3 color;
+        math::nvec3 color = math::nvec3(1);
 
         /** Point and spot lights use candela (lm/sr) while directional use lux (lm/m^2) */
-        num intensity;
+        num intensity = 1;
         /** Range for point and spot lights. If not present, range is infinite. */
         Optional<num> range;
 
-- 
2.43.0


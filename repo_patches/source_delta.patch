From fe70321dca2748f242dda144c798ab29ab8763a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:03 +0000
Subject: [PATCH 01/14] fix: base64_decode(): do not index the decode table
 with a negative char

---
 src/utki/base64.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utki/base64.cpp b/src/utki/base64.cpp
index cd7e9c5..6df5608 100644
--- a/src/utki/base64.cpp
+++ b/src/utki/base64.cpp
@@ -54,7 +54,7 @@ constexpr const std::array<uint8_t, size_t(std::numeric_limits<uint8_t>::max())
 	0,    0,    0,    0,    0,    0,    0,    0,    0
 };
 
-std::array<uint8_t, 3> base64_decode_quad(char a, char b, char c, char d)
+std::array<uint8_t, 3> base64_decode_quad(uint8_t a, uint8_t b, uint8_t c, uint8_t d)
 {
 	constexpr auto bits_per_char = 6;
 	uint32_t quad = //
@@ -107,7 +107,7 @@ std::vector<uint8_t> utki::base64_decode(std::string_view str)
 		i = std::next(i);
 		auto d = *i;
 		i = std::next(i);
-		auto bytes = base64_decode_quad(a, b, c, d);
+		auto bytes = base64_decode_quad(uint8_t(a), uint8_t(b), uint8_t(c), uint8_t(d));
 
 		ret.insert(ret.end(), bytes.begin(), bytes.end());
 	}
@@ -125,13 +125,13 @@ std::vector<uint8_t> utki::base64_decode(std::string_view str)
 	i = std::next(i);
 
 	if (i == str.end()) {
-		auto bytes = base64_decode_quad(a, b, 'A', 'A');
+		auto bytes = base64_decode_quad(uint8_t(a), uint8_t(b), 'A', 'A');
 		ret.push_back(bytes[0]);
 		return ret;
 	}
 
 	auto c = *i;
-	auto bytes = base64_decode_quad(a, b, c, 'A');
+	auto bytes = base64_decode_quad(uint8_t(a), uint8_t(b), uint8_t(c), 'A');
 	ret.push_back(bytes[0]);
 	ret.push_back(bytes[1]);
 
-- 
2.43.0


From 6ccb23c05bfce5bb8c5370f56d613638c509c33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:03 +0000
Subject: [PATCH 02/14] fix: base64_decode(): do not read past the end of a
 string with an incomplete last quad

---
 src/utki/base64.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utki/base64.cpp b/src/utki/base64.cpp
index 6df5608..980ab42 100644
--- a/src/utki/base64.cpp
+++ b/src/utki/base64.cpp
@@ -120,7 +120,9 @@ std::vector<uint8_t> utki::base64_decode(std::string_view str)
 
 	auto a = *i;
 	i = std::next(i);
-	ASSERT(i != str.end())
+	if (i == str.end()) {
+		throw std::invalid_argument("base64_decode(): malformed base64 string: last quad is not complete");
+	}
 	auto b = *i;
 	i = std::next(i);
 
-- 
2.43.0


From cb61add93b122f691d2a259c4665dcb24fbdf2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:03 +0000
Subject: [PATCH 03/14] fix: utf8_iterator: lead bytes 0xfe and 0xff shift by
 more than the width of char32_t

---
 src/utki/unicode.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utki/unicode.cpp b/src/utki/unicode.cpp
index 13488bf..6f0fc91 100644
--- a/src/utki/unicode.cpp
+++ b/src/utki/unicode.cpp
@@ -91,6 +91,12 @@ utf8_iterator& utf8_iterator::operator++() noexcept
 		this->c <<= 6; // NOLINT(cppcoreguidelines-avoid-magic-numbers)
 		this->c |= (*this->p) & 0x3f; // NOLINT(cppcoreguidelines-avoid-magic-numbers)
 	}
+
+	if (i >= 7) { // NOLINT(cppcoreguidelines-avoid-magic-numbers)
+		// lead bytes 0xfe and 0xff carry no bits of the character
+		return *this;
+	}
+
 	// NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
 	this->c |= (char32_t(uint8_t(b << (i + 1)) >> (i + 1)) << (6 * (i - 1)));
 
-- 
2.43.0


From a867219d0e0957d70d473084b10e2adb59dab62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:03 +0000
Subject: [PATCH 04/14] fix: utf8_iterator: do not read past the terminating
 zero inside of a truncated sequence

---
 src/utki/unicode.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utki/unicode.cpp b/src/utki/unicode.cpp
index 6f0fc91..af8cf99 100644
--- a/src/utki/unicode.cpp
+++ b/src/utki/unicode.cpp
@@ -67,7 +67,12 @@ utf8_iterator& utf8_iterator::operator++() noexcept
 		return *this;
 	}
 
-	if (this->p == this->end) {
+	// the sequence is truncated by the end of the span, or by the terminating zero of a zero-terminated string
+	const auto is_truncated = [this]() {
+		return this->p == this->end || (!this->end && *this->p == 0);
+	};
+
+	if (is_truncated()) {
 		this->c = 0;
 		return *this;
 	}
@@ -83,7 +88,7 @@ utf8_iterator& utf8_iterator::operator++() noexcept
 		 // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
 		 ++this->p)
 	{
-		if (this->p == this->end) {
+		if (is_truncated()) {
 			this->c = 0;
 			return *this;
 		}
-- 
2.43.0


From 8d040931ead3205e6dfdbac05be73ba852b7f8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:03 +0000
Subject: [PATCH 05/14] fix: ends_with(): wrong result when the suffix also
 occurs earlier in the string

---
 src/utki/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/string.hpp b/src/utki/string.hpp
index 436da6a..bc23a52 100644
--- a/src/utki/string.hpp
+++ b/src/utki/string.hpp
@@ -849,7 +849,7 @@ inline bool ends_with(std::string_view str, std::string_view suffix)
 	if (suffix.size() > str.size()) {
 		return false;
 	}
-	return str.find(suffix) == (str.size() - suffix.size());
+	return str.substr(str.size() - suffix.size()) == suffix;
 #endif
 }
 
-- 
2.43.0


From 4a9dd2d489b82fb6e2ecca8f084fdd35de5def7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:12 +0000
Subject: [PATCH 06/14] fix: traversal: at_level() is declared noexcept, so the
 documented std::out_of_range terminates the program

---
 src/utki/tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index 87dd9a0..d028e6e 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -474,7 +474,7 @@ private:
 			is_const,
 			const typename collection_type::value_type,
 			typename collection_type::value_type>&
-		at_level(size_t d) noexcept
+		at_level(size_t d)
 		{
 			return *this->iter_stack.at(d);
 		}
@@ -485,7 +485,7 @@ private:
 		 * @return Reference to the tree node this iterator points to on the requested tree level.
 		 * @throw std::out_of_range - in case the requested tree level is higher than the iterator depth.
 		 */
-		const typename collection_type::value_type& at_level(size_t d) const noexcept
+		const typename collection_type::value_type& at_level(size_t d) const
 		{
 			return *this->iter_stack.at(d);
 		}
-- 
2.43.0


From f719f6f0c1c3b4e035fa300564ad22f793990cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:12 +0000
Subject: [PATCH 07/14] fix: traversal: make_const_iterator() and const
 operator[] do not compile for a mutable collection

---
 src/utki/tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index d028e6e..fb7ef76 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -536,8 +536,8 @@ private:
 	{
 		iterator_internal<is_const> ret;
 
-		auto* list = &this->roots;
-		auto iter = this->roots.begin();
+		typename iterator_internal<is_const>::list_type* list = &this->roots;
+		typename iterator_internal<is_const>::iterator_type iter = list->begin();
 
 		for (auto i : index) {
 			ret.list_stack.push_back(list);
-- 
2.43.0


From e5551f8369a3bfcd8b4e4f5fe4b57615d6c6b3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:12 +0000
Subject: [PATCH 08/14] fix: enum_iterable: reverse iteration does not compile

---
 src/utki/enum_iterable.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/utki/enum_iterable.hpp b/src/utki/enum_iterable.hpp
index 8341f35..d09223b 100644
--- a/src/utki/enum_iterable.hpp
+++ b/src/utki/enum_iterable.hpp
@@ -64,6 +64,11 @@ public:
 		using reference = value_type;
 		using pointer = void;
 
+		constexpr bool operator==(const iterator& i) const noexcept
+		{
+			return this->e == i.e;
+		}
+
 		constexpr bool operator!=(const iterator& i) const noexcept
 		{
 			return this->e != i.e;
@@ -79,12 +84,20 @@ public:
 			this->e = enum_type(std::underlying_type_t<enum_type>(this->e) + 1);
 			return *this;
 		}
+
+		constexpr iterator& operator--() noexcept
+		{
+			this->e = enum_type(std::underlying_type_t<enum_type>(this->e) - 1);
+			return *this;
+		}
 	};
 
 	using const_iterator = iterator;
 
 	using reverse_iterator = std::reverse_iterator<iterator>;
 
+	using const_reverse_iterator = reverse_iterator;
+
 	constexpr size_t size() const noexcept
 	{
 		return size_t(enum_type::enum_size);
-- 
2.43.0


From e3e78d1ff17e931042a7a858d6e75b8fe81a0d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:12 +0000
Subject: [PATCH 09/14] fix: exception::to_string(): the indentation is ignored

---
 src/utki/exception.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/exception.cpp b/src/utki/exception.cpp
index 3ea4512..88369b7 100644
--- a/src/utki/exception.cpp
+++ b/src/utki/exception.cpp
@@ -42,9 +42,9 @@ using namespace std::string_literals;
 
 using namespace utki;
 
-std::string exception::to_string(std::string_view) const
+std::string exception::to_string(std::string_view indentation) const
 {
-	return utki::to_string(static_cast<const std::exception&>(*this));
+	return utki::to_string(static_cast<const std::exception&>(*this), indentation);
 }
 
 std::string utki::current_exception_to_string(std::string_view indentation)
-- 
2.43.0


From 748d87ebfedbceaa40fc5713ecbdb24469790fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:12 +0000
Subject: [PATCH 10/14] fix: make_indentation(): the length wraps around 32
 bits

---
 src/utki/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/string.cpp b/src/utki/string.cpp
index cd582c7..0614773 100644
--- a/src/utki/string.cpp
+++ b/src/utki/string.cpp
@@ -496,5 +496,5 @@ std::string utki::make_indentation(unsigned depth, unsigned size)
 		return std::string(depth, '\t');
 	}
 	// NOLINTNEXTLINE(modernize-return-braced-init-list)
-	return std::string(size_t(depth * size), ' ');
+	return std::string(size_t(depth) * size_t(size), ' ');
 }
-- 
2.43.0


From 8d7e02772f639c55eb58839ffc8ff0e3d31fdfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:12 +0000
Subject: [PATCH 11/14] fix: signal::emit(): callbacks after the first one get
 moved-from arguments

---
 src/utki/signal.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/utki/signal.hpp b/src/utki/signal.hpp
index 33d8c0e..ee73391 100644
--- a/src/utki/signal.hpp
+++ b/src/utki/signal.hpp
@@ -30,6 +30,8 @@ SOFTWARE.
 
 #include <functional>
 #include <list>
+#include <type_traits>
+#include <utility>
 
 #include "debug.hpp"
 
@@ -93,7 +95,12 @@ public:
 	void emit(args_type... a)
 	{
 		for (const auto& c : this->callbacks) {
-			c(std::forward<args_type>(a)...);
+			// an argument passed by value is copied for each callback, otherwise the first callback
+			// would leave the moved-from value for the following ones
+			c(static_cast<std::conditional_t< //
+				  std::is_copy_constructible_v<args_type>,
+				  const args_type&,
+				  args_type&&>>(a)...);
 		}
 	}
 
-- 
2.43.0


From 21af90158d4f1f309d177f15eee7150ba42ff244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:06 +0000
Subject: [PATCH 12/14] fix: overlaps() of an empty span dereferenced it and
 reported true for any pointer

---
 src/utki/span.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utki/span.hpp b/src/utki/span.hpp
index a467095..16d67e4 100644
--- a/src/utki/span.hpp
+++ b/src/utki/span.hpp
@@ -489,7 +489,8 @@ public:
 template <typename element_type>
 bool overlaps(const span<element_type>& s, typename span<element_type>::const_pointer p)
 {
-	return (&*s.begin()) <= p && p <= (&*std::prev(s.end()));
+	// NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic, "need to get end pointer of the span")
+	return s.data() <= p && p < s.data() + s.size();
 }
 
 template <typename lhs_element_type, typename rhs_element_type>
-- 
2.43.0


From fd033e87be16c608452b6daf40660e767996430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:51 +0000
Subject: [PATCH 13/14] fix: split(): std::isspace() is undefined for negative
 characters and depends on the locale

---
 src/utki/string.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utki/string.cpp b/src/utki/string.cpp
index 0614773..df13b94 100644
--- a/src/utki/string.cpp
+++ b/src/utki/string.cpp
@@ -29,7 +29,6 @@ SOFTWARE.
 #include "string.hpp"
 
 #include <array>
-#include <cctype> // for std::isspace()
 #include <cstdarg> // for varargs
 
 #include <fast_float/fast_float.h>
@@ -144,7 +143,7 @@ std::vector<std::string> utki::split(std::string_view str)
 	};
 
 	for (auto c : str) {
-		if (std::isspace(c)) {
+		if (string_parser::is_space(c)) {
 			add_str();
 			continue;
 		}
-- 
2.43.0


From bcb4113288000dc5570da5a64cd660b399c47d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:23 +0000
Subject: [PATCH 14/14] fix: linq where() gives no element away to a predicate
 which takes it by value

---
 src/utki/linq.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utki/linq.hpp b/src/utki/linq.hpp
index 735ce50..9f02f94 100644
--- a/src/utki/linq.hpp
+++ b/src/utki/linq.hpp
@@ -173,7 +173,10 @@ public:
 			std::make_move_iterator(this->collection.begin()),
 			std::make_move_iterator(this->collection.end()),
 			std::inserter(ret, ret.end()),
-			func
+			// the move iterator gives rvalues, make sure the predicate does not steal the element it tests
+			[&func](const value_type& v) {
+				return func(v);
+			}
 		);
 
 		return linq_collection_aggregator<decltype(ret)&&>(std::move(ret));
-- 
2.43.0


From ec600dfa809f8f74fb6778ecd86dbf74378b4382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:39 +0000
Subject: [PATCH 01/28] fix: base64_decode() indexes decode table with negative
 char for bytes above 0x7f

---
 src/utki/base64.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utki/base64.cpp b/src/utki/base64.cpp
index cd7e9c5..3587267 100644
--- a/src/utki/base64.cpp
+++ b/src/utki/base64.cpp
@@ -58,10 +58,10 @@ std::array<uint8_t, 3> base64_decode_quad(char a, char b, char c, char d)
 {
 	constexpr auto bits_per_char = 6;
 	uint32_t quad = //
-		(decode_table[a] << bits_per_char * 3) | //
-		(decode_table[b] << bits_per_char * 2) | //
-		(decode_table[c] << bits_per_char) | //
-		decode_table[d];
+		(decode_table[uint8_t(a)] << bits_per_char * 3) | //
+		(decode_table[uint8_t(b)] << bits_per_char * 2) | //
+		(decode_table[uint8_t(c)] << bits_per_char) | //
+		decode_table[uint8_t(d)];
 
 	return {
 		uint8_t((quad >> utki::byte_bits * 2) & utki::byte_mask), //
-- 
2.43.0


From 606e61b671b0574e703938950ed122b0c8de14af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:39 +0000
Subject: [PATCH 02/28] fix: base64_decode() reads past the end of input when
 last group has only one character

---
 src/utki/base64.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utki/base64.cpp b/src/utki/base64.cpp
index 3587267..f33fd16 100644
--- a/src/utki/base64.cpp
+++ b/src/utki/base64.cpp
@@ -120,7 +120,9 @@ std::vector<uint8_t> utki::base64_decode(std::string_view str)
 
 	auto a = *i;
 	i = std::next(i);
-	ASSERT(i != str.end())
+	if (i == str.end()) {
+		throw std::invalid_argument("base64_decode(): malformed base64 string: last group has only one character");
+	}
 	auto b = *i;
 	i = std::next(i);
 
-- 
2.43.0


From 99d653f21bb112b25b7a6a4697fcb240ef0cfc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:07 +0000
Subject: [PATCH 03/28] fix: undefined shift in utf8_iterator on lead bytes
 0xfe and 0xff

---
 src/utki/unicode.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utki/unicode.cpp b/src/utki/unicode.cpp
index 13488bf..d65ff7c 100644
--- a/src/utki/unicode.cpp
+++ b/src/utki/unicode.cpp
@@ -91,8 +91,11 @@ utf8_iterator& utf8_iterator::operator++() noexcept
 		this->c <<= 6; // NOLINT(cppcoreguidelines-avoid-magic-numbers)
 		this->c |= (*this->p) & 0x3f; // NOLINT(cppcoreguidelines-avoid-magic-numbers)
 	}
-	// NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
-	this->c |= (char32_t(uint8_t(b << (i + 1)) >> (i + 1)) << (6 * (i - 1)));
+	// for lead bytes 0xfe and 0xff there are no value bits left in the lead byte, and the shift would be too big
+	if (i <= max_size_of_utf8_encoded_character) {
+		// NOLINTNEXTLINE(cppcoreguidelines-avoid-magic-numbers)
+		this->c |= (char32_t(uint8_t(b << (i + 1)) >> (i + 1)) << (6 * (i - 1)));
+	}
 
 	return *this;
 }
-- 
2.43.0


From 941660ac899d70e5b1c8ada41c0552bee83730b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:07 +0000
Subject: [PATCH 04/28] fix: utf8_iterator reads past the null-terminator when
 last character is truncated

---
 src/utki/unicode.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utki/unicode.cpp b/src/utki/unicode.cpp
index d65ff7c..6046999 100644
--- a/src/utki/unicode.cpp
+++ b/src/utki/unicode.cpp
@@ -28,6 +28,8 @@ SOFTWARE.
 
 #include "unicode.hpp"
 
+#include <cstring>
+
 #include "debug.hpp"
 #include "utility.hpp"
 
@@ -44,7 +46,10 @@ static_assert(sizeof(char) == sizeof(uint8_t), "unexpected char size");
 
 utf8_iterator::utf8_iterator(const char* str) :
 	// NOLINTNEXTLINE(cppcoreguidelines-pro-type-reinterpret-cast)
-	p(reinterpret_cast<const uint8_t*>(str))
+	p(reinterpret_cast<const uint8_t*>(str)),
+	// the end has to be known, because the last character can be truncated
+	// NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
+	end(str ? this->p + std::strlen(str) : nullptr)
 {
 	this->operator++();
 }
-- 
2.43.0


From e7d815475ef0320fb615cea73e92c3bd16660ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:07 +0000
Subject: [PATCH 05/28] fix: utki::split() passes negative char to
 std::isspace()

---
 src/utki/string.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utki/string.cpp b/src/utki/string.cpp
index cd582c7..54fc37d 100644
--- a/src/utki/string.cpp
+++ b/src/utki/string.cpp
@@ -144,7 +144,8 @@ std::vector<std::string> utki::split(std::string_view str)
 	};
 
 	for (auto c : str) {
-		if (std::isspace(c)) {
+		// std::isspace() is only defined for values of unsigned char and EOF
+		if (std::isspace(static_cast<unsigned char>(c))) {
 			add_str();
 			continue;
 		}
-- 
2.43.0


From 630598ad4b5047ab6037355f04392c4a5047ee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:01 +0000
Subject: [PATCH 06/28] fix: word_wrap() cuts words and wraps too early when a
 word ends exactly at the line width

---
 src/utki/string.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/utki/string.cpp b/src/utki/string.cpp
index 54fc37d..4af3fa1 100644
--- a/src/utki/string.cpp
+++ b/src/utki/string.cpp
@@ -169,6 +169,7 @@ std::vector<std::string> utki::word_wrap(std::string_view str, unsigned width)
 	auto line_begin = str.begin();
 	auto span_begin = str.begin(); // span is either series of spaces or series of non-spaces
 	unsigned word_ended = false; // indicates that at least one word in the current line has ended
+	bool space_pending = false; // indicates that the line starts with the space which separates it from previous line
 	for (auto i = str.begin(); i != str.end(); i = std::next(i)) {
 		ASSERT(std::distance(line_begin, i) >= 0)
 		if (*i != '\n' &&
@@ -179,6 +180,7 @@ std::vector<std::string> utki::word_wrap(std::string_view str, unsigned width)
 #endif
 		)
 		{
+			space_pending = false;
 			if (*span_begin == ' ') { // span of spaces
 				if (word_ended) {
 					ret.emplace_back(str.substr( //
@@ -190,6 +192,14 @@ std::vector<std::string> utki::word_wrap(std::string_view str, unsigned width)
 					line_begin = i;
 					span_begin = line_begin;
 				}
+			} else if (*i == ' ') { // word span which ends exactly at the line width
+				ret.emplace_back(str.substr( //
+					std::distance(str.begin(), line_begin),
+					std::distance(line_begin, i)
+				));
+				line_begin = i;
+				span_begin = line_begin;
+				space_pending = true;
 			} else if (word_ended) { // short word span
 				ASSERT(std::distance(line_begin, span_begin) >= 1)
 				ret.emplace_back(str.substr( //
@@ -219,11 +229,17 @@ std::vector<std::string> utki::word_wrap(std::string_view str, unsigned width)
 				line_begin = std::next(i);
 				span_begin = line_begin;
 				word_ended = false;
+				space_pending = false;
 				break;
 			default:
 				if (*span_begin == ' ') {
 					span_begin = i;
 				}
+				if (space_pending) {
+					// the line has been wrapped between two words, the space between them is not part of any line
+					line_begin = std::next(line_begin);
+					space_pending = false;
+				}
 				break;
 		}
 	}
-- 
2.43.0


From 041444cc60cb904fbf17e9780f267e81545aec59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:50 +0000
Subject: [PATCH 07/28] fix: ends_with() in C++17 builds is false when the
 suffix also occurs earlier in the string

---
 src/utki/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/string.hpp b/src/utki/string.hpp
index 436da6a..0492c2d 100644
--- a/src/utki/string.hpp
+++ b/src/utki/string.hpp
@@ -849,7 +849,7 @@ inline bool ends_with(std::string_view str, std::string_view suffix)
 	if (suffix.size() > str.size()) {
 		return false;
 	}
-	return str.find(suffix) == (str.size() - suffix.size());
+	return str.compare(str.size() - suffix.size(), suffix.size(), suffix) == 0;
 #endif
 }
 
-- 
2.43.0


From 0080c7b7d19db44e74fea88c612a103e0bdcd16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:54 +0000
Subject: [PATCH 08/28] fix: make_indentation() multiplies depth by size in 32
 bits

---
 src/utki/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/string.cpp b/src/utki/string.cpp
index 4af3fa1..bbd3133 100644
--- a/src/utki/string.cpp
+++ b/src/utki/string.cpp
@@ -513,5 +513,5 @@ std::string utki::make_indentation(unsigned depth, unsigned size)
 		return std::string(depth, '\t');
 	}
 	// NOLINTNEXTLINE(modernize-return-braced-init-list)
-	return std::string(size_t(depth * size), ' ');
+	return std::string(size_t(depth) * size, ' ');
 }
-- 
2.43.0


From 8a6c59a84fc116809e13fdd3b029a8e15cc837a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:31 +0000
Subject: [PATCH 09/28] fix: overlaps() is wrong for empty span

---
 src/utki/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/span.hpp b/src/utki/span.hpp
index a467095..f2231ae 100644
--- a/src/utki/span.hpp
+++ b/src/utki/span.hpp
@@ -489,7 +489,7 @@ public:
 template <typename element_type>
 bool overlaps(const span<element_type>& s, typename span<element_type>::const_pointer p)
 {
-	return (&*s.begin()) <= p && p <= (&*std::prev(s.end()));
+	return s.data() <= p && p < s.data() + s.size();
 }
 
 template <typename lhs_element_type, typename rhs_element_type>
-- 
2.43.0


From f815def2902dc4f4f3600dc629494d7140d3128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:40 +0000
Subject: [PATCH 10/28] fix: traversal::make_const_iterator() and operator[]
 const do not compile for non-const collection

---
 src/utki/tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index 87dd9a0..38c9294 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -536,8 +536,8 @@ private:
 	{
 		iterator_internal<is_const> ret;
 
-		auto* list = &this->roots;
-		auto iter = this->roots.begin();
+		typename iterator_internal<is_const>::list_type* list = &this->roots;
+		auto iter = list->begin();
 
 		for (auto i : index) {
 			ret.list_stack.push_back(list);
-- 
2.43.0


From dbe52c8c485700b00d4d1bfc3be7c5b01002dc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:56 +0000
Subject: [PATCH 11/28] fix: traversal iterator's at_level() terminates instead
 of throwing std::out_of_range

---
 src/utki/tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index 38c9294..21e879e 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -474,7 +474,7 @@ private:
 			is_const,
 			const typename collection_type::value_type,
 			typename collection_type::value_type>&
-		at_level(size_t d) noexcept
+		at_level(size_t d)
 		{
 			return *this->iter_stack.at(d);
 		}
@@ -485,7 +485,7 @@ private:
 		 * @return Reference to the tree node this iterator points to on the requested tree level.
 		 * @throw std::out_of_range - in case the requested tree level is higher than the iterator depth.
 		 */
-		const typename collection_type::value_type& at_level(size_t d) const noexcept
+		const typename collection_type::value_type& at_level(size_t d) const
 		{
 			return *this->iter_stack.at(d);
 		}
-- 
2.43.0


From da00f44131612ef90d878b62adb6ca7e1a65bb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:06 +0000
Subject: [PATCH 12/28] fix: signal::emit() passes moved-from by-value
 arguments to all callbacks but the first one

---
 src/utki/signal.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utki/signal.hpp b/src/utki/signal.hpp
index 33d8c0e..abd03a7 100644
--- a/src/utki/signal.hpp
+++ b/src/utki/signal.hpp
@@ -30,6 +30,7 @@ SOFTWARE.
 
 #include <functional>
 #include <list>
+#include <type_traits>
 
 #include "debug.hpp"
 
@@ -93,7 +94,12 @@ public:
 	void emit(args_type... a)
 	{
 		for (const auto& c : this->callbacks) {
-			c(std::forward<args_type>(a)...);
+			if constexpr (std::is_invocable_v<const callback_type&, args_type&...>) {
+				// do not move the arguments, because those have to be passed to all of the callbacks
+				c(a...);
+			} else {
+				c(std::forward<args_type>(a)...);
+			}
 		}
 	}
 
-- 
2.43.0


From 034c1af31fea4dbb194cd728a7277f91866c52ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:18 +0000
Subject: [PATCH 13/28] fix: linq where() gives moved-from elements when the
 predicate takes its argument by value

---
 src/utki/linq.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utki/linq.hpp b/src/utki/linq.hpp
index 735ce50..5972191 100644
--- a/src/utki/linq.hpp
+++ b/src/utki/linq.hpp
@@ -173,7 +173,10 @@ public:
 			std::make_move_iterator(this->collection.begin()),
 			std::make_move_iterator(this->collection.end()),
 			std::inserter(ret, ret.end()),
-			func
+			// the dereferenced move iterator is an rvalue, make sure the functor cannot move the element away
+			[&func](const value_type& v) {
+				return func(v);
+			}
 		);
 
 		return linq_collection_aggregator<decltype(ret)&&>(std::move(ret));
-- 
2.43.0


From 2eebfed2e06ee644fb50aa277cb46e40b2570542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:43 +0000
Subject: [PATCH 14/28] fix: utki::exception::to_string() ignores the
 indentation

---
 src/utki/exception.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/exception.cpp b/src/utki/exception.cpp
index 3ea4512..88369b7 100644
--- a/src/utki/exception.cpp
+++ b/src/utki/exception.cpp
@@ -42,9 +42,9 @@ using namespace std::string_literals;
 
 using namespace utki;
 
-std::string exception::to_string(std::string_view) const
+std::string exception::to_string(std::string_view indentation) const
 {
-	return utki::to_string(static_cast<const std::exception&>(*this));
+	return utki::to_string(static_cast<const std::exception&>(*this), indentation);
 }
 
 std::string utki::current_exception_to_string(std::string_view indentation)
-- 
2.43.0


From bda6df6db86674f0d8ac727a50ba02505e370d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:43 +0000
Subject: [PATCH 15/28] fix: converting to string an exception which nests
 nothing terminates the program

---
 src/utki/exception.cpp | 10 ++++++++++
 src/utki/exception.hpp |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/src/utki/exception.cpp b/src/utki/exception.cpp
index 88369b7..f745478 100644
--- a/src/utki/exception.cpp
+++ b/src/utki/exception.cpp
@@ -66,6 +66,11 @@ std::string utki::current_exception_to_string(std::string_view indentation)
 	try {
 		throw;
 	} catch (std::nested_exception& nested) {
+		// std::nested_exception::rethrow_nested() terminates if there is no nested exception stored
+		if (!nested.nested_ptr()) {
+			return ss.str();
+		}
+
 		try {
 			nested.rethrow_nested();
 		} catch (std::exception& e) {
@@ -86,6 +91,11 @@ std::string utki::to_string(const std::exception& e, std::string_view indentatio
 	std::stringstream ss;
 	ss << indentation << demangle(typeid(e)) << ": " << e.what();
 
+	// std::nested_exception::rethrow_nested() terminates if there is no nested exception stored
+	if (auto nested = dynamic_cast<const std::nested_exception*>(&e); nested && !nested->nested_ptr()) {
+		return ss.str();
+	}
+
 	try {
 		std::rethrow_if_nested(e);
 	} catch (std::exception& nested) {
diff --git a/src/utki/exception.hpp b/src/utki/exception.hpp
index 13c82d7..212772b 100644
--- a/src/utki/exception.hpp
+++ b/src/utki/exception.hpp
@@ -112,6 +112,11 @@ public:
 		std::stringstream ss;
 		ss << indentation << utki::to_string(static_cast<const std::exception&>(this->nesting));
 
+		// std::nested_exception::rethrow_nested() terminates if there is no nested exception stored
+		if (!this->nested.nested_ptr()) {
+			return ss.str();
+		}
+
 		try {
 			this->nested.rethrow_nested();
 		} catch (exception& e) {
-- 
2.43.0


From 05d1d27ef17a04ad482dc9f809029493e4b691f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:43 +0000
Subject: [PATCH 16/28] fix: stacked_exception::what() invalidates the
 previously returned string

---
 src/utki/exception.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utki/exception.hpp b/src/utki/exception.hpp
index 212772b..31f9cc7 100644
--- a/src/utki/exception.hpp
+++ b/src/utki/exception.hpp
@@ -97,8 +97,11 @@ public:
 	const char* what() const noexcept override
 	{
 		try {
-			this->description =
-				utki::cat(std::string_view("exception stack:\n"), this->to_string(std::string_view("- ")));
+			// build the description only once, so that the previously returned pointer remains valid
+			if (this->description.empty()) {
+				this->description =
+					utki::cat(std::string_view("exception stack:\n"), this->to_string(std::string_view("- ")));
+			}
 			return this->description.c_str();
 		} catch (std::bad_alloc&) {
 			return "std::bad_alloc";
-- 
2.43.0


From 8a5b49fe1932fdad5e332cc35084562d3dfd937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:48 +0000
Subject: [PATCH 17/28] fix: operator[] of a non-const traversal over a const
 collection does not compile

---
 src/utki/tree.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utki/tree.hpp b/src/utki/tree.hpp
index 21e879e..faa7df7 100644
--- a/src/utki/tree.hpp
+++ b/src/utki/tree.hpp
@@ -670,7 +670,7 @@ public:
 	 * @param index - index of the tree element.
 	 * @return reference to the tree elemenet referred by index.
 	 */
-	typename collection_type::value_type& operator[](utki::span<const size_type> index)
+	reference operator[](utki::span<const size_type> index)
 	{
 		ASSERT(this->is_valid(index))
 		// TODO: rewrite without creating iterator, for more performance
@@ -694,7 +694,7 @@ public:
 	 * @param index - index of the tree element.
 	 * @return reference to the tree elemenet referred by index.
 	 */
-	typename collection_type::value_type& operator[](const std::vector<size_t>& index)
+	reference operator[](const std::vector<size_t>& index)
 	{
 		return this->operator[](utki::make_span(index));
 	}
@@ -714,7 +714,7 @@ public:
 	 * @param index - index of the tree element.
 	 * @return reference to the tree elemenet referred by index.
 	 */
-	typename collection_type::value_type& operator[](std::initializer_list<size_t> index)
+	reference operator[](std::initializer_list<size_t> index)
 	{
 		return this->operator[](std::vector<size_t>(index));
 	}
-- 
2.43.0


From fb8b6a690b2c6c5baadb925e2a5485e9d08662c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:14 +0000
Subject: [PATCH 18/28] fix: enum_iterable's reverse iterators do not compile

---
 src/utki/enum_iterable.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/utki/enum_iterable.hpp b/src/utki/enum_iterable.hpp
index 8341f35..2bc1745 100644
--- a/src/utki/enum_iterable.hpp
+++ b/src/utki/enum_iterable.hpp
@@ -58,12 +58,17 @@ public:
 		{}
 
 	public:
-		using iterator_category = std::input_iterator_tag;
+		using iterator_category = std::bidirectional_iterator_tag;
 		using difference_type = std::make_signed_t<std::underlying_type_t<enum_type>>;
 		using value_type = enum_type;
 		using reference = value_type;
 		using pointer = void;
 
+		constexpr bool operator==(const iterator& i) const noexcept
+		{
+			return this->e == i.e;
+		}
+
 		constexpr bool operator!=(const iterator& i) const noexcept
 		{
 			return this->e != i.e;
@@ -79,12 +84,20 @@ public:
 			this->e = enum_type(std::underlying_type_t<enum_type>(this->e) + 1);
 			return *this;
 		}
+
+		constexpr iterator& operator--() noexcept
+		{
+			this->e = enum_type(std::underlying_type_t<enum_type>(this->e) - 1);
+			return *this;
+		}
 	};
 
 	using const_iterator = iterator;
 
 	using reverse_iterator = std::reverse_iterator<iterator>;
 
+	using const_reverse_iterator = reverse_iterator;
+
 	constexpr size_t size() const noexcept
 	{
 		return size_t(enum_type::enum_size);
-- 
2.43.0


From 2b4f03bf06554ad2658705749bc6cc79732ea655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:13 +0000
Subject: [PATCH 19/28] fix: bounds assertions of span::subspan() miss huge
 offsets and counts

---
 src/utki/span.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/span.hpp b/src/utki/span.hpp
index f2231ae..9df8b30 100644
--- a/src/utki/span.hpp
+++ b/src/utki/span.hpp
@@ -469,11 +469,11 @@ public:
 		size_type count = std::numeric_limits<size_type>::max()
 	) const noexcept
 	{
+		ASSERT(offset <= this->size())
 		// NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic, "implement subspan()")
 		pointer new_p = this->data() + offset;
-		ASSERT(new_p <= this->end())
 		size_type new_s = count == std::numeric_limits<size_type>::max() ? this->end() - new_p : count;
-		ASSERT(new_p + new_s <= this->end())
+		ASSERT(new_s <= this->size() - offset)
 		return span(new_p, new_s);
 	}
 };
-- 
2.43.0


From c243b223ed44feb8225a21f29ef261dab0a10d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:49 +0000
Subject: [PATCH 20/28] fix: MSVC toolset of the first VS2017 and VS2019
 releases is reported as the previous one

---
 src/utki/config.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utki/config.hpp b/src/utki/config.hpp
index 5d3e47b..a847644 100644
--- a/src/utki/config.hpp
+++ b/src/utki/config.hpp
@@ -124,9 +124,9 @@ SOFTWARE.
 
 #if defined(_MSC_VER)
 #	define CFG_COMPILER CFG_COMPILER_MSVC
-#	if _MSC_VER < 1916
+#	if _MSC_VER < 1910
 #		define CFG_COMPILER_MSVC_TOOLS_V 140
-#	elif _MSC_VER < 1929
+#	elif _MSC_VER < 1920
 #		define CFG_COMPILER_MSVC_TOOLS_V 141
 #	elif _MSC_VER < 1930
 #		define CFG_COMPILER_MSVC_TOOLS_V 142
-- 
2.43.0


From 7ecf1909dca5cbd1f3904394aa97dc2aa9b32751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:37 +0000
Subject: [PATCH 21/28] fix: singleton object living in a static object is
 freed at program exit

---
 src/utki/singleton.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/utki/singleton.hpp b/src/utki/singleton.hpp
index f898823..be4d796 100644
--- a/src/utki/singleton.hpp
+++ b/src/utki/singleton.hpp
@@ -75,13 +75,14 @@ protected:
 			throw std::logic_error("singleton::singleton(): instance is already created");
 		}
 
-		instance_owner_type::instance.reset(static_cast<object_type*>(this));
+		instance_owner_type::instance = static_cast<object_type*>(this);
 	}
 
 	using singleton_type = intrusive_singleton<object_type>;
 
-	// use unique_ptr because it is automatically initialized to nullptr. Automatic object destruction is not used.
-	using instance_type = std::unique_ptr<object_type>;
+	// Use raw pointer, a static pointer is automatically initialized to nullptr.
+	// The pointer has no destructor, so the singleton object can be destroyed during static objects destruction.
+	using instance_type = object_type*;
 
 public:
 	// NOLINTNEXTLINE(bugprone-crtp-constructor-accessibility, "false positive")
@@ -118,8 +119,8 @@ public:
 
 	virtual ~intrusive_singleton() noexcept
 	{
-		ASSERT(instance_owner_type::instance.get() == static_cast<object_type*>(this))
-		[[maybe_unused]] auto ptr = instance_owner_type::instance.release();
+		ASSERT(instance_owner_type::instance == static_cast<object_type*>(this))
+		instance_owner_type::instance = nullptr;
 	}
 };
 
-- 
2.43.0


From 3acb92a5ac81e54b11066d97f3407964c6c29aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:55 +0000
Subject: [PATCH 22/28] fix: sort() in C++17 builds loses elements of
 std::vector<bool>

---
 src/utki/sort.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utki/sort.hpp b/src/utki/sort.hpp
index 0aeec12..59bc3fc 100644
--- a/src/utki/sort.hpp
+++ b/src/utki/sort.hpp
@@ -61,7 +61,8 @@ constexpr auto distance(random_iter_type first, random_iter_type last)
 template <class forward_iter_1_type, class forward_iter_2_type>
 constexpr void iter_swap(forward_iter_1_type a, forward_iter_2_type b)
 {
-	auto temp = std::move(*a);
+	// dereferencing an iterator can give a proxy object (e.g. std::vector<bool>), which is not the value
+	typename std::iterator_traits<forward_iter_1_type>::value_type temp = std::move(*a);
 	*a = std::move(*b);
 	*b = std::move(temp);
 }
@@ -101,7 +102,9 @@ constexpr void quick_sort(random_iter_type first, random_iter_type last, compara
 	if (n <= 1) {
 		return;
 	}
-	auto const pivot = *utki::sort_internal::next(first, n / 2);
+	// copy the value, because dereferencing an iterator can give a proxy object (e.g. std::vector<bool>)
+	typename std::iterator_traits<random_iter_type>::value_type const pivot =
+		*utki::sort_internal::next(first, n / 2);
 	auto const middle1 = utki::sort_internal::partition(first, last, [=](auto const& elem) {
 		return cmp(elem, pivot);
 	});
-- 
2.43.0


From a1eb76a64cbd308563ee588fca6320c44206335f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:55 +0000
Subject: [PATCH 23/28] fix: zip view goes past the end of a collection which
 has shrunk after creation of the view

---
 src/utki/views.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/utki/views.hpp b/src/utki/views.hpp
index 4ddd943..01bba4a 100644
--- a/src/utki/views.hpp
+++ b/src/utki/views.hpp
@@ -122,11 +122,8 @@ template <typename... collection_type>
 struct zip_view {
 	std::tuple<collection_type&...> collection;
 
-	size_t min_size;
-
 	zip_view(collection_type&... collection) :
-		collection(std::tuple<collection_type&...>(collection...)),
-		min_size(std::min({collection.size()...}))
+		collection(std::tuple<collection_type&...>(collection...))
 	{}
 
 	class iterator
@@ -190,8 +187,10 @@ struct zip_view {
 	auto end()
 	{
 		return iterator(std::apply(
-			[this](auto&... c) {
-				return std::make_tuple(utki::next(c.begin(), this->min_size)...);
+			[](auto&... c) {
+				// sizes of the collections can change after the view is created
+				auto min_size = std::min({size_t(c.size())...});
+				return std::make_tuple(utki::next(c.begin(), min_size)...);
 			},
 			this->collection
 		));
-- 
2.43.0


From be89dc5ca79452ae2fd8688de37c2640fbe56329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:55 +0000
Subject: [PATCH 24/28] fix: skip_front() of a collection without size() method
 does not compile in debug builds

---
 src/utki/views.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/utki/views.hpp b/src/utki/views.hpp
index 01bba4a..3fe1eef 100644
--- a/src/utki/views.hpp
+++ b/src/utki/views.hpp
@@ -45,8 +45,17 @@ struct skip_front_collection_wrapper {
 
 	auto begin()
 	{
-		ASSERT(this->collection.size() >= num_to_skip)
 		using std::begin;
+		ASSERT([this]() {
+			// the collection does not necessarily have the size() method, e.g. plain array or std::forward_list
+			using std::end;
+			auto i = begin(this->collection);
+			size_t num_left = num_to_skip;
+			for (; num_left != 0 && i != end(this->collection); ++i) {
+				--num_left;
+			}
+			return num_left == 0;
+		})
 		return utki::next(begin(this->collection), num_to_skip);
 	}
 
-- 
2.43.0


From d70ea92af7a72850f867862049eb5169feafcf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:55 +0000
Subject: [PATCH 25/28] fix: splitting string to words depends on current C
 locale

---
 src/utki/string.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/utki/string.cpp b/src/utki/string.cpp
index bbd3133..f8e3213 100644
--- a/src/utki/string.cpp
+++ b/src/utki/string.cpp
@@ -29,7 +29,6 @@ SOFTWARE.
 #include "string.hpp"
 
 #include <array>
-#include <cctype> // for std::isspace()
 #include <cstdarg> // for varargs
 
 #include <fast_float/fast_float.h>
@@ -144,8 +143,7 @@ std::vector<std::string> utki::split(std::string_view str)
 	};
 
 	for (auto c : str) {
-		// std::isspace() is only defined for values of unsigned char and EOF
-		if (std::isspace(static_cast<unsigned char>(c))) {
+		if (string_parser::is_space(c)) { // unlike std::isspace(), does not depend on current locale
 			add_str();
 			continue;
 		}
-- 
2.43.0


From 497085740615e2d409d042ef1a721cdc79627f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:11 +0000
Subject: [PATCH 26/28] fix: trim functions throw std::bad_cast for strings of
 char16_t and char32_t

---
 src/utki/string.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/utki/string.hpp b/src/utki/string.hpp
index 0492c2d..37fca11 100644
--- a/src/utki/string.hpp
+++ b/src/utki/string.hpp
@@ -681,6 +681,23 @@ std::string to_string(
 	);
 }
 
+namespace string_internal {
+
+// std::isspace() throws std::bad_cast for character types which have no std::ctype facet, e.g. char16_t and char32_t
+template <typename char_type>
+constexpr bool is_space(char_type c)
+{
+	return //
+		c == char_type(' ') || //
+		c == char_type('\n') || //
+		c == char_type('\t') || //
+		c == char_type('\r') || //
+		c == char_type('\v') || // vertical tab
+		c == char_type('\f'); // form feed
+}
+
+} // namespace string_internal
+
 /**
  * @brief Trim whitespaces from front of the string.
  * @tparam element_type - string element type.
@@ -697,7 +714,7 @@ std::basic_string_view<element_type> trim_front(std::basic_string_view<element_t
 				s.begin(),
 				s.end(),
 				[](auto c) {
-					return !std::isspace(c, std::locale::classic());
+					return !utki::string_internal::is_space(c);
 				}
 			)
 		)
@@ -742,7 +759,7 @@ std::basic_string_view<element_type> trim_back(std::basic_string_view<element_ty
 				s.rbegin(),
 				s.rend(),
 				[](auto c) {
-					return !std::isspace(c, std::locale::classic());
+					return !utki::string_internal::is_space(c);
 				}
 			).base()
 		)
-- 
2.43.0


From b198e8b0229718f3e1a5e25aa7928090cd975853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:45 +0000
Subject: [PATCH 27/28] fix: assertion failure message is lost when source
 location has no file name

---
 src/utki/debug.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utki/debug.cpp b/src/utki/debug.cpp
index 6c2bd78..c99f2c9 100644
--- a/src/utki/debug.cpp
+++ b/src/utki/debug.cpp
@@ -65,7 +65,11 @@ void utki::assert_always(
 	}
 
 	std::stringstream ss;
-	ss << source_location.file_name() << ":" << source_location.line() << ": ";
+	// the file name can be null, streaming a null pointer puts the stream to error state and the message is lost
+	if (source_location.file_name()) {
+		ss << source_location.file_name();
+	}
+	ss << ":" << source_location.line() << ": ";
 
 	if (is_terminal_cerr()) {
 #if CFG_COMPILER == CFG_COMPILER_MSVC && CFG_COMPILER_MSVC_TOOLS_V <= 141
-- 
2.43.0


From 45b132623958d3a1098acbd6a2adb30779563bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:45 +0000
Subject: [PATCH 28/28] fix: line number in assertion failure message depends
 on global locale

---
 src/utki/debug.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utki/debug.cpp b/src/utki/debug.cpp
index c99f2c9..ae1e5dd 100644
--- a/src/utki/debug.cpp
+++ b/src/utki/debug.cpp
@@ -69,7 +69,7 @@ void utki::assert_always(
 	if (source_location.file_name()) {
 		ss << source_location.file_name();
 	}
-	ss << ":" << source_location.line() << ": ";
+	ss << ":" << std::to_string(source_location.line()) << ": "; // does not depend on global locale
 
 	if (is_terminal_cerr()) {
 #if CFG_COMPILER == CFG_COMPILER_MSVC && CFG_COMPILER_MSVC_TOOLS_V <= 141
-- 
2.43.0


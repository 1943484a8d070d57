From 27ace96ef9c142344cdca0ce02f727015f397c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 01/49] fix: \B asserts the absence of a word boundary

---
 include/ctre/actions/boundaries.inc.hpp |  2 +-
 include/ctre/first.hpp                  |  6 ++++++
 include/ctre/starts_with_anchor.hpp     |  6 ++++++
 single-header/ctre-unicode.hpp          | 14 +++++++++++++-
 single-header/ctre.hpp                  | 14 +++++++++++++-
 5 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/include/ctre/actions/boundaries.inc.hpp b/include/ctre/actions/boundaries.inc.hpp
index 097bc9d..aa84780 100644
--- a/include/ctre/actions/boundaries.inc.hpp
+++ b/include/ctre/actions/boundaries.inc.hpp
@@ -8,7 +8,7 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 
 // push_not_word_boundary
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_not_word_boundary, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(boundary<negative_set<word_chars>>(), subject.stack), subject.parameters};
+	return pcre_context{ctll::push_front(not_boundary<word_chars>(), subject.stack), subject.parameters};
 }
 
 #endif
diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index bc54b76..fea9163 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -51,6 +51,12 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<boundary<CharLike>, Ta
 	return first(l, ctll::list<Tail...>{});
 }
 
+// not boundary
+template <typename... Content, typename CharLike, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
+	return first(l, ctll::list<Tail...>{});
+}
+
 // asserts
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin, Tail...>) noexcept {
diff --git a/include/ctre/starts_with_anchor.hpp b/include/ctre/starts_with_anchor.hpp
index 62c28b9..72c3dc9 100644
--- a/include/ctre/starts_with_anchor.hpp
+++ b/include/ctre/starts_with_anchor.hpp
@@ -28,6 +28,12 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<boundary<CharLike>
 	return starts_with_anchor(f, ctll::list<Content...>{});
 }
 
+template <typename CharLike, typename... Content> 
+constexpr bool starts_with_anchor(const flags & f, ctll::list<not_boundary<CharLike>, Content...>) noexcept {
+	// check if all options starts with anchor or if they are empty, there is an anchor behind them
+	return starts_with_anchor(f, ctll::list<Content...>{});
+}
+
 template <typename... Options, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<select<Options...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index eea7cc1..c4d3c61 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -2270,7 +2270,7 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 
 // push_not_word_boundary
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_not_word_boundary, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(boundary<negative_set<word_chars>>(), subject.stack), subject.parameters};
+	return pcre_context{ctll::push_front(not_boundary<word_chars>(), subject.stack), subject.parameters};
 }
 
 #endif
@@ -3031,6 +3031,12 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<boundary<CharLike>
 	return starts_with_anchor(f, ctll::list<Content...>{});
 }
 
+template <typename CharLike, typename... Content> 
+constexpr bool starts_with_anchor(const flags & f, ctll::list<not_boundary<CharLike>, Content...>) noexcept {
+	// check if all options starts with anchor or if they are empty, there is an anchor behind them
+	return starts_with_anchor(f, ctll::list<Content...>{});
+}
+
 template <typename... Options, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<select<Options...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
@@ -4067,6 +4073,12 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<boundary<CharLike>, Ta
 	return first(l, ctll::list<Tail...>{});
 }
 
+// not boundary
+template <typename... Content, typename CharLike, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
+	return first(l, ctll::list<Tail...>{});
+}
+
 // asserts
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin, Tail...>) noexcept {
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 99f590b..1d875bc 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -2267,7 +2267,7 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 
 // push_not_word_boundary
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_not_word_boundary, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(boundary<negative_set<word_chars>>(), subject.stack), subject.parameters};
+	return pcre_context{ctll::push_front(not_boundary<word_chars>(), subject.stack), subject.parameters};
 }
 
 #endif
@@ -3028,6 +3028,12 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<boundary<CharLike>
 	return starts_with_anchor(f, ctll::list<Content...>{});
 }
 
+template <typename CharLike, typename... Content> 
+constexpr bool starts_with_anchor(const flags & f, ctll::list<not_boundary<CharLike>, Content...>) noexcept {
+	// check if all options starts with anchor or if they are empty, there is an anchor behind them
+	return starts_with_anchor(f, ctll::list<Content...>{});
+}
+
 template <typename... Options, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<select<Options...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
@@ -4064,6 +4070,12 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<boundary<CharLike>, Ta
 	return first(l, ctll::list<Tail...>{});
 }
 
+// not boundary
+template <typename... Content, typename CharLike, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
+	return first(l, ctll::list<Tail...>{});
+}
+
 // asserts
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin, Tail...>) noexcept {
-- 
2.43.0


From c567c53276f332e77d507b5e698399ab3263481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 02/49] fix: \e matches the ESC character (0x1B)

---
 include/ctre/actions/characters.inc.hpp | 2 +-
 single-header/ctre-unicode.hpp          | 2 +-
 single-header/ctre.hpp                  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ctre/actions/characters.inc.hpp b/include/ctre/actions/characters.inc.hpp
index 4aa7ffd..9835837 100644
--- a/include/ctre/actions/characters.inc.hpp
+++ b/include/ctre/actions/characters.inc.hpp
@@ -15,7 +15,7 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 }
 // character_escape
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_character_escape, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(character<'\x14'>(), subject.stack), subject.parameters};
+	return pcre_context{ctll::push_front(character<'\x1B'>(), subject.stack), subject.parameters};
 }
 // character_formfeed
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_character_formfeed, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index c4d3c61..c378aef 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -2332,7 +2332,7 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 }
 // character_escape
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_character_escape, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(character<'\x14'>(), subject.stack), subject.parameters};
+	return pcre_context{ctll::push_front(character<'\x1B'>(), subject.stack), subject.parameters};
 }
 // character_formfeed
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_character_formfeed, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 1d875bc..6232ec3 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -2329,7 +2329,7 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 }
 // character_escape
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_character_escape, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(character<'\x14'>(), subject.stack), subject.parameters};
+	return pcre_context{ctll::push_front(character<'\x1B'>(), subject.stack), subject.parameters};
 }
 // character_formfeed
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_character_formfeed, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-- 
2.43.0


From 5e1858a5a85813ef7ae22c6ed643ff54c2003315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 03/49] fix: captures inside an atomic group are part of the
 result

---
 include/ctre/find_captures.hpp | 5 +++++
 single-header/ctre-unicode.hpp | 4 ++++
 single-header/ctre.hpp         | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/include/ctre/find_captures.hpp b/include/ctre/find_captures.hpp
index 43a8f77..932d731 100644
--- a/include/ctre/find_captures.hpp
+++ b/include/ctre/find_captures.hpp
@@ -111,6 +111,11 @@ CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> co
 
 
 
+CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> constexpr auto find_captures(ctll::list<atomic_group<Content...>, Tail...>, Output output) noexcept {
+	return find_captures(ctll::list<Content..., Tail...>(), output);
+}
+
+
 CTRE_EXPORT template <size_t Id, typename... Content, typename... Tail, typename... Output> constexpr auto find_captures(ctll::list<capture<Id,Content...>, Tail...>, ctll::list<Output...>) noexcept {
 	return find_captures(ctll::list<Content..., Tail...>(), ctll::list<Output..., captured_content<Id>>());
 }
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index c378aef..56b283a 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -4011,6 +4011,10 @@ CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> co
 	return find_captures(ctll::list<Content..., Tail...>(), output);
 }
 
+CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> constexpr auto find_captures(ctll::list<atomic_group<Content...>, Tail...>, Output output) noexcept {
+	return find_captures(ctll::list<Content..., Tail...>(), output);
+}
+
 CTRE_EXPORT template <size_t Id, typename... Content, typename... Tail, typename... Output> constexpr auto find_captures(ctll::list<capture<Id,Content...>, Tail...>, ctll::list<Output...>) noexcept {
 	return find_captures(ctll::list<Content..., Tail...>(), ctll::list<Output..., captured_content<Id>>());
 }
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 6232ec3..b07fe3c 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -4008,6 +4008,10 @@ CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> co
 	return find_captures(ctll::list<Content..., Tail...>(), output);
 }
 
+CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> constexpr auto find_captures(ctll::list<atomic_group<Content...>, Tail...>, Output output) noexcept {
+	return find_captures(ctll::list<Content..., Tail...>(), output);
+}
+
 CTRE_EXPORT template <size_t Id, typename... Content, typename... Tail, typename... Output> constexpr auto find_captures(ctll::list<capture<Id,Content...>, Tail...>, ctll::list<Output...>) noexcept {
 	return find_captures(ctll::list<Content..., Tail...>(), ctll::list<Output..., captured_content<Id>>());
 }
-- 
2.43.0


From b06b671a9805e8fb8e78495233cba2b7612f295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 04/49] fix: an atomic group may match the empty string

---
 include/ctre/evaluation.hpp    | 9 +++++++--
 single-header/ctre-unicode.hpp | 9 +++++++--
 single-header/ctre.hpp         | 9 +++++++--
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 7e9f0e4..12eb7ca 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -549,10 +549,15 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 
 template <typename...> constexpr auto dependent_false = false;
 
-// atomic_group<...> is just transformation to possessive_repeat<1,1,...>
+// atomic_group<...> takes only the first way its content can match (which may be empty)
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename... Content, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<atomic_group<Content...>, Tail...>) noexcept {
-	return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<1,1,Content...>, Tail...>{});
+	if (auto inner_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Content..., end_cycle_mark>())) {
+		const Iterator inner_end = inner_result.get_end_position();
+		return evaluate(begin, inner_end, last, consumed_something(f, inner_end != current), inner_result.unmatch(), ctll::list<Tail...>());
+	} else {
+		return not_matched;
+	}
 }
 
 // switching modes
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 56b283a..e7ae8fb 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -5116,10 +5116,15 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 
 template <typename...> constexpr auto dependent_false = false;
 
-// atomic_group<...> is just transformation to possessive_repeat<1,1,...>
+// atomic_group<...> takes only the first way its content can match (which may be empty)
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename... Content, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<atomic_group<Content...>, Tail...>) noexcept {
-	return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<1,1,Content...>, Tail...>{});
+	if (auto inner_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Content..., end_cycle_mark>())) {
+		const Iterator inner_end = inner_result.get_end_position();
+		return evaluate(begin, inner_end, last, consumed_something(f, inner_end != current), inner_result.unmatch(), ctll::list<Tail...>());
+	} else {
+		return not_matched;
+	}
 }
 
 // switching modes
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index b07fe3c..f6d0ae3 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -5113,10 +5113,15 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 
 template <typename...> constexpr auto dependent_false = false;
 
-// atomic_group<...> is just transformation to possessive_repeat<1,1,...>
+// atomic_group<...> takes only the first way its content can match (which may be empty)
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename... Content, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<atomic_group<Content...>, Tail...>) noexcept {
-	return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<1,1,Content...>, Tail...>{});
+	if (auto inner_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Content..., end_cycle_mark>())) {
+		const Iterator inner_end = inner_result.get_end_position();
+		return evaluate(begin, inner_end, last, consumed_something(f, inner_end != current), inner_result.unmatch(), ctll::list<Tail...>());
+	} else {
+		return not_matched;
+	}
 }
 
 // switching modes
-- 
2.43.0


From eece8a679c0eb2bdec97c9ef1f1b58b395566685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 05/49] fix: repetitions inside a lookbehind compile

---
 include/ctre/evaluation.hpp    |  9 ++++++---
 include/ctre/first.hpp         |  5 +++++
 single-header/ctre-unicode.hpp | 14 +++++++++++---
 single-header/ctre.hpp         | 14 +++++++++++---
 4 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 12eb7ca..00a28bb 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -523,12 +523,14 @@ constexpr bool is_at_least_bidirectional(std::bidirectional_iterator_tag) {
 	return true;
 }
 
+template <typename Iterator, typename... Content> using lookbehind_return_type = return_type<std::reverse_iterator<Iterator>, sequence<Content...>>;
+
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename... Content, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<lookbehind_positive<Content...>, Tail...>) noexcept {
 	static_assert(is_at_least_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{}), "to use lookbehind you must provide bi-directional iterator");
 	
-	if (auto lookbehind_result = evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, captures, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
-		captures = lookbehind_result.unmatch();
+	// subject is walked backward, so the result needs to be able to store reverse iterators
+	if (evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, lookbehind_return_type<Iterator, Content...>{}, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
 		return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	} else {
 		return not_matched;
@@ -540,7 +542,8 @@ template <typename R, typename BeginIterator, typename Iterator, typename EndIte
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<lookbehind_negative<Content...>, Tail...>) noexcept {
 	static_assert(is_at_least_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{}), "to use negative lookbehind you must provide bi-directional iterator");
 	
-	if (auto lookbehind_result = evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, captures, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
+	// subject is walked backward, so the result needs to be able to store reverse iterators
+	if (evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, lookbehind_return_type<Iterator, Content...>{}, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
 		return not_matched;
 	} else {
 		return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index fea9163..4df4e58 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -34,6 +34,11 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<end_lookahead_mark, Ta
 	return l;
 }
 
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<end_lookbehind_mark, Tail...>) noexcept {
+	return l;
+}
+
 template <typename... Content, size_t Id, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<numeric_mark<Id>, Tail...>) noexcept {
 	return first(l, ctll::list<Tail...>{});
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index e7ae8fb..c3d684d 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -4060,6 +4060,11 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<end_lookahead_mark, Ta
 	return l;
 }
 
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<end_lookbehind_mark, Tail...>) noexcept {
+	return l;
+}
+
 template <typename... Content, size_t Id, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<numeric_mark<Id>, Tail...>) noexcept {
 	return first(l, ctll::list<Tail...>{});
@@ -5090,12 +5095,14 @@ constexpr bool is_at_least_bidirectional(std::bidirectional_iterator_tag) {
 	return true;
 }
 
+template <typename Iterator, typename... Content> using lookbehind_return_type = return_type<std::reverse_iterator<Iterator>, sequence<Content...>>;
+
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename... Content, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<lookbehind_positive<Content...>, Tail...>) noexcept {
 	static_assert(is_at_least_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{}), "to use lookbehind you must provide bi-directional iterator");
 	
-	if (auto lookbehind_result = evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, captures, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
-		captures = lookbehind_result.unmatch();
+	// subject is walked backward, so the result needs to be able to store reverse iterators
+	if (evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, lookbehind_return_type<Iterator, Content...>{}, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
 		return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	} else {
 		return not_matched;
@@ -5107,7 +5114,8 @@ template <typename R, typename BeginIterator, typename Iterator, typename EndIte
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<lookbehind_negative<Content...>, Tail...>) noexcept {
 	static_assert(is_at_least_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{}), "to use negative lookbehind you must provide bi-directional iterator");
 	
-	if (auto lookbehind_result = evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, captures, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
+	// subject is walked backward, so the result needs to be able to store reverse iterators
+	if (evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, lookbehind_return_type<Iterator, Content...>{}, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
 		return not_matched;
 	} else {
 		return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index f6d0ae3..9d4a772 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -4057,6 +4057,11 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<end_lookahead_mark, Ta
 	return l;
 }
 
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<end_lookbehind_mark, Tail...>) noexcept {
+	return l;
+}
+
 template <typename... Content, size_t Id, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<numeric_mark<Id>, Tail...>) noexcept {
 	return first(l, ctll::list<Tail...>{});
@@ -5087,12 +5092,14 @@ constexpr bool is_at_least_bidirectional(std::bidirectional_iterator_tag) {
 	return true;
 }
 
+template <typename Iterator, typename... Content> using lookbehind_return_type = return_type<std::reverse_iterator<Iterator>, sequence<Content...>>;
+
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename... Content, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<lookbehind_positive<Content...>, Tail...>) noexcept {
 	static_assert(is_at_least_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{}), "to use lookbehind you must provide bi-directional iterator");
 	
-	if (auto lookbehind_result = evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, captures, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
-		captures = lookbehind_result.unmatch();
+	// subject is walked backward, so the result needs to be able to store reverse iterators
+	if (evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, lookbehind_return_type<Iterator, Content...>{}, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
 		return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	} else {
 		return not_matched;
@@ -5104,7 +5111,8 @@ template <typename R, typename BeginIterator, typename Iterator, typename EndIte
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<lookbehind_negative<Content...>, Tail...>) noexcept {
 	static_assert(is_at_least_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{}), "to use negative lookbehind you must provide bi-directional iterator");
 	
-	if (auto lookbehind_result = evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, captures, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
+	// subject is walked backward, so the result needs to be able to store reverse iterators
+	if (evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, lookbehind_return_type<Iterator, Content...>{}, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
 		return not_matched;
 	} else {
 		return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
-- 
2.43.0


From a213213daff67627fa23c1e2406c1bb49a628f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 06/49] fix: anchors and lookarounds nested in a lookbehind
 look in the right direction

---
 include/ctre/rotate.hpp        | 21 +++++++++++----------
 single-header/ctre-unicode.hpp | 21 +++++++++++----------
 single-header/ctre.hpp         | 21 +++++++++++----------
 3 files changed, 33 insertions(+), 30 deletions(-)

diff --git a/include/ctre/rotate.hpp b/include/ctre/rotate.hpp
index f232883..91820f3 100644
--- a/include/ctre/rotate.hpp
+++ b/include/ctre/rotate.hpp
@@ -75,11 +75,11 @@ template <typename... Content> static auto rotate(sequence<Content...>) {
 	return ctre::convert_to_basic_list<sequence>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
 }
 
-// we don't rotate lookaheads
-template <typename... Content> static auto rotate(lookahead_positive<Content...>) -> lookahead_positive<Content...>;
-template <typename... Content> static auto rotate(lookahead_negative<Content...>) -> lookahead_negative<Content...>;
-template <typename... Content> static auto rotate(lookbehind_positive<Content...>) -> lookbehind_positive<Content...>;
-template <typename... Content> static auto rotate(lookbehind_negative<Content...>) -> lookbehind_negative<Content...>;
+// we don't rotate content of nested lookarounds, but as the subject is walked backward there, the direction is opposite
+template <typename... Content> static auto rotate(lookahead_positive<Content...>) -> lookbehind_positive<Content...>;
+template <typename... Content> static auto rotate(lookahead_negative<Content...>) -> lookbehind_negative<Content...>;
+template <typename... Content> static auto rotate(lookbehind_positive<Content...>) -> lookahead_positive<Content...>;
+template <typename... Content> static auto rotate(lookbehind_negative<Content...>) -> lookahead_negative<Content...>;
 
 static auto rotate(atomic_start) -> atomic_start;
 
@@ -90,11 +90,12 @@ template <typename... Content> static auto rotate(atomic_group<Content...>) {
 template <typename... Content> static auto rotate(boundary<Content...>) -> boundary<Content...>;
 template <typename... Content> static auto rotate(not_boundary<Content...>) -> not_boundary<Content...>;
 
-static auto rotate(assert_subject_begin) -> assert_subject_begin;
-static auto rotate(assert_subject_end) -> assert_subject_end;
-static auto rotate(assert_subject_end_line) -> assert_subject_end_line;
-static auto rotate(assert_line_begin) -> assert_line_begin;
-static auto rotate(assert_line_end) -> assert_line_end;
+// subject is walked backward, so begin and end are swapped
+static auto rotate(assert_subject_begin) -> assert_subject_end;
+static auto rotate(assert_subject_end) -> assert_subject_begin;
+static auto rotate(assert_subject_end_line) -> lookbehind_positive<assert_subject_end_line>;
+static auto rotate(assert_line_begin) -> assert_line_end;
+static auto rotate(assert_line_end) -> assert_line_begin;
 
 };
 
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index c3d684d..ea2ffc5 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -2096,11 +2096,11 @@ template <typename... Content> static auto rotate(sequence<Content...>) {
 	return ctre::convert_to_basic_list<sequence>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
 }
 
-// we don't rotate lookaheads
-template <typename... Content> static auto rotate(lookahead_positive<Content...>) -> lookahead_positive<Content...>;
-template <typename... Content> static auto rotate(lookahead_negative<Content...>) -> lookahead_negative<Content...>;
-template <typename... Content> static auto rotate(lookbehind_positive<Content...>) -> lookbehind_positive<Content...>;
-template <typename... Content> static auto rotate(lookbehind_negative<Content...>) -> lookbehind_negative<Content...>;
+// we don't rotate content of nested lookarounds, but as the subject is walked backward there, the direction is opposite
+template <typename... Content> static auto rotate(lookahead_positive<Content...>) -> lookbehind_positive<Content...>;
+template <typename... Content> static auto rotate(lookahead_negative<Content...>) -> lookbehind_negative<Content...>;
+template <typename... Content> static auto rotate(lookbehind_positive<Content...>) -> lookahead_positive<Content...>;
+template <typename... Content> static auto rotate(lookbehind_negative<Content...>) -> lookahead_negative<Content...>;
 
 static auto rotate(atomic_start) -> atomic_start;
 
@@ -2111,11 +2111,12 @@ template <typename... Content> static auto rotate(atomic_group<Content...>) {
 template <typename... Content> static auto rotate(boundary<Content...>) -> boundary<Content...>;
 template <typename... Content> static auto rotate(not_boundary<Content...>) -> not_boundary<Content...>;
 
-static auto rotate(assert_subject_begin) -> assert_subject_begin;
-static auto rotate(assert_subject_end) -> assert_subject_end;
-static auto rotate(assert_subject_end_line) -> assert_subject_end_line;
-static auto rotate(assert_line_begin) -> assert_line_begin;
-static auto rotate(assert_line_end) -> assert_line_end;
+// subject is walked backward, so begin and end are swapped
+static auto rotate(assert_subject_begin) -> assert_subject_end;
+static auto rotate(assert_subject_end) -> assert_subject_begin;
+static auto rotate(assert_subject_end_line) -> lookbehind_positive<assert_subject_end_line>;
+static auto rotate(assert_line_begin) -> assert_line_end;
+static auto rotate(assert_line_end) -> assert_line_begin;
 
 };
 
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 9d4a772..36407f7 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -2093,11 +2093,11 @@ template <typename... Content> static auto rotate(sequence<Content...>) {
 	return ctre::convert_to_basic_list<sequence>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
 }
 
-// we don't rotate lookaheads
-template <typename... Content> static auto rotate(lookahead_positive<Content...>) -> lookahead_positive<Content...>;
-template <typename... Content> static auto rotate(lookahead_negative<Content...>) -> lookahead_negative<Content...>;
-template <typename... Content> static auto rotate(lookbehind_positive<Content...>) -> lookbehind_positive<Content...>;
-template <typename... Content> static auto rotate(lookbehind_negative<Content...>) -> lookbehind_negative<Content...>;
+// we don't rotate content of nested lookarounds, but as the subject is walked backward there, the direction is opposite
+template <typename... Content> static auto rotate(lookahead_positive<Content...>) -> lookbehind_positive<Content...>;
+template <typename... Content> static auto rotate(lookahead_negative<Content...>) -> lookbehind_negative<Content...>;
+template <typename... Content> static auto rotate(lookbehind_positive<Content...>) -> lookahead_positive<Content...>;
+template <typename... Content> static auto rotate(lookbehind_negative<Content...>) -> lookahead_negative<Content...>;
 
 static auto rotate(atomic_start) -> atomic_start;
 
@@ -2108,11 +2108,12 @@ template <typename... Content> static auto rotate(atomic_group<Content...>) {
 template <typename... Content> static auto rotate(boundary<Content...>) -> boundary<Content...>;
 template <typename... Content> static auto rotate(not_boundary<Content...>) -> not_boundary<Content...>;
 
-static auto rotate(assert_subject_begin) -> assert_subject_begin;
-static auto rotate(assert_subject_end) -> assert_subject_end;
-static auto rotate(assert_subject_end_line) -> assert_subject_end_line;
-static auto rotate(assert_line_begin) -> assert_line_begin;
-static auto rotate(assert_line_end) -> assert_line_end;
+// subject is walked backward, so begin and end are swapped
+static auto rotate(assert_subject_begin) -> assert_subject_end;
+static auto rotate(assert_subject_end) -> assert_subject_begin;
+static auto rotate(assert_subject_end_line) -> lookbehind_positive<assert_subject_end_line>;
+static auto rotate(assert_line_begin) -> assert_line_end;
+static auto rotate(assert_line_end) -> assert_line_begin;
 
 };
 
-- 
2.43.0


From 076aea25e5fbc3b9bbd4433f1762e996f753d19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 07/49] fix: the greedy optimisation takes the case insensitive
 and multiline modes into account

---
 include/ctre/evaluation.hpp    | 10 ++++++-
 include/ctre/first.hpp         | 46 +++++++++++++++++++++-------
 single-header/ctre-unicode.hpp | 55 ++++++++++++++++++++++++++--------
 single-header/ctre.hpp         | 55 ++++++++++++++++++++++++++--------
 4 files changed, 130 insertions(+), 36 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 00a28bb..0a209a8 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -389,11 +389,19 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	}
 
 #ifndef CTRE_DISABLE_GREEDY_OPT
-	else if constexpr (!collides(calculate_first(Content{}...), calculate_first(Tail{}...))) {
+	else if constexpr (!collides<true>(calculate_first(Content{}...), calculate_first(Tail{}...))) {
 		return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<A,B,Content...>, Tail...>());
 	}
 #endif
 	else {
+#ifndef CTRE_DISABLE_GREEDY_OPT
+		// only the multiline or the case insensitive mode can make these collide
+		if constexpr (!collides<false>(calculate_first(Content{}...), calculate_first(Tail{}...))) {
+			if (!multiline_mode(f) && !is_case_insensitive(f)) {
+				return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<A,B,Content...>, Tail...>());
+			}
+		}
+#endif
 		// A..B
 		size_t i{0};
 		while (less_than<A>(i)) {
diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index 4df4e58..f5f856c 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -7,7 +7,10 @@
 namespace ctre {
 	
 struct can_be_anything {};
-	
+
+// end of line can be followed only by a newline (in the multiline mode) or by nothing
+struct newline_in_multiline {};
+
 
 template <typename... Content> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<>) noexcept {
@@ -74,9 +77,8 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end, Ta
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end_line, Tail...>) noexcept {
-	// FIXME allow endline here
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_end_line, Tail...>) noexcept {
+	return ctll::list<Content..., newline_in_multiline>{};
 }
 
 template <typename... Content, typename... Tail> 
@@ -86,9 +88,14 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_begin, Tai
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_end, Tail...>) noexcept {
-	// FIXME line end is a bit different than subject begin
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_line_end, Tail...>) noexcept {
+	return ctll::list<Content..., newline_in_multiline>{};
+}
+
+// mode switch
+template <typename... Content, typename Mode, typename... Tail> 
+constexpr auto first(ctll::list<Content...>, ctll::list<mode_switch<Mode>, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
 }
 
 // sequence
@@ -399,7 +406,8 @@ template <typename CB> constexpr void negative_helper(ctre::negative_set<>, CB &
 
 // simple fixed set
 // TODO: this needs some optimizations
-template <size_t Capacity> class point_set {
+// with AnyMode it considers also characters matched only in the multiline or in the case insensitive mode
+template <size_t Capacity, bool AnyMode> class point_set {
 	struct point {
 		int64_t low{};
 		int64_t high{};
@@ -409,7 +417,8 @@ template <size_t Capacity> class point_set {
 		constexpr point() { }
 		constexpr point(int64_t l, int64_t h): low{l}, high{h} { }
 	};
-	point points[Capacity+1]{};
+	// letters can be there in both cases
+	point points[(AnyMode ? 3 * Capacity : Capacity) + 1]{};
 	size_t used{0};
 	constexpr point * begin() {
 		return points;
@@ -472,6 +481,15 @@ public:
 	constexpr void insert(int64_t low, int64_t high) {
 		insert_point(low, high);
 		//insert_point(high, low);
+		if constexpr (AnyMode) {
+			insert_other_case(low, high, 'A', 'Z', 'a' - 'A');
+			insert_other_case(low, high, 'a', 'z', 'A' - 'a');
+		}
+	}
+	constexpr void insert_other_case(int64_t low, int64_t high, int64_t first_letter, int64_t last_letter, int64_t shift) {
+		if (low < first_letter) low = first_letter;
+		if (high > last_letter) high = last_letter;
+		if (low <= high) insert_point(low + shift, high + shift);
 	}
 	constexpr bool check(int64_t low, int64_t high) {
 		for (const auto & r: *this) {
@@ -498,6 +516,9 @@ public:
 	constexpr bool check(can_be_anything) {
 		return used > 0;
 	}
+	constexpr bool check(newline_in_multiline) {
+		return AnyMode && check('\n', '\n');
+	}
 	template <typename PropertyType, PropertyType Property> 
 	constexpr bool check(ctre::binary_property<PropertyType, Property>) {
 		return check(can_be_anything{});
@@ -532,6 +553,9 @@ public:
 	template <auto A, auto B> constexpr void populate(ctre::char_range<A,B>) {
 		insert(A,B);
 	}
+	constexpr void populate(newline_in_multiline) {
+		if (AnyMode) insert('\n', '\n');
+	}
 	constexpr void populate(...) {
 		points[0].low = (std::numeric_limits<int64_t>::min)();
 		points[0].high = (std::numeric_limits<int64_t>::max)();
@@ -550,10 +574,10 @@ public:
 	}
 };
 
-template <typename... A, typename... B> constexpr bool collides(ctll::list<A...> rhs, ctll::list<B...> lhs) {
+template <bool AnyMode, typename... A, typename... B> constexpr bool collides(ctll::list<A...> rhs, ctll::list<B...> lhs) {
 	constexpr size_t capacity = calculate_size_of_first(rhs);
 	
-	point_set<capacity> set;
+	point_set<capacity, AnyMode> set;
 	set.populate(rhs);
 	
 	return set.check(lhs);
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index ea2ffc5..b697457 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -4034,7 +4034,9 @@ CTRE_EXPORT template <size_t Id, typename Name, typename... Content, typename...
 namespace ctre {
 	
 struct can_be_anything {};
-	
+
+// end of line can be followed only by a newline (in the multiline mode) or by nothing
+struct newline_in_multiline {};
 
 template <typename... Content> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<>) noexcept {
@@ -4101,9 +4103,8 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end, Ta
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end_line, Tail...>) noexcept {
-	// FIXME allow endline here
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_end_line, Tail...>) noexcept {
+	return ctll::list<Content..., newline_in_multiline>{};
 }
 
 template <typename... Content, typename... Tail> 
@@ -4113,9 +4114,14 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_begin, Tai
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_end, Tail...>) noexcept {
-	// FIXME line end is a bit different than subject begin
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_line_end, Tail...>) noexcept {
+	return ctll::list<Content..., newline_in_multiline>{};
+}
+
+// mode switch
+template <typename... Content, typename Mode, typename... Tail> 
+constexpr auto first(ctll::list<Content...>, ctll::list<mode_switch<Mode>, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
 }
 
 // sequence
@@ -4420,7 +4426,8 @@ template <typename CB> constexpr void negative_helper(ctre::negative_set<>, CB &
 
 // simple fixed set
 // TODO: this needs some optimizations
-template <size_t Capacity> class point_set {
+// with AnyMode it considers also characters matched only in the multiline or in the case insensitive mode
+template <size_t Capacity, bool AnyMode> class point_set {
 	struct point {
 		int64_t low{};
 		int64_t high{};
@@ -4430,7 +4437,8 @@ template <size_t Capacity> class point_set {
 		constexpr point() { }
 		constexpr point(int64_t l, int64_t h): low{l}, high{h} { }
 	};
-	point points[Capacity+1]{};
+	// letters can be there in both cases
+	point points[(AnyMode ? 3 * Capacity : Capacity) + 1]{};
 	size_t used{0};
 	constexpr point * begin() {
 		return points;
@@ -4493,6 +4501,15 @@ public:
 	constexpr void insert(int64_t low, int64_t high) {
 		insert_point(low, high);
 		//insert_point(high, low);
+		if constexpr (AnyMode) {
+			insert_other_case(low, high, 'A', 'Z', 'a' - 'A');
+			insert_other_case(low, high, 'a', 'z', 'A' - 'a');
+		}
+	}
+	constexpr void insert_other_case(int64_t low, int64_t high, int64_t first_letter, int64_t last_letter, int64_t shift) {
+		if (low < first_letter) low = first_letter;
+		if (high > last_letter) high = last_letter;
+		if (low <= high) insert_point(low + shift, high + shift);
 	}
 	constexpr bool check(int64_t low, int64_t high) {
 		for (const auto & r: *this) {
@@ -4519,6 +4536,9 @@ public:
 	constexpr bool check(can_be_anything) {
 		return used > 0;
 	}
+	constexpr bool check(newline_in_multiline) {
+		return AnyMode && check('\n', '\n');
+	}
 	template <typename PropertyType, PropertyType Property> 
 	constexpr bool check(ctre::binary_property<PropertyType, Property>) {
 		return check(can_be_anything{});
@@ -4553,6 +4573,9 @@ public:
 	template <auto A, auto B> constexpr void populate(ctre::char_range<A,B>) {
 		insert(A,B);
 	}
+	constexpr void populate(newline_in_multiline) {
+		if (AnyMode) insert('\n', '\n');
+	}
 	constexpr void populate(...) {
 		points[0].low = (std::numeric_limits<int64_t>::min)();
 		points[0].high = (std::numeric_limits<int64_t>::max)();
@@ -4571,10 +4594,10 @@ public:
 	}
 };
 
-template <typename... A, typename... B> constexpr bool collides(ctll::list<A...> rhs, ctll::list<B...> lhs) {
+template <bool AnyMode, typename... A, typename... B> constexpr bool collides(ctll::list<A...> rhs, ctll::list<B...> lhs) {
 	constexpr size_t capacity = calculate_size_of_first(rhs);
 	
-	point_set<capacity> set;
+	point_set<capacity, AnyMode> set;
 	set.populate(rhs);
 	
 	return set.check(lhs);
@@ -4962,11 +4985,19 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	}
 
 #ifndef CTRE_DISABLE_GREEDY_OPT
-	else if constexpr (!collides(calculate_first(Content{}...), calculate_first(Tail{}...))) {
+	else if constexpr (!collides<true>(calculate_first(Content{}...), calculate_first(Tail{}...))) {
 		return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<A,B,Content...>, Tail...>());
 	}
 #endif
 	else {
+#ifndef CTRE_DISABLE_GREEDY_OPT
+		// only the multiline or the case insensitive mode can make these collide
+		if constexpr (!collides<false>(calculate_first(Content{}...), calculate_first(Tail{}...))) {
+			if (!multiline_mode(f) && !is_case_insensitive(f)) {
+				return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<A,B,Content...>, Tail...>());
+			}
+		}
+#endif
 		// A..B
 		size_t i{0};
 		while (less_than<A>(i)) {
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 36407f7..1a93d3d 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -4031,7 +4031,9 @@ CTRE_EXPORT template <size_t Id, typename Name, typename... Content, typename...
 namespace ctre {
 	
 struct can_be_anything {};
-	
+
+// end of line can be followed only by a newline (in the multiline mode) or by nothing
+struct newline_in_multiline {};
 
 template <typename... Content> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<>) noexcept {
@@ -4098,9 +4100,8 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end, Ta
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end_line, Tail...>) noexcept {
-	// FIXME allow endline here
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_end_line, Tail...>) noexcept {
+	return ctll::list<Content..., newline_in_multiline>{};
 }
 
 template <typename... Content, typename... Tail> 
@@ -4110,9 +4111,14 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_begin, Tai
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_end, Tail...>) noexcept {
-	// FIXME line end is a bit different than subject begin
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_line_end, Tail...>) noexcept {
+	return ctll::list<Content..., newline_in_multiline>{};
+}
+
+// mode switch
+template <typename... Content, typename Mode, typename... Tail> 
+constexpr auto first(ctll::list<Content...>, ctll::list<mode_switch<Mode>, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
 }
 
 // sequence
@@ -4417,7 +4423,8 @@ template <typename CB> constexpr void negative_helper(ctre::negative_set<>, CB &
 
 // simple fixed set
 // TODO: this needs some optimizations
-template <size_t Capacity> class point_set {
+// with AnyMode it considers also characters matched only in the multiline or in the case insensitive mode
+template <size_t Capacity, bool AnyMode> class point_set {
 	struct point {
 		int64_t low{};
 		int64_t high{};
@@ -4427,7 +4434,8 @@ template <size_t Capacity> class point_set {
 		constexpr point() { }
 		constexpr point(int64_t l, int64_t h): low{l}, high{h} { }
 	};
-	point points[Capacity+1]{};
+	// letters can be there in both cases
+	point points[(AnyMode ? 3 * Capacity : Capacity) + 1]{};
 	size_t used{0};
 	constexpr point * begin() {
 		return points;
@@ -4490,6 +4498,15 @@ public:
 	constexpr void insert(int64_t low, int64_t high) {
 		insert_point(low, high);
 		//insert_point(high, low);
+		if constexpr (AnyMode) {
+			insert_other_case(low, high, 'A', 'Z', 'a' - 'A');
+			insert_other_case(low, high, 'a', 'z', 'A' - 'a');
+		}
+	}
+	constexpr void insert_other_case(int64_t low, int64_t high, int64_t first_letter, int64_t last_letter, int64_t shift) {
+		if (low < first_letter) low = first_letter;
+		if (high > last_letter) high = last_letter;
+		if (low <= high) insert_point(low + shift, high + shift);
 	}
 	constexpr bool check(int64_t low, int64_t high) {
 		for (const auto & r: *this) {
@@ -4516,6 +4533,9 @@ public:
 	constexpr bool check(can_be_anything) {
 		return used > 0;
 	}
+	constexpr bool check(newline_in_multiline) {
+		return AnyMode && check('\n', '\n');
+	}
 	template <typename PropertyType, PropertyType Property> 
 	constexpr bool check(ctre::binary_property<PropertyType, Property>) {
 		return check(can_be_anything{});
@@ -4550,6 +4570,9 @@ public:
 	template <auto A, auto B> constexpr void populate(ctre::char_range<A,B>) {
 		insert(A,B);
 	}
+	constexpr void populate(newline_in_multiline) {
+		if (AnyMode) insert('\n', '\n');
+	}
 	constexpr void populate(...) {
 		points[0].low = (std::numeric_limits<int64_t>::min)();
 		points[0].high = (std::numeric_limits<int64_t>::max)();
@@ -4568,10 +4591,10 @@ public:
 	}
 };
 
-template <typename... A, typename... B> constexpr bool collides(ctll::list<A...> rhs, ctll::list<B...> lhs) {
+template <bool AnyMode, typename... A, typename... B> constexpr bool collides(ctll::list<A...> rhs, ctll::list<B...> lhs) {
 	constexpr size_t capacity = calculate_size_of_first(rhs);
 	
-	point_set<capacity> set;
+	point_set<capacity, AnyMode> set;
 	set.populate(rhs);
 	
 	return set.check(lhs);
@@ -4959,11 +4982,19 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	}
 
 #ifndef CTRE_DISABLE_GREEDY_OPT
-	else if constexpr (!collides(calculate_first(Content{}...), calculate_first(Tail{}...))) {
+	else if constexpr (!collides<true>(calculate_first(Content{}...), calculate_first(Tail{}...))) {
 		return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<A,B,Content...>, Tail...>());
 	}
 #endif
 	else {
+#ifndef CTRE_DISABLE_GREEDY_OPT
+		// only the multiline or the case insensitive mode can make these collide
+		if constexpr (!collides<false>(calculate_first(Content{}...), calculate_first(Tail{}...))) {
+			if (!multiline_mode(f) && !is_case_insensitive(f)) {
+				return evaluate(begin, current, last, f, captures, ctll::list<possessive_repeat<A,B,Content...>, Tail...>());
+			}
+		}
+#endif
 		// A..B
 		size_t i{0};
 		while (less_than<A>(i)) {
-- 
2.43.0


From e92a21ed2e147207976b8d194d843657ec988403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 08/49] fix: a repetition which consumed nothing does not
 satisfy the enclosing iteration

---
 include/ctre/evaluation.hpp    | 15 ++++++++-------
 single-header/ctre-unicode.hpp | 15 ++++++++-------
 single-header/ctre.hpp         | 15 ++++++++-------
 3 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 0a209a8..4e42adf 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -310,7 +310,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		}
 	
 		// rest of regex
-		return evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+		return evaluate(begin, current, last, consumed_something(f, backup_current != current), captures, ctll::list<Tail...>());
 	}
 }
 
@@ -360,21 +360,21 @@ constexpr inline R evaluate_recursive(size_t i, const BeginIterator begin, Itera
 			auto tmp_current = current;
 			tmp_current = inner_result.get_end_position();
 			#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-			evaluate_recursive(result, i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack);
+			evaluate_recursive(result, i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack);
 			if (result) {
 				return;
 			}
 			#else
-			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack)) {
+			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack)) {
 				return rec_result;
 			}
 			#endif
 		}
 	}
 	#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-	result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	result = evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#else
-	return evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#endif
 }	
 
@@ -403,6 +403,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		}
 #endif
 		// A..B
+		const Iterator backup_current = current;
 		size_t i{0};
 		while (less_than<A>(i)) {
 			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
@@ -417,10 +418,10 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	
 #ifdef CTRE_MSVC_GREEDY_WORKAROUND
 		R result;
-		evaluate_recursive(result, i, begin, current, last, f, captures, stack);
+		evaluate_recursive(result, i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 		return result;
 #else
-		return evaluate_recursive(i, begin, current, last, f, captures, stack);
+		return evaluate_recursive(i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 #endif
 	}
 
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index b697457..1b16d81 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -4908,7 +4908,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		}
 	
 		// rest of regex
-		return evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+		return evaluate(begin, current, last, consumed_something(f, backup_current != current), captures, ctll::list<Tail...>());
 	}
 }
 
@@ -4958,21 +4958,21 @@ constexpr inline R evaluate_recursive(size_t i, const BeginIterator begin, Itera
 			auto tmp_current = current;
 			tmp_current = inner_result.get_end_position();
 			#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-			evaluate_recursive(result, i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack);
+			evaluate_recursive(result, i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack);
 			if (result) {
 				return;
 			}
 			#else
-			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack)) {
+			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack)) {
 				return rec_result;
 			}
 			#endif
 		}
 	}
 	#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-	result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	result = evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#else
-	return evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#endif
 }	
 
@@ -4999,6 +4999,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		}
 #endif
 		// A..B
+		const Iterator backup_current = current;
 		size_t i{0};
 		while (less_than<A>(i)) {
 			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
@@ -5013,10 +5014,10 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	
 #ifdef CTRE_MSVC_GREEDY_WORKAROUND
 		R result;
-		evaluate_recursive(result, i, begin, current, last, f, captures, stack);
+		evaluate_recursive(result, i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 		return result;
 #else
-		return evaluate_recursive(i, begin, current, last, f, captures, stack);
+		return evaluate_recursive(i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 #endif
 	}
 
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 1a93d3d..99c4482 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -4905,7 +4905,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		}
 	
 		// rest of regex
-		return evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+		return evaluate(begin, current, last, consumed_something(f, backup_current != current), captures, ctll::list<Tail...>());
 	}
 }
 
@@ -4955,21 +4955,21 @@ constexpr inline R evaluate_recursive(size_t i, const BeginIterator begin, Itera
 			auto tmp_current = current;
 			tmp_current = inner_result.get_end_position();
 			#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-			evaluate_recursive(result, i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack);
+			evaluate_recursive(result, i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack);
 			if (result) {
 				return;
 			}
 			#else
-			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack)) {
+			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack)) {
 				return rec_result;
 			}
 			#endif
 		}
 	}
 	#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-	result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	result = evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#else
-	return evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#endif
 }	
 
@@ -4996,6 +4996,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		}
 #endif
 		// A..B
+		const Iterator backup_current = current;
 		size_t i{0};
 		while (less_than<A>(i)) {
 			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
@@ -5010,10 +5011,10 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	
 #ifdef CTRE_MSVC_GREEDY_WORKAROUND
 		R result;
-		evaluate_recursive(result, i, begin, current, last, f, captures, stack);
+		evaluate_recursive(result, i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 		return result;
 #else
-		return evaluate_recursive(i, begin, current, last, f, captures, stack);
+		return evaluate_recursive(i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 #endif
 	}
 
-- 
2.43.0


From a267e0bce2cd89615aa78a396a364ae4018d95b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 09/49] fix: required iterations of a repetition can be empty

---
 include/ctre/evaluation.hpp    | 10 ++++++----
 single-header/ctre-unicode.hpp | 10 ++++++----
 single-header/ctre.hpp         | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 4e42adf..864bf87 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -277,8 +277,9 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	
 		size_t i{0};
 	
+		// required iterations can be empty
 		while (less_than<A>(i)) {
-			auto outer_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			auto outer_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!outer_result) return not_matched;
 		
@@ -324,8 +325,8 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		const auto backup_current = current;
 
 		for (size_t i{0}; less_than_or_infinite<B>(i); ++i) {
-			// try as many of inner as possible and then try outer once
-			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			// try as many of inner as possible and then try outer once (only required iterations can be empty)
+			auto inner_result = evaluate(begin, current, last, less_than<A>(i) ? consumed_something(f) : not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!inner_result) {
 				if (!less_than<A>(i)) break;
@@ -405,8 +406,9 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		// A..B
 		const Iterator backup_current = current;
 		size_t i{0};
+		// required iterations can be empty
 		while (less_than<A>(i)) {
-			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			auto inner_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!inner_result) return not_matched;
 		
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 1b16d81..5cbc132 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -4875,8 +4875,9 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	
 		size_t i{0};
 	
+		// required iterations can be empty
 		while (less_than<A>(i)) {
-			auto outer_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			auto outer_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!outer_result) return not_matched;
 		
@@ -4922,8 +4923,8 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		const auto backup_current = current;
 
 		for (size_t i{0}; less_than_or_infinite<B>(i); ++i) {
-			// try as many of inner as possible and then try outer once
-			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			// try as many of inner as possible and then try outer once (only required iterations can be empty)
+			auto inner_result = evaluate(begin, current, last, less_than<A>(i) ? consumed_something(f) : not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!inner_result) {
 				if (!less_than<A>(i)) break;
@@ -5001,8 +5002,9 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		// A..B
 		const Iterator backup_current = current;
 		size_t i{0};
+		// required iterations can be empty
 		while (less_than<A>(i)) {
-			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			auto inner_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!inner_result) return not_matched;
 		
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 99c4482..ef73ee2 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -4872,8 +4872,9 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	
 		size_t i{0};
 	
+		// required iterations can be empty
 		while (less_than<A>(i)) {
-			auto outer_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			auto outer_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!outer_result) return not_matched;
 		
@@ -4919,8 +4920,8 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		const auto backup_current = current;
 
 		for (size_t i{0}; less_than_or_infinite<B>(i); ++i) {
-			// try as many of inner as possible and then try outer once
-			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			// try as many of inner as possible and then try outer once (only required iterations can be empty)
+			auto inner_result = evaluate(begin, current, last, less_than<A>(i) ? consumed_something(f) : not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!inner_result) {
 				if (!less_than<A>(i)) break;
@@ -4998,8 +4999,9 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		// A..B
 		const Iterator backup_current = current;
 		size_t i{0};
+		// required iterations can be empty
 		while (less_than<A>(i)) {
-			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			auto inner_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!inner_result) return not_matched;
 		
-- 
2.43.0


From 650dd96729f88cd31b43c6946537f2a98605db5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:53 +0000
Subject: [PATCH 10/49] fix: negated classes nested in a set can be combined
 with the greedy optimisation

---
 include/ctre/first.hpp         | 20 ++++++++++++++++++--
 single-header/ctre-unicode.hpp | 20 ++++++++++++++++++--
 single-header/ctre.hpp         | 20 ++++++++++++++++++--
 3 files changed, 54 insertions(+), 6 deletions(-)

diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index f5f856c..b860160 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -388,13 +388,26 @@ constexpr auto negative_helper(ctre::property<PropertyType, Property, Value>, CB
 	return start;
 }
 
+// everything which a nested negation matches is kept (it's only an approximation)
+template <typename... Content, typename CB> constexpr int64_t negative_helper_item(ctre::negative_set<Content...>, CB &, int64_t start) {
+	return start;
+}
+
+template <typename... Content, typename CB> constexpr int64_t negative_helper_item(ctre::negate<Content...>, CB &, int64_t start) {
+	return start;
+}
+
+template <typename Item, typename CB> constexpr int64_t negative_helper_item(Item item, CB & cb, int64_t start) {
+	return negative_helper(item, cb, start);
+}
+
 template <typename Head, typename... Rest, typename CB> constexpr int64_t negative_helper(ctre::set<Head, Rest...>, CB & cb, int64_t start) {
-	start = negative_helper(Head{}, cb, start);
+	start = negative_helper_item(Head{}, cb, start);
 	return negative_helper(ctre::set<Rest...>{}, cb, start);
 }
 
 template <typename Head, typename... Rest, typename CB> constexpr void negative_helper(ctre::negative_set<Head, Rest...>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
-	start = negative_helper(Head{}, cb, start);
+	start = negative_helper_item(Head{}, cb, start);
 	negative_helper(ctre::negative_set<Rest...>{}, std::forward<CB>(cb), start);
 }
 
@@ -535,6 +548,9 @@ public:
 		});
 		return collision;
 	}
+	template <typename... Content> constexpr bool check(ctre::negate<Content...>) {
+		return check(ctre::negative_set<Content...>{});
+	}
 	template <auto... V> constexpr bool check(ctre::enumeration<V...>) {
 		
 		return (check(V,V) || ... || false);
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 5cbc132..ef8df31 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -4408,13 +4408,26 @@ constexpr auto negative_helper(ctre::property<PropertyType, Property, Value>, CB
 	return start;
 }
 
+// everything which a nested negation matches is kept (it's only an approximation)
+template <typename... Content, typename CB> constexpr int64_t negative_helper_item(ctre::negative_set<Content...>, CB &, int64_t start) {
+	return start;
+}
+
+template <typename... Content, typename CB> constexpr int64_t negative_helper_item(ctre::negate<Content...>, CB &, int64_t start) {
+	return start;
+}
+
+template <typename Item, typename CB> constexpr int64_t negative_helper_item(Item item, CB & cb, int64_t start) {
+	return negative_helper(item, cb, start);
+}
+
 template <typename Head, typename... Rest, typename CB> constexpr int64_t negative_helper(ctre::set<Head, Rest...>, CB & cb, int64_t start) {
-	start = negative_helper(Head{}, cb, start);
+	start = negative_helper_item(Head{}, cb, start);
 	return negative_helper(ctre::set<Rest...>{}, cb, start);
 }
 
 template <typename Head, typename... Rest, typename CB> constexpr void negative_helper(ctre::negative_set<Head, Rest...>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
-	start = negative_helper(Head{}, cb, start);
+	start = negative_helper_item(Head{}, cb, start);
 	negative_helper(ctre::negative_set<Rest...>{}, std::forward<CB>(cb), start);
 }
 
@@ -4555,6 +4568,9 @@ public:
 		});
 		return collision;
 	}
+	template <typename... Content> constexpr bool check(ctre::negate<Content...>) {
+		return check(ctre::negative_set<Content...>{});
+	}
 	template <auto... V> constexpr bool check(ctre::enumeration<V...>) {
 		
 		return (check(V,V) || ... || false);
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index ef73ee2..38b8182 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -4405,13 +4405,26 @@ constexpr auto negative_helper(ctre::property<PropertyType, Property, Value>, CB
 	return start;
 }
 
+// everything which a nested negation matches is kept (it's only an approximation)
+template <typename... Content, typename CB> constexpr int64_t negative_helper_item(ctre::negative_set<Content...>, CB &, int64_t start) {
+	return start;
+}
+
+template <typename... Content, typename CB> constexpr int64_t negative_helper_item(ctre::negate<Content...>, CB &, int64_t start) {
+	return start;
+}
+
+template <typename Item, typename CB> constexpr int64_t negative_helper_item(Item item, CB & cb, int64_t start) {
+	return negative_helper(item, cb, start);
+}
+
 template <typename Head, typename... Rest, typename CB> constexpr int64_t negative_helper(ctre::set<Head, Rest...>, CB & cb, int64_t start) {
-	start = negative_helper(Head{}, cb, start);
+	start = negative_helper_item(Head{}, cb, start);
 	return negative_helper(ctre::set<Rest...>{}, cb, start);
 }
 
 template <typename Head, typename... Rest, typename CB> constexpr void negative_helper(ctre::negative_set<Head, Rest...>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
-	start = negative_helper(Head{}, cb, start);
+	start = negative_helper_item(Head{}, cb, start);
 	negative_helper(ctre::negative_set<Rest...>{}, std::forward<CB>(cb), start);
 }
 
@@ -4552,6 +4565,9 @@ public:
 		});
 		return collision;
 	}
+	template <typename... Content> constexpr bool check(ctre::negate<Content...>) {
+		return check(ctre::negative_set<Content...>{});
+	}
 	template <auto... V> constexpr bool check(ctre::enumeration<V...>) {
 		
 		return (check(V,V) || ... || false);
-- 
2.43.0


From 6705f39acd81dd5d56caeb9e0eac154375978fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:27 +0000
Subject: [PATCH 11/49] fix: a regex starting with an optional anchored part is
 not anchored

---
 include/ctre/starts_with_anchor.hpp | 6 +++---
 single-header/ctre-unicode.hpp      | 6 +++---
 single-header/ctre.hpp              | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/ctre/starts_with_anchor.hpp b/include/ctre/starts_with_anchor.hpp
index 72c3dc9..70bd7aa 100644
--- a/include/ctre/starts_with_anchor.hpp
+++ b/include/ctre/starts_with_anchor.hpp
@@ -61,19 +61,19 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<sequence<Seq...>,
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<lazy_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<possessive_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t Index, typename... Seq, typename... Content> 
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index ef8df31..2bc7c13 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -3065,19 +3065,19 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<sequence<Seq...>,
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<lazy_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<possessive_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t Index, typename... Seq, typename... Content> 
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 38b8182..e51d43f 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -3062,19 +3062,19 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<sequence<Seq...>,
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<lazy_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<possessive_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A > 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t Index, typename... Seq, typename... Content> 
-- 
2.43.0


From 3a641632b9b772c320d619dbcd1b3bf3a126aaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 12/49] fix: split with an anchored regex which does not match
 ends

---
 include/ctre/iterators.hpp     | 4 +++-
 single-header/ctre-unicode.hpp | 4 +++-
 single-header/ctre.hpp         | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/ctre/iterators.hpp b/include/ctre/iterators.hpp
index 7964914..b4a138a 100644
--- a/include/ctre/iterators.hpp
+++ b/include/ctre/iterators.hpp
@@ -114,10 +114,12 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 	}
 	
 	constexpr CTRE_FORCE_INLINE void match_rest() {
-		// the end is there set by search_method
+		// the end is there set by search_method (but it doesn't look for it with a regex which must match at the begin)
 		current_match.set_start_mark(current);
 		current_match.matched();
 		current = current_match.template get<0>().end();
+		while (!(current == end)) ++current;
+		current_match.set_end_mark(current);
 		last_match = true;
 	}
 
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 2bc7c13..1da471b 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -5316,10 +5316,12 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 	}
 	
 	constexpr CTRE_FORCE_INLINE void match_rest() {
-		// the end is there set by search_method
+		// the end is there set by search_method (but it doesn't look for it with a regex which must match at the begin)
 		current_match.set_start_mark(current);
 		current_match.matched();
 		current = current_match.template get<0>().end();
+		while (!(current == end)) ++current;
+		current_match.set_end_mark(current);
 		last_match = true;
 	}
 
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index e51d43f..c49194f 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -5313,10 +5313,12 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 	}
 	
 	constexpr CTRE_FORCE_INLINE void match_rest() {
-		// the end is there set by search_method
+		// the end is there set by search_method (but it doesn't look for it with a regex which must match at the begin)
 		current_match.set_start_mark(current);
 		current_match.matched();
 		current = current_match.template get<0>().end();
+		while (!(current == end)) ++current;
+		current_match.set_end_mark(current);
 		last_match = true;
 	}
 
-- 
2.43.0


From 9bd1539aa8278a5cc8245a985c27144d5d9ee1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 13/49] fix: a backreference is compared in the case
 insensitive mode

---
 include/ctre/evaluation.hpp    | 9 +++++++--
 single-header/ctre-unicode.hpp | 9 +++++++--
 single-header/ctre.hpp         | 9 +++++++--
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 864bf87..669cac0 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -453,9 +453,14 @@ template <typename Iterator> struct string_match {
 	bool match;
 };
 
-template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, flags) noexcept {
+template <typename CharT> constexpr CTRE_FORCE_INLINE bool is_same_character(CharT lhs, CharT rhs, const flags & f) noexcept {
+	if (lhs == rhs) return true;
+	return is_case_insensitive(f) && is_ascii_alpha(lhs) && (lhs ^ static_cast<CharT>(0x20)) == rhs;
+}
+
+template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, const flags & f) noexcept {
 	while (last != current && range_end != range_current) {
-		if (*current == *range_current) {
+		if (is_same_character(*current, *range_current, f)) {
 			current++;
 			range_current++;
 		} else {
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 1da471b..839446b 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -5065,9 +5065,14 @@ template <typename Iterator> struct string_match {
 	bool match;
 };
 
-template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, flags) noexcept {
+template <typename CharT> constexpr CTRE_FORCE_INLINE bool is_same_character(CharT lhs, CharT rhs, const flags & f) noexcept {
+	if (lhs == rhs) return true;
+	return is_case_insensitive(f) && is_ascii_alpha(lhs) && (lhs ^ static_cast<CharT>(0x20)) == rhs;
+}
+
+template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, const flags & f) noexcept {
 	while (last != current && range_end != range_current) {
-		if (*current == *range_current) {
+		if (is_same_character(*current, *range_current, f)) {
 			current++;
 			range_current++;
 		} else {
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index c49194f..917ba53 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -5062,9 +5062,14 @@ template <typename Iterator> struct string_match {
 	bool match;
 };
 
-template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, flags) noexcept {
+template <typename CharT> constexpr CTRE_FORCE_INLINE bool is_same_character(CharT lhs, CharT rhs, const flags & f) noexcept {
+	if (lhs == rhs) return true;
+	return is_case_insensitive(f) && is_ascii_alpha(lhs) && (lhs ^ static_cast<CharT>(0x20)) == rhs;
+}
+
+template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, const flags & f) noexcept {
 	while (last != current && range_end != range_current) {
-		if (*current == *range_current) {
+		if (is_same_character(*current, *range_current, f)) {
 			current++;
 			range_current++;
 		} else {
-- 
2.43.0


From 8ab29c9e644d72b85c4418130867b867e51bd29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 14/49] fix: backreferences compile with an UTF-8 subject

---
 include/ctre/evaluation.hpp    | 7 +++++++
 single-header/ctre-unicode.hpp | 7 +++++++
 single-header/ctre.hpp         | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 669cac0..3ba26ec 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -470,6 +470,13 @@ template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE s
 	return {current, range_current == range_end};
 }
 
+#if defined(__cpp_char8_t) && __cpp_char8_t >= 201811
+// captures of an utf8 subject are stored as pointers to code units
+template <typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<utf8_iterator> match_against_range(utf8_iterator current, const EndIterator last, const char8_t * range_current, const char8_t * range_end, const flags & f) noexcept {
+	return match_against_range(current, last, utf8_iterator{range_current, range_end}, utf8_iterator{range_end, range_end}, f);
+}
+#endif
+
 // backreference with name
 template <typename R, typename Id, typename BeginIterator, typename Iterator, typename EndIterator, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<back_reference_with_name<Id>, Tail...>) noexcept {
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 839446b..6ceb197 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -5082,6 +5082,13 @@ template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE s
 	return {current, range_current == range_end};
 }
 
+#if defined(__cpp_char8_t) && __cpp_char8_t >= 201811
+// captures of an utf8 subject are stored as pointers to code units
+template <typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<utf8_iterator> match_against_range(utf8_iterator current, const EndIterator last, const char8_t * range_current, const char8_t * range_end, const flags & f) noexcept {
+	return match_against_range(current, last, utf8_iterator{range_current, range_end}, utf8_iterator{range_end, range_end}, f);
+}
+#endif
+
 // backreference with name
 template <typename R, typename Id, typename BeginIterator, typename Iterator, typename EndIterator, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<back_reference_with_name<Id>, Tail...>) noexcept {
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 917ba53..336d563 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -5079,6 +5079,13 @@ template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE s
 	return {current, range_current == range_end};
 }
 
+#if defined(__cpp_char8_t) && __cpp_char8_t >= 201811
+// captures of an utf8 subject are stored as pointers to code units
+template <typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<utf8_iterator> match_against_range(utf8_iterator current, const EndIterator last, const char8_t * range_current, const char8_t * range_end, const flags & f) noexcept {
+	return match_against_range(current, last, utf8_iterator{range_current, range_end}, utf8_iterator{range_end, range_end}, f);
+}
+#endif
+
 // backreference with name
 template <typename R, typename Id, typename BeginIterator, typename Iterator, typename EndIterator, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<back_reference_with_name<Id>, Tail...>) noexcept {
-- 
2.43.0


From 75dc1ff322cb82c36569e9d9ac59a99319aa05b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 15/49] fix: a capture without a match is not equal to any
 string

---
 include/ctre/return_type.hpp   | 4 ++--
 single-header/ctre-unicode.hpp | 4 ++--
 single-header/ctre.hpp         | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ctre/return_type.hpp b/include/ctre/return_type.hpp
index e37e400..bf89dc0 100644
--- a/include/ctre/return_type.hpp
+++ b/include/ctre/return_type.hpp
@@ -207,13 +207,13 @@ template <size_t Id, typename Name = void> struct captured_content {
 			return bool(lhs) ? lhs.view() == rhs : false;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator!=(const storage & lhs, std::basic_string_view<char_type> rhs) noexcept {
-			return bool(lhs) ? lhs.view() != rhs : false;
+			return bool(lhs) ? lhs.view() != rhs : true;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator==(std::basic_string_view<char_type> lhs, const storage & rhs) noexcept {
 			return bool(rhs) ? lhs == rhs.view() : false;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator!=(std::basic_string_view<char_type> lhs, const storage & rhs) noexcept {
-			return bool(rhs) ? lhs != rhs.view() : false;
+			return bool(rhs) ? lhs != rhs.view() : true;
 		}
 		friend CTRE_FORCE_INLINE std::ostream & operator<<(std::ostream & str, const storage & rhs) {
 			return str << rhs.view();
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 6ceb197..94fe8cf 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -3554,13 +3554,13 @@ template <size_t Id, typename Name = void> struct captured_content {
 			return bool(lhs) ? lhs.view() == rhs : false;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator!=(const storage & lhs, std::basic_string_view<char_type> rhs) noexcept {
-			return bool(lhs) ? lhs.view() != rhs : false;
+			return bool(lhs) ? lhs.view() != rhs : true;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator==(std::basic_string_view<char_type> lhs, const storage & rhs) noexcept {
 			return bool(rhs) ? lhs == rhs.view() : false;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator!=(std::basic_string_view<char_type> lhs, const storage & rhs) noexcept {
-			return bool(rhs) ? lhs != rhs.view() : false;
+			return bool(rhs) ? lhs != rhs.view() : true;
 		}
 		friend CTRE_FORCE_INLINE std::ostream & operator<<(std::ostream & str, const storage & rhs) {
 			return str << rhs.view();
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 336d563..e9e5fe2 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -3551,13 +3551,13 @@ template <size_t Id, typename Name = void> struct captured_content {
 			return bool(lhs) ? lhs.view() == rhs : false;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator!=(const storage & lhs, std::basic_string_view<char_type> rhs) noexcept {
-			return bool(lhs) ? lhs.view() != rhs : false;
+			return bool(lhs) ? lhs.view() != rhs : true;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator==(std::basic_string_view<char_type> lhs, const storage & rhs) noexcept {
 			return bool(rhs) ? lhs == rhs.view() : false;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator!=(std::basic_string_view<char_type> lhs, const storage & rhs) noexcept {
-			return bool(rhs) ? lhs != rhs.view() : false;
+			return bool(rhs) ? lhs != rhs.view() : true;
 		}
 		friend CTRE_FORCE_INLINE std::ostream & operator<<(std::ostream & str, const storage & rhs) {
 			return str << rhs.view();
-- 
2.43.0


From 3251183e3c8dd314a21b3104072b282561e02742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:23 +0000
Subject: [PATCH 16/49] fix: the end of a multi subject range can be on the
 left side of operator!=

---
 include/ctre/range.hpp         | 2 +-
 single-header/ctre-unicode.hpp | 2 +-
 single-header/ctre.hpp         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ctre/range.hpp b/include/ctre/range.hpp
index d1412c3..b75227f 100644
--- a/include/ctre/range.hpp
+++ b/include/ctre/range.hpp
@@ -114,7 +114,7 @@ template <typename Range, typename RE> struct multi_subject_range {
 			return left.first != left.last;
 		}
 		friend constexpr CTRE_FORCE_INLINE bool operator!=(end_iterator, const iterator & right) noexcept {
-			return right.first == right.last;
+			return right.first != right.last;
 		}
 	};
 	
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 94fe8cf..209eee0 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -5522,7 +5522,7 @@ template <typename Range, typename RE> struct multi_subject_range {
 			return left.first != left.last;
 		}
 		friend constexpr CTRE_FORCE_INLINE bool operator!=(end_iterator, const iterator & right) noexcept {
-			return right.first == right.last;
+			return right.first != right.last;
 		}
 	};
 	
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index e9e5fe2..8df2245 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -5519,7 +5519,7 @@ template <typename Range, typename RE> struct multi_subject_range {
 			return left.first != left.last;
 		}
 		friend constexpr CTRE_FORCE_INLINE bool operator!=(end_iterator, const iterator & right) noexcept {
-			return right.first == right.last;
+			return right.first != right.last;
 		}
 	};
 	
-- 
2.43.0


From 23afe953d93938155f220a8419c2328ad7b2db9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 17/49] fix: an iterator behind the last match is not equal to
 the one at the last match

---
 include/ctre/iterators.hpp     | 8 ++++----
 single-header/ctre-unicode.hpp | 8 ++++----
 single-header/ctre.hpp         | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/ctre/iterators.hpp b/include/ctre/iterators.hpp
index b4a138a..e1b62de 100644
--- a/include/ctre/iterators.hpp
+++ b/include/ctre/iterators.hpp
@@ -62,10 +62,10 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		return previous;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current == right.current;
+		return left.current == right.current && bool(left.current_match) == bool(right.current_match);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator!=(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return !(left.current == right.current);
+		return !(left == right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
 		return left.current < right.current;
@@ -162,10 +162,10 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		return previous;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current == right.current;
+		return left.current == right.current && bool(left.current_match) == bool(right.current_match) && left.last_match == right.last_match;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator!=(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return !(left.current == right.current);
+		return !(left == right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
 		return left.current < right.current;
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 209eee0..63ab8a7 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -5276,10 +5276,10 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		return previous;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current == right.current;
+		return left.current == right.current && bool(left.current_match) == bool(right.current_match);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator!=(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return !(left.current == right.current);
+		return !(left == right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
 		return left.current < right.current;
@@ -5376,10 +5376,10 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		return previous;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current == right.current;
+		return left.current == right.current && bool(left.current_match) == bool(right.current_match) && left.last_match == right.last_match;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator!=(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return !(left.current == right.current);
+		return !(left == right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
 		return left.current < right.current;
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 8df2245..2d9024b 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -5273,10 +5273,10 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		return previous;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current == right.current;
+		return left.current == right.current && bool(left.current_match) == bool(right.current_match);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator!=(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return !(left.current == right.current);
+		return !(left == right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<(const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
 		return left.current < right.current;
@@ -5373,10 +5373,10 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		return previous;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator==(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return left.current == right.current;
+		return left.current == right.current && bool(left.current_match) == bool(right.current_match) && left.last_match == right.last_match;
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator!=(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
-		return !(left.current == right.current);
+		return !(left == right);
 	}
 	friend constexpr CTRE_FORCE_INLINE bool operator<(const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & left, const regex_split_iterator<BeginIterator, EndIterator, RE, ResultIterator> & right) noexcept {
 		return left.current < right.current;
-- 
2.43.0


From bcdced53070a835aa5b07f1905e50d17760b4c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 18/49] fix: utf8_iterator does not step behind an incomplete
 last code point

---
 include/ctre/utf8.hpp          | 6 +++++-
 single-header/ctre-unicode.hpp | 5 ++++-
 single-header/ctre.hpp         | 5 ++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index 6dfa027..93b7853 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -5,6 +5,7 @@
 
 #include "utility.hpp"
 #ifndef CTRE_IN_A_MODULE
+#include <cstddef>
 #include <string_view>
 #include <iterator>
 #endif
@@ -121,7 +122,10 @@ struct utf8_iterator {
 		// & 0b11u  selects only needed two bits
 		// +1  because each iteration is at least one code unit forward
 		
-		ptr += ((0x3A55000000000000ull >> ((*ptr >> 2) & 0b111110u)) & 0b11u) + 1;
+		const auto step = static_cast<std::ptrdiff_t>(((0x3A55000000000000ull >> ((*ptr >> 2) & 0b111110u)) & 0b11u) + 1);
+		
+		// the last code point can be incomplete
+		ptr = (end - ptr < step) ? end : ptr + step;
 		return *this;
 	}
 	
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 63ab8a7..730bfa3 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -3221,7 +3221,10 @@ struct utf8_iterator {
 		// & 0b11u  selects only needed two bits
 		// +1  because each iteration is at least one code unit forward
 		
-		ptr += ((0x3A55000000000000ull >> ((*ptr >> 2) & 0b111110u)) & 0b11u) + 1;
+		const auto step = static_cast<std::ptrdiff_t>(((0x3A55000000000000ull >> ((*ptr >> 2) & 0b111110u)) & 0b11u) + 1);
+		
+		// the last code point can be incomplete
+		ptr = (end - ptr < step) ? end : ptr + step;
 		return *this;
 	}
 	
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 2d9024b..d7e7993 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -3218,7 +3218,10 @@ struct utf8_iterator {
 		// & 0b11u  selects only needed two bits
 		// +1  because each iteration is at least one code unit forward
 		
-		ptr += ((0x3A55000000000000ull >> ((*ptr >> 2) & 0b111110u)) & 0b11u) + 1;
+		const auto step = static_cast<std::ptrdiff_t>(((0x3A55000000000000ull >> ((*ptr >> 2) & 0b111110u)) & 0b11u) + 1);
+		
+		// the last code point can be incomplete
+		ptr = (end - ptr < step) ? end : ptr + step;
 		return *this;
 	}
 	
-- 
2.43.0


From 8466e2c1bee05338147a4cbd7b22a3ab460b0952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 19/49] fix: utf8_iterator does not step before the subject

---
 include/ctre/utf8.hpp          | 5 +++--
 single-header/ctre-unicode.hpp | 5 +++--
 single-header/ctre.hpp         | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index 93b7853..ce749c8 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -61,6 +61,7 @@ struct utf8_iterator {
 	
 	const char8_t * ptr{nullptr};
 	const char8_t * end{nullptr};
+	const char8_t * begin{nullptr}; // there is nothing to look at before it (when provided)
 #if !defined(__cpp_impl_three_way_comparison) || __cpp_impl_three_way_comparison < 201907L
 	constexpr friend bool operator!=(const utf8_iterator & lhs, sentinel) {
 		return lhs.ptr < lhs.end;
@@ -136,7 +137,7 @@ struct utf8_iterator {
 			--ptr;
 		}
 		
-		while ((*ptr & 0b11000000u) == 0b10'000000) {
+		while (ptr != begin && (*ptr & 0b11000000u) == 0b10'000000) {
 			--ptr;
 		}
 		
@@ -240,7 +241,7 @@ struct utf8_range {
 	constexpr utf8_range(std::u8string_view r) noexcept: range{r} { }
 	
 	constexpr auto begin() const noexcept {
-		return utf8_iterator{range.data(), range.data() + range.size()};
+		return utf8_iterator{range.data(), range.data() + range.size(), range.data()};
 	}
 	constexpr auto end() const noexcept {
 		return utf8_iterator::sentinel{};
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 730bfa3..33d76c5 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -3160,6 +3160,7 @@ struct utf8_iterator {
 	
 	const char8_t * ptr{nullptr};
 	const char8_t * end{nullptr};
+	const char8_t * begin{nullptr}; // there is nothing to look at before it (when provided)
 #if !defined(__cpp_impl_three_way_comparison) || __cpp_impl_three_way_comparison < 201907L
 	constexpr friend bool operator!=(const utf8_iterator & lhs, sentinel) {
 		return lhs.ptr < lhs.end;
@@ -3235,7 +3236,7 @@ struct utf8_iterator {
 			--ptr;
 		}
 		
-		while ((*ptr & 0b11000000u) == 0b10'000000) {
+		while (ptr != begin && (*ptr & 0b11000000u) == 0b10'000000) {
 			--ptr;
 		}
 		
@@ -3339,7 +3340,7 @@ struct utf8_range {
 	constexpr utf8_range(std::u8string_view r) noexcept: range{r} { }
 	
 	constexpr auto begin() const noexcept {
-		return utf8_iterator{range.data(), range.data() + range.size()};
+		return utf8_iterator{range.data(), range.data() + range.size(), range.data()};
 	}
 	constexpr auto end() const noexcept {
 		return utf8_iterator::sentinel{};
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index d7e7993..b0ab3ab 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -3157,6 +3157,7 @@ struct utf8_iterator {
 	
 	const char8_t * ptr{nullptr};
 	const char8_t * end{nullptr};
+	const char8_t * begin{nullptr}; // there is nothing to look at before it (when provided)
 #if !defined(__cpp_impl_three_way_comparison) || __cpp_impl_three_way_comparison < 201907L
 	constexpr friend bool operator!=(const utf8_iterator & lhs, sentinel) {
 		return lhs.ptr < lhs.end;
@@ -3232,7 +3233,7 @@ struct utf8_iterator {
 			--ptr;
 		}
 		
-		while ((*ptr & 0b11000000u) == 0b10'000000) {
+		while (ptr != begin && (*ptr & 0b11000000u) == 0b10'000000) {
 			--ptr;
 		}
 		
@@ -3336,7 +3337,7 @@ struct utf8_range {
 	constexpr utf8_range(std::u8string_view r) noexcept: range{r} { }
 	
 	constexpr auto begin() const noexcept {
-		return utf8_iterator{range.data(), range.data() + range.size()};
+		return utf8_iterator{range.data(), range.data() + range.size(), range.data()};
 	}
 	constexpr auto end() const noexcept {
 		return utf8_iterator::sentinel{};
-- 
2.43.0


From 557962ff1ededa2bd25e1e77ff3d6527eddfd2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 20/49] fix: possessive repetitions are merged in the right
 order

---
 include/ctre/actions/fusion.inc.hpp | 6 +++---
 single-header/ctre-unicode.hpp      | 6 +++---
 single-header/ctre.hpp              | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/ctre/actions/fusion.inc.hpp b/include/ctre/actions/fusion.inc.hpp
index bccb20b..1a2f6d1 100644
--- a/include/ctre/actions/fusion.inc.hpp
+++ b/include/ctre/actions/fusion.inc.hpp
@@ -48,21 +48,21 @@ template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename..
 
 // concat repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<repeat<MinB, MaxB, Content...>, As...>,repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(repeat<MinB, MaxB, Content...>(), repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(repeat<MinA, MaxA, Content...>(), repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
 // concat lazy repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<lazy_repeat<MinB, MaxB, Content...>, As...>,lazy_repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(lazy_repeat<MinB, MaxB, Content...>(), lazy_repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(lazy_repeat<MinA, MaxA, Content...>(), lazy_repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
 // concat possessive repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<possessive_repeat<MinB, MaxB, Content...>, As...>,possessive_repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(possessive_repeat<MinB, MaxB, Content...>(), possessive_repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(possessive_repeat<MinA, MaxA, Content...>(), possessive_repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 33d76c5..b5a750c 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -2460,21 +2460,21 @@ template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename..
 
 // concat repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<repeat<MinB, MaxB, Content...>, As...>,repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(repeat<MinB, MaxB, Content...>(), repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(repeat<MinA, MaxA, Content...>(), repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
 // concat lazy repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<lazy_repeat<MinB, MaxB, Content...>, As...>,lazy_repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(lazy_repeat<MinB, MaxB, Content...>(), lazy_repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(lazy_repeat<MinA, MaxA, Content...>(), lazy_repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
 // concat possessive repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<possessive_repeat<MinB, MaxB, Content...>, As...>,possessive_repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(possessive_repeat<MinB, MaxB, Content...>(), possessive_repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(possessive_repeat<MinA, MaxA, Content...>(), possessive_repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index b0ab3ab..0c8cdf7 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -2457,21 +2457,21 @@ template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename..
 
 // concat repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<repeat<MinB, MaxB, Content...>, As...>,repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(repeat<MinB, MaxB, Content...>(), repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(repeat<MinA, MaxA, Content...>(), repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
 // concat lazy repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<lazy_repeat<MinB, MaxB, Content...>, As...>,lazy_repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(lazy_repeat<MinB, MaxB, Content...>(), lazy_repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(lazy_repeat<MinA, MaxA, Content...>(), lazy_repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
 // concat possessive repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<possessive_repeat<MinB, MaxB, Content...>, As...>,possessive_repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(possessive_repeat<MinB, MaxB, Content...>(), possessive_repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(possessive_repeat<MinA, MaxA, Content...>(), possessive_repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
-- 
2.43.0


From b12c0f14a8ed2daeefd2ca53d680f48b12712b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:29 +0000
Subject: [PATCH 21/49] fix: characters above 0x7F in a pattern match code
 units of a signed char subject

---
 include/ctre/atoms_characters.hpp | 13 +++++++++++--
 single-header/ctre-unicode.hpp    | 13 +++++++++++--
 single-header/ctre.hpp            | 13 +++++++++++--
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/include/ctre/atoms_characters.hpp b/include/ctre/atoms_characters.hpp
index ed9e66e..f52a164 100644
--- a/include/ctre/atoms_characters.hpp
+++ b/include/ctre/atoms_characters.hpp
@@ -31,6 +31,15 @@ template <typename T> constexpr CTRE_FORCE_INLINE bool is_ascii_alpha_uppercase(
 	return (v >= static_cast<T>('A')) && v <= (static_cast<T>('Z'));
 }
 
+// negative values of a plain char are code units above 0x7F
+template <typename T> constexpr CTRE_FORCE_INLINE auto code_unit_value(T v) {
+	if constexpr (std::is_same_v<T, char>) {
+		return static_cast<char32_t>(static_cast<unsigned char>(v));
+	} else {
+		return v;
+	}
+}
+
 template <auto V> struct character {
 	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT value, const flags & f) noexcept {
 		if constexpr (is_ascii_alpha(V)) {
@@ -40,7 +49,7 @@ template <auto V> struct character {
 				}
 			}	
 		}
-		return value == V;
+		return code_unit_value(value) == V;
 	}
 };
 
@@ -79,7 +88,7 @@ template <auto A, auto B> struct char_range {
 				}
 			}	
 		}
-		return (value >= A) && (value <= B);
+		return (code_unit_value(value) >= A) && (code_unit_value(value) <= B);
 	}
 };
 using word_chars = set<char_range<'A','Z'>, char_range<'a','z'>, char_range<'0','9'>, character<'_'> >;
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index b5a750c..fcebd4e 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -1589,6 +1589,15 @@ template <typename T> constexpr CTRE_FORCE_INLINE bool is_ascii_alpha_uppercase(
 	return (v >= static_cast<T>('A')) && v <= (static_cast<T>('Z'));
 }
 
+// negative values of a plain char are code units above 0x7F
+template <typename T> constexpr CTRE_FORCE_INLINE auto code_unit_value(T v) {
+	if constexpr (std::is_same_v<T, char>) {
+		return static_cast<char32_t>(static_cast<unsigned char>(v));
+	} else {
+		return v;
+	}
+}
+
 template <auto V> struct character {
 	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT value, const flags & f) noexcept {
 		if constexpr (is_ascii_alpha(V)) {
@@ -1598,7 +1607,7 @@ template <auto V> struct character {
 				}
 			}	
 		}
-		return value == V;
+		return code_unit_value(value) == V;
 	}
 };
 
@@ -1637,7 +1646,7 @@ template <auto A, auto B> struct char_range {
 				}
 			}	
 		}
-		return (value >= A) && (value <= B);
+		return (code_unit_value(value) >= A) && (code_unit_value(value) <= B);
 	}
 };
 using word_chars = set<char_range<'A','Z'>, char_range<'a','z'>, char_range<'0','9'>, character<'_'> >;
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 0c8cdf7..f126a5a 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -1586,6 +1586,15 @@ template <typename T> constexpr CTRE_FORCE_INLINE bool is_ascii_alpha_uppercase(
 	return (v >= static_cast<T>('A')) && v <= (static_cast<T>('Z'));
 }
 
+// negative values of a plain char are code units above 0x7F
+template <typename T> constexpr CTRE_FORCE_INLINE auto code_unit_value(T v) {
+	if constexpr (std::is_same_v<T, char>) {
+		return static_cast<char32_t>(static_cast<unsigned char>(v));
+	} else {
+		return v;
+	}
+}
+
 template <auto V> struct character {
 	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT value, const flags & f) noexcept {
 		if constexpr (is_ascii_alpha(V)) {
@@ -1595,7 +1604,7 @@ template <auto V> struct character {
 				}
 			}	
 		}
-		return value == V;
+		return code_unit_value(value) == V;
 	}
 };
 
@@ -1634,7 +1643,7 @@ template <auto A, auto B> struct char_range {
 				}
 			}	
 		}
-		return (value >= A) && (value <= B);
+		return (code_unit_value(value) >= A) && (code_unit_value(value) <= B);
 	}
 };
 using word_chars = set<char_range<'A','Z'>, char_range<'a','z'>, char_range<'0','9'>, character<'_'> >;
-- 
2.43.0


From 2fb011d027475506689470e7db80474d85aa129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:11 +0000
Subject: [PATCH 22/49] fix: any character range is compared in the case
 insensitive mode

---
 include/ctre/atoms_characters.hpp | 17 +++++------------
 single-header/ctre-unicode.hpp    | 17 +++++------------
 single-header/ctre.hpp            | 17 +++++------------
 3 files changed, 15 insertions(+), 36 deletions(-)

diff --git a/include/ctre/atoms_characters.hpp b/include/ctre/atoms_characters.hpp
index f52a164..78351fb 100644
--- a/include/ctre/atoms_characters.hpp
+++ b/include/ctre/atoms_characters.hpp
@@ -75,18 +75,11 @@ template <typename... Content> struct negate {
 
 template <auto A, auto B> struct char_range {
 	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT value, const flags & f) noexcept {
-		if constexpr (is_ascii_alpha_lowercase(A) && is_ascii_alpha_lowercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
-					return true;//
-				}
-			}	
-		} else if constexpr (is_ascii_alpha_uppercase(A) && is_ascii_alpha_uppercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
-					return true;//
-				}
-			}	
+		if (is_case_insensitive(f) && is_ascii_alpha(value)) {
+			const CharT other_case = static_cast<CharT>(value ^ static_cast<CharT>(0x20));
+			if ((code_unit_value(other_case) >= A) && (code_unit_value(other_case) <= B)) {
+				return true;
+			}
 		}
 		return (code_unit_value(value) >= A) && (code_unit_value(value) <= B);
 	}
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index fcebd4e..c08a2f9 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -1633,18 +1633,11 @@ template <typename... Content> struct negate {
 
 template <auto A, auto B> struct char_range {
 	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT value, const flags & f) noexcept {
-		if constexpr (is_ascii_alpha_lowercase(A) && is_ascii_alpha_lowercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
-					return true;//
-				}
-			}	
-		} else if constexpr (is_ascii_alpha_uppercase(A) && is_ascii_alpha_uppercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
-					return true;//
-				}
-			}	
+		if (is_case_insensitive(f) && is_ascii_alpha(value)) {
+			const CharT other_case = static_cast<CharT>(value ^ static_cast<CharT>(0x20));
+			if ((code_unit_value(other_case) >= A) && (code_unit_value(other_case) <= B)) {
+				return true;
+			}
 		}
 		return (code_unit_value(value) >= A) && (code_unit_value(value) <= B);
 	}
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index f126a5a..b8e726b 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -1630,18 +1630,11 @@ template <typename... Content> struct negate {
 
 template <auto A, auto B> struct char_range {
 	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT value, const flags & f) noexcept {
-		if constexpr (is_ascii_alpha_lowercase(A) && is_ascii_alpha_lowercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
-					return true;//
-				}
-			}	
-		} else if constexpr (is_ascii_alpha_uppercase(A) && is_ascii_alpha_uppercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
-					return true;//
-				}
-			}	
+		if (is_case_insensitive(f) && is_ascii_alpha(value)) {
+			const CharT other_case = static_cast<CharT>(value ^ static_cast<CharT>(0x20));
+			if ((code_unit_value(other_case) >= A) && (code_unit_value(other_case) <= B)) {
+				return true;
+			}
 		}
 		return (code_unit_value(value) >= A) && (code_unit_value(value) <= B);
 	}
-- 
2.43.0


From 32f580f9880031b125361e5a653b97de265d2889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:45 +0000
Subject: [PATCH 23/49] fix: a repetition followed by a boundary or by a begin
 anchor can give back characters

---
 include/ctre/first.hpp         | 19 +++++++++----------
 single-header/ctre-unicode.hpp | 19 +++++++++----------
 single-header/ctre.hpp         | 19 +++++++++----------
 3 files changed, 27 insertions(+), 30 deletions(-)

diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index b860160..5d39fd2 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -53,22 +53,22 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<empty, Tail...>) noexc
 	return first(l, ctll::list<Tail...>{});
 }
 
-// boundary
+// boundary (it can be satisfied before any character, even if there is nothing behind it)
 template <typename... Content, typename CharLike, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<boundary<CharLike>, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<boundary<CharLike>, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
 }
 
 // not boundary
 template <typename... Content, typename CharLike, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
 }
 
 // asserts
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_begin, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
 }
 
 template <typename... Content, typename... Tail> 
@@ -82,9 +82,8 @@ constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_end_line,
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_begin, Tail...>) noexcept {
-	// FIXME line begin is a bit different than subject begin
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_line_begin, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
 }
 
 template <typename... Content, typename... Tail> 
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index c08a2f9..96f4898 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -4085,22 +4085,22 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<empty, Tail...>) noexc
 	return first(l, ctll::list<Tail...>{});
 }
 
-// boundary
+// boundary (it can be satisfied before any character, even if there is nothing behind it)
 template <typename... Content, typename CharLike, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<boundary<CharLike>, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<boundary<CharLike>, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
 }
 
 // not boundary
 template <typename... Content, typename CharLike, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
 }
 
 // asserts
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_begin, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
 }
 
 template <typename... Content, typename... Tail> 
@@ -4114,9 +4114,8 @@ constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_end_line,
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_begin, Tail...>) noexcept {
-	// FIXME line begin is a bit different than subject begin
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_line_begin, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
 }
 
 template <typename... Content, typename... Tail> 
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index b8e726b..9031b91 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -4082,22 +4082,22 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<empty, Tail...>) noexc
 	return first(l, ctll::list<Tail...>{});
 }
 
-// boundary
+// boundary (it can be satisfied before any character, even if there is nothing behind it)
 template <typename... Content, typename CharLike, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<boundary<CharLike>, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<boundary<CharLike>, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
 }
 
 // not boundary
 template <typename... Content, typename CharLike, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
 }
 
 // asserts
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_begin, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
 }
 
 template <typename... Content, typename... Tail> 
@@ -4111,9 +4111,8 @@ constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_end_line,
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_begin, Tail...>) noexcept {
-	// FIXME line begin is a bit different than subject begin
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_line_begin, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
 }
 
 template <typename... Content, typename... Tail> 
-- 
2.43.0


From 4f40ddc1b622ab990170172a9f5e49a9a7d58811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 24/49] fix: repetitions of a string, a sequence or a
 lookaround inside of lookbehind compile

---
 include/ctre/rotate.hpp        | 14 +++++++++++---
 single-header/ctre-unicode.hpp | 14 +++++++++++---
 single-header/ctre.hpp         | 14 +++++++++++---
 3 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/include/ctre/rotate.hpp b/include/ctre/rotate.hpp
index 91820f3..f67ad13 100644
--- a/include/ctre/rotate.hpp
+++ b/include/ctre/rotate.hpp
@@ -52,9 +52,17 @@ template <typename... Content> static auto rotate(select<Content...>) {
 }
 
 
-template <size_t a, size_t b, typename... Content> static auto rotate(repeat<a,b,Content...>) -> decltype(ctre::convert_to_repeat<repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{})));
-template <size_t a, size_t b, typename... Content> static auto rotate(lazy_repeat<a,b,Content...>) -> decltype(ctre::convert_to_repeat<lazy_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{})));
-template <size_t a, size_t b, typename... Content> static auto rotate(possessive_repeat<a,b,Content...>) -> decltype(ctre::convert_to_repeat<possessive_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{})));
+template <size_t a, size_t b, typename... Content> static auto rotate(repeat<a,b,Content...>) {
+	return ctre::convert_to_repeat<repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
+}
+
+template <size_t a, size_t b, typename... Content> static auto rotate(lazy_repeat<a,b,Content...>) {
+	return ctre::convert_to_repeat<lazy_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
+}
+
+template <size_t a, size_t b, typename... Content> static auto rotate(possessive_repeat<a,b,Content...>) {
+	return ctre::convert_to_repeat<possessive_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
+}
 
 template <size_t Index, typename... Content> static auto rotate(capture<Index, Content...>) {
 	return ctre::convert_to_capture<Index>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 96f4898..6d8f8b9 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -2075,9 +2075,17 @@ template <typename... Content> static auto rotate(select<Content...>) {
   return select<decltype(rotate(Content{}))...>{};
 }
 
-template <size_t a, size_t b, typename... Content> static auto rotate(repeat<a,b,Content...>) -> decltype(ctre::convert_to_repeat<repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{})));
-template <size_t a, size_t b, typename... Content> static auto rotate(lazy_repeat<a,b,Content...>) -> decltype(ctre::convert_to_repeat<lazy_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{})));
-template <size_t a, size_t b, typename... Content> static auto rotate(possessive_repeat<a,b,Content...>) -> decltype(ctre::convert_to_repeat<possessive_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{})));
+template <size_t a, size_t b, typename... Content> static auto rotate(repeat<a,b,Content...>) {
+	return ctre::convert_to_repeat<repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
+}
+
+template <size_t a, size_t b, typename... Content> static auto rotate(lazy_repeat<a,b,Content...>) {
+	return ctre::convert_to_repeat<lazy_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
+}
+
+template <size_t a, size_t b, typename... Content> static auto rotate(possessive_repeat<a,b,Content...>) {
+	return ctre::convert_to_repeat<possessive_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
+}
 
 template <size_t Index, typename... Content> static auto rotate(capture<Index, Content...>) {
 	return ctre::convert_to_capture<Index>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 9031b91..d1d08cd 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -2072,9 +2072,17 @@ template <typename... Content> static auto rotate(select<Content...>) {
   return select<decltype(rotate(Content{}))...>{};
 }
 
-template <size_t a, size_t b, typename... Content> static auto rotate(repeat<a,b,Content...>) -> decltype(ctre::convert_to_repeat<repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{})));
-template <size_t a, size_t b, typename... Content> static auto rotate(lazy_repeat<a,b,Content...>) -> decltype(ctre::convert_to_repeat<lazy_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{})));
-template <size_t a, size_t b, typename... Content> static auto rotate(possessive_repeat<a,b,Content...>) -> decltype(ctre::convert_to_repeat<possessive_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{})));
+template <size_t a, size_t b, typename... Content> static auto rotate(repeat<a,b,Content...>) {
+	return ctre::convert_to_repeat<repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
+}
+
+template <size_t a, size_t b, typename... Content> static auto rotate(lazy_repeat<a,b,Content...>) {
+	return ctre::convert_to_repeat<lazy_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
+}
+
+template <size_t a, size_t b, typename... Content> static auto rotate(possessive_repeat<a,b,Content...>) {
+	return ctre::convert_to_repeat<possessive_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
+}
 
 template <size_t Index, typename... Content> static auto rotate(capture<Index, Content...>) {
 	return ctre::convert_to_capture<Index>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
-- 
2.43.0


From 487cc2b0cdbf7f014882b75433f1fd35559adff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 25/49] fix: repetition followed by possessive repetitions
 which always reject compiles

---
 include/ctre/first.hpp         | 6 ++++++
 single-header/ctre-unicode.hpp | 6 ++++++
 single-header/ctre.hpp         | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index 5d39fd2..e668585 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -47,6 +47,12 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<numeric_mark<Id>, Tail
 	return first(l, ctll::list<Tail...>{});
 }
 
+// reject (nothing can match)
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<reject, Tail...>) noexcept {
+	return l;
+}
+
 // empty
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<empty, Tail...>) noexcept {
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 6d8f8b9..ae3fc41 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -4087,6 +4087,12 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<numeric_mark<Id>, Tail
 	return first(l, ctll::list<Tail...>{});
 }
 
+// reject (nothing can match)
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<reject, Tail...>) noexcept {
+	return l;
+}
+
 // empty
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<empty, Tail...>) noexcept {
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index d1d08cd..8ca5175 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -4084,6 +4084,12 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<numeric_mark<Id>, Tail
 	return first(l, ctll::list<Tail...>{});
 }
 
+// reject (nothing can match)
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<reject, Tail...>) noexcept {
+	return l;
+}
+
 // empty
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<empty, Tail...>) noexcept {
-- 
2.43.0


From 0cc2538c9d1e7261a4c5f34dee448b00ee9bf89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:19 +0000
Subject: [PATCH 26/49] fix: possessive repetitions of a content which can be
 empty are not merged

---
 include/ctre/actions/fusion.inc.hpp | 6 +++++-
 single-header/ctre-unicode.hpp      | 6 +++++-
 single-header/ctre.hpp              | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/ctre/actions/fusion.inc.hpp b/include/ctre/actions/fusion.inc.hpp
index 1a2f6d1..d76159e 100644
--- a/include/ctre/actions/fusion.inc.hpp
+++ b/include/ctre/actions/fusion.inc.hpp
@@ -18,8 +18,12 @@ template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Conten
 	[[maybe_unused]] constexpr bool first_is_unbounded = (MaxA == 0);
 	[[maybe_unused]] constexpr bool second_is_nonempty = (MinB > 0);
 	[[maybe_unused]] constexpr bool second_can_be_empty = (MinB == 0);
+	[[maybe_unused]] constexpr bool content_always_consumes = (MatchesCharacter<Content>::template value<char32_t> || ...);
 
-	if constexpr (first_is_unbounded && second_is_nonempty) {
+	if constexpr (second_is_nonempty && !content_always_consumes) {
+		// required iterations can be empty, so they can't be moved between the repetitions
+		return sequence<possessive_repeat<MinA, MaxA, Content...>, possessive_repeat<MinB, MaxB, Content...>>();
+	} else if constexpr (first_is_unbounded && second_is_nonempty) {
 		// will always reject, but I keep the content, so I have some amount of captures
 		return sequence<reject, Content...>();
 	} else if constexpr (first_is_unbounded) {
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index ae3fc41..b05b24b 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -2440,8 +2440,12 @@ template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Conten
 	[[maybe_unused]] constexpr bool first_is_unbounded = (MaxA == 0);
 	[[maybe_unused]] constexpr bool second_is_nonempty = (MinB > 0);
 	[[maybe_unused]] constexpr bool second_can_be_empty = (MinB == 0);
+	[[maybe_unused]] constexpr bool content_always_consumes = (MatchesCharacter<Content>::template value<char32_t> || ...);
 
-	if constexpr (first_is_unbounded && second_is_nonempty) {
+	if constexpr (second_is_nonempty && !content_always_consumes) {
+		// required iterations can be empty, so they can't be moved between the repetitions
+		return sequence<possessive_repeat<MinA, MaxA, Content...>, possessive_repeat<MinB, MaxB, Content...>>();
+	} else if constexpr (first_is_unbounded && second_is_nonempty) {
 		// will always reject, but I keep the content, so I have some amount of captures
 		return sequence<reject, Content...>();
 	} else if constexpr (first_is_unbounded) {
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 8ca5175..6dd5fd6 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -2437,8 +2437,12 @@ template <size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Conten
 	[[maybe_unused]] constexpr bool first_is_unbounded = (MaxA == 0);
 	[[maybe_unused]] constexpr bool second_is_nonempty = (MinB > 0);
 	[[maybe_unused]] constexpr bool second_can_be_empty = (MinB == 0);
+	[[maybe_unused]] constexpr bool content_always_consumes = (MatchesCharacter<Content>::template value<char32_t> || ...);
 
-	if constexpr (first_is_unbounded && second_is_nonempty) {
+	if constexpr (second_is_nonempty && !content_always_consumes) {
+		// required iterations can be empty, so they can't be moved between the repetitions
+		return sequence<possessive_repeat<MinA, MaxA, Content...>, possessive_repeat<MinB, MaxB, Content...>>();
+	} else if constexpr (first_is_unbounded && second_is_nonempty) {
 		// will always reject, but I keep the content, so I have some amount of captures
 		return sequence<reject, Content...>();
 	} else if constexpr (first_is_unbounded) {
-- 
2.43.0


From fc026258fcaae4a1a5905fc87afb5d15b622817e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 27/49] fix: all letters of a mode switch with more letters are
 used

---
 include/ctre/actions/mode.inc.hpp | 9 +++++++++
 single-header/ctre-unicode.hpp    | 9 +++++++++
 single-header/ctre.hpp            | 9 +++++++++
 3 files changed, 27 insertions(+)

diff --git a/include/ctre/actions/mode.inc.hpp b/include/ctre/actions/mode.inc.hpp
index d4e612b..1237107 100644
--- a/include/ctre/actions/mode.inc.hpp
+++ b/include/ctre/actions/mode.inc.hpp
@@ -10,6 +10,15 @@ template <typename Mode, typename... Ts, size_t Id, size_t Counter> static const
 	return pcre_context<ctll::list<mode_switch<Mode>, Ts...>, pcre_parameters<Counter-1>>{};
 }
 
+// more letters in one switch are a sequence of switches
+template <typename Mode, typename Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<mode_switch<Previous>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<mode_switch<Previous>, mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
+template <typename Mode, typename... Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<sequence<Previous...>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<Previous..., mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
 // catch a semantic action into mode
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::mode_case_insensitive mode, ctll::term<V>,pcre_context<ctll::list<Ts...>, Parameters>) {
 	return apply_mode(mode, ctll::list<Ts...>{}, Parameters{});
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index b05b24b..2e8c48d 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -2988,6 +2988,15 @@ template <typename Mode, typename... Ts, size_t Id, size_t Counter> static const
 	return pcre_context<ctll::list<mode_switch<Mode>, Ts...>, pcre_parameters<Counter-1>>{};
 }
 
+// more letters in one switch are a sequence of switches
+template <typename Mode, typename Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<mode_switch<Previous>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<mode_switch<Previous>, mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
+template <typename Mode, typename... Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<sequence<Previous...>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<Previous..., mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
 // catch a semantic action into mode
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::mode_case_insensitive mode, ctll::term<V>,pcre_context<ctll::list<Ts...>, Parameters>) {
 	return apply_mode(mode, ctll::list<Ts...>{}, Parameters{});
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 6dd5fd6..e8cb642 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -2985,6 +2985,15 @@ template <typename Mode, typename... Ts, size_t Id, size_t Counter> static const
 	return pcre_context<ctll::list<mode_switch<Mode>, Ts...>, pcre_parameters<Counter-1>>{};
 }
 
+// more letters in one switch are a sequence of switches
+template <typename Mode, typename Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<mode_switch<Previous>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<mode_switch<Previous>, mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
+template <typename Mode, typename... Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<sequence<Previous...>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<Previous..., mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
 // catch a semantic action into mode
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::mode_case_insensitive mode, ctll::term<V>,pcre_context<ctll::list<Ts...>, Parameters>) {
 	return apply_mode(mode, ctll::list<Ts...>{}, Parameters{});
-- 
2.43.0


From 76368d679e664f73011f4d8b102a11d7ce71a227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:53 +0000
Subject: [PATCH 28/49] fix: lazy repetitions do not read behind the end of an
 UTF-8 subject

---
 include/ctre/evaluation.hpp    | 8 +++-----
 single-header/ctre-unicode.hpp | 8 +++-----
 single-header/ctre.hpp         | 8 +++-----
 3 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 3ba26ec..6709168 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -298,15 +298,13 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		
 			if (!inner_result) return not_matched;
 		
-			auto outer_result = evaluate(begin, inner_result.get_end_position(), last, consumed_something(f), inner_result.unmatch(), ctll::list<Tail...>());
+			captures = inner_result.unmatch();
+			current = inner_result.get_end_position();
 		
-			if (outer_result) {
+			if (auto outer_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>())) {
 				return outer_result;
 			}
 		
-			captures = inner_result.unmatch();
-			current = inner_result.get_end_position();
-		
 			++i;
 		}
 	
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 2e8c48d..c5db2aa 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -4944,15 +4944,13 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		
 			if (!inner_result) return not_matched;
 		
-			auto outer_result = evaluate(begin, inner_result.get_end_position(), last, consumed_something(f), inner_result.unmatch(), ctll::list<Tail...>());
+			captures = inner_result.unmatch();
+			current = inner_result.get_end_position();
 		
-			if (outer_result) {
+			if (auto outer_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>())) {
 				return outer_result;
 			}
 		
-			captures = inner_result.unmatch();
-			current = inner_result.get_end_position();
-		
 			++i;
 		}
 	
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index e8cb642..2605e41 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -4941,15 +4941,13 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		
 			if (!inner_result) return not_matched;
 		
-			auto outer_result = evaluate(begin, inner_result.get_end_position(), last, consumed_something(f), inner_result.unmatch(), ctll::list<Tail...>());
+			captures = inner_result.unmatch();
+			current = inner_result.get_end_position();
 		
-			if (outer_result) {
+			if (auto outer_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>())) {
 				return outer_result;
 			}
 		
-			captures = inner_result.unmatch();
-			current = inner_result.get_end_position();
-		
 			++i;
 		}
 	
-- 
2.43.0


From 5ffed6552ce864203deed4bdd0fc454acfc1b9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:40 +0000
Subject: [PATCH 29/49] fix: atomic groups compile with an UTF-8 subject

---
 include/ctre/evaluation.hpp    | 3 ++-
 single-header/ctre-unicode.hpp | 3 ++-
 single-header/ctre.hpp         | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 6709168..82018ef 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -577,7 +577,8 @@ template <typename...> constexpr auto dependent_false = false;
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename... Content, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<atomic_group<Content...>, Tail...>) noexcept {
 	if (auto inner_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Content..., end_cycle_mark>())) {
-		const Iterator inner_end = inner_result.get_end_position();
+		Iterator inner_end = current;
+		inner_end = inner_result.get_end_position();
 		return evaluate(begin, inner_end, last, consumed_something(f, inner_end != current), inner_result.unmatch(), ctll::list<Tail...>());
 	} else {
 		return not_matched;
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index c5db2aa..6f56202 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -5221,7 +5221,8 @@ template <typename...> constexpr auto dependent_false = false;
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename... Content, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<atomic_group<Content...>, Tail...>) noexcept {
 	if (auto inner_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Content..., end_cycle_mark>())) {
-		const Iterator inner_end = inner_result.get_end_position();
+		Iterator inner_end = current;
+		inner_end = inner_result.get_end_position();
 		return evaluate(begin, inner_end, last, consumed_something(f, inner_end != current), inner_result.unmatch(), ctll::list<Tail...>());
 	} else {
 		return not_matched;
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 2605e41..1a3c827 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -5218,7 +5218,8 @@ template <typename...> constexpr auto dependent_false = false;
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename... Content, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<atomic_group<Content...>, Tail...>) noexcept {
 	if (auto inner_result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Content..., end_cycle_mark>())) {
-		const Iterator inner_end = inner_result.get_end_position();
+		Iterator inner_end = current;
+		inner_end = inner_result.get_end_position();
 		return evaluate(begin, inner_end, last, consumed_something(f, inner_end != current), inner_result.unmatch(), ctll::list<Tail...>());
 	} else {
 		return not_matched;
-- 
2.43.0


From b09a1990c784e63c40009b15c16ec9c056a54c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 30/49] fix: lookup in unsorted tables of Unicode properties
 (\p{Pd} did not match '-')

---
 include/unicode-db/unicode-db.hpp | 15 +++++----------
 single-header/ctre-unicode.hpp    | 15 +++++----------
 single-header/unicode-db.hpp      | 15 +++++----------
 3 files changed, 15 insertions(+), 30 deletions(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index 385576b..23238d9 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -282,17 +282,12 @@ template<std::size_t size>
 struct flat_array {
     char32_t data[size];
     constexpr bool lookup(char32_t u) const {
-        if constexpr(size < 20) {
-            for(auto it = std::begin(data); it != std::end(data); ++it) {
-                if(*it == u)
-                    return true;
-                if(it == std::end(data))
-                    return false;
-            }
-            return false;
-        } else {
-            return detail::binary_search(std::begin(data), std::end(data), u);
+        // content of the tables is not sorted
+        for(auto it = std::begin(data); it != std::end(data); ++it) {
+            if(*it == u)
+                return true;
         }
+        return false;
     }
 };
 
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 6f56202..e70fd7d 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -6403,17 +6403,12 @@ template<std::size_t size>
 struct flat_array {
     char32_t data[size];
     constexpr bool lookup(char32_t u) const {
-        if constexpr(size < 20) {
-            for(auto it = std::begin(data); it != std::end(data); ++it) {
-                if(*it == u)
-                    return true;
-                if(it == std::end(data))
-                    return false;
-            }
-            return false;
-        } else {
-            return detail::binary_search(std::begin(data), std::end(data), u);
+        // content of the tables is not sorted
+        for(auto it = std::begin(data); it != std::end(data); ++it) {
+            if(*it == u)
+                return true;
         }
+        return false;
     }
 };
 
diff --git a/single-header/unicode-db.hpp b/single-header/unicode-db.hpp
index 385576b..23238d9 100644
--- a/single-header/unicode-db.hpp
+++ b/single-header/unicode-db.hpp
@@ -282,17 +282,12 @@ template<std::size_t size>
 struct flat_array {
     char32_t data[size];
     constexpr bool lookup(char32_t u) const {
-        if constexpr(size < 20) {
-            for(auto it = std::begin(data); it != std::end(data); ++it) {
-                if(*it == u)
-                    return true;
-                if(it == std::end(data))
-                    return false;
-            }
-            return false;
-        } else {
-            return detail::binary_search(std::begin(data), std::end(data), u);
+        // content of the tables is not sorted
+        for(auto it = std::begin(data); it != std::end(data); ++it) {
+            if(*it == u)
+                return true;
         }
+        return false;
     }
 };
 
-- 
2.43.0


From c63fbf801655ed9a6a434be51ebcff811f66defa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 31/49] fix: unknown values of Unicode properties are rejected,
 Script_Extensions is known

---
 include/ctre/actions/properties.inc.hpp | 4 ++--
 include/ctre/atoms_unicode.hpp          | 2 +-
 single-header/ctre-unicode.hpp          | 6 +++---
 single-header/ctre.hpp                  | 6 +++---
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/ctre/actions/properties.inc.hpp b/include/ctre/actions/properties.inc.hpp
index 05f7e80..e483f36 100644
--- a/include/ctre/actions/properties.inc.hpp
+++ b/include/ctre/actions/properties.inc.hpp
@@ -37,7 +37,7 @@ template <auto V, auto... Value, auto... Name, typename... Ts, typename Paramete
 	//return ctll::reject{};
 	constexpr auto prop = property_builder<Name...>::template get<Value...>();
 
-	if constexpr (std::is_same_v<decltype(prop), ctll::reject>) {
+	if constexpr (std::is_same_v<std::remove_const_t<decltype(prop)>, ctll::reject>) {
 		return ctll::reject{};
 	} else {
 		return pcre_context{ctll::push_front(prop, ctll::list<Ts...>()), subject.parameters};
@@ -63,7 +63,7 @@ template <auto V, auto... Value, auto... Name, typename... Ts, typename Paramete
 	//return ctll::reject{};
 	constexpr auto prop = property_builder<Name...>::template get<Value...>();
 
-	if constexpr (std::is_same_v<decltype(prop), ctll::reject>) {
+	if constexpr (std::is_same_v<std::remove_const_t<decltype(prop)>, ctll::reject>) {
 		return ctll::reject{};
 	} else {
 		return pcre_context{ctll::push_front(negate<decltype(prop)>(), ctll::list<Ts...>()), subject.parameters};
diff --git a/include/ctre/atoms_unicode.hpp b/include/ctre/atoms_unicode.hpp
index 7e6ec8b..fe642a9 100644
--- a/include/ctre/atoms_unicode.hpp
+++ b/include/ctre/atoms_unicode.hpp
@@ -74,7 +74,7 @@ constexpr property_type property_type_from_name(std::string_view str) noexcept {
 	using namespace std::string_view_literals;
 	if (uni::detail::propnamecomp(str, "script"sv) == 0 || uni::detail::propnamecomp(str, "sc"sv) == 0) {
 		return property_type::script;
-	} else if (uni::detail::propnamecomp(str, "script_extension"sv) == 0 || uni::detail::propnamecomp(str, "scx"sv) == 0) {
+	} else if (uni::detail::propnamecomp(str, "script_extension"sv) == 0 || uni::detail::propnamecomp(str, "script_extensions"sv) == 0 || uni::detail::propnamecomp(str, "scx"sv) == 0) {
 		return property_type::script_extension;
 	} else if (uni::detail::propnamecomp(str, "age"sv) == 0) {
 		return property_type::age;
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index e70fd7d..5ac0d9f 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -1947,7 +1947,7 @@ constexpr property_type property_type_from_name(std::string_view str) noexcept {
 	using namespace std::string_view_literals;
 	if (uni::detail::propnamecomp(str, "script"sv) == 0 || uni::detail::propnamecomp(str, "sc"sv) == 0) {
 		return property_type::script;
-	} else if (uni::detail::propnamecomp(str, "script_extension"sv) == 0 || uni::detail::propnamecomp(str, "scx"sv) == 0) {
+	} else if (uni::detail::propnamecomp(str, "script_extension"sv) == 0 || uni::detail::propnamecomp(str, "script_extensions"sv) == 0 || uni::detail::propnamecomp(str, "scx"sv) == 0) {
 		return property_type::script_extension;
 	} else if (uni::detail::propnamecomp(str, "age"sv) == 0) {
 		return property_type::age;
@@ -2748,7 +2748,7 @@ template <auto V, auto... Value, auto... Name, typename... Ts, typename Paramete
 	//return ctll::reject{};
 	constexpr auto prop = property_builder<Name...>::template get<Value...>();
 
-	if constexpr (std::is_same_v<decltype(prop), ctll::reject>) {
+	if constexpr (std::is_same_v<std::remove_const_t<decltype(prop)>, ctll::reject>) {
 		return ctll::reject{};
 	} else {
 		return pcre_context{ctll::push_front(prop, ctll::list<Ts...>()), subject.parameters};
@@ -2773,7 +2773,7 @@ template <auto V, auto... Value, auto... Name, typename... Ts, typename Paramete
 	//return ctll::reject{};
 	constexpr auto prop = property_builder<Name...>::template get<Value...>();
 
-	if constexpr (std::is_same_v<decltype(prop), ctll::reject>) {
+	if constexpr (std::is_same_v<std::remove_const_t<decltype(prop)>, ctll::reject>) {
 		return ctll::reject{};
 	} else {
 		return pcre_context{ctll::push_front(negate<decltype(prop)>(), ctll::list<Ts...>()), subject.parameters};
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 1a3c827..184f9b5 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -1944,7 +1944,7 @@ constexpr property_type property_type_from_name(std::string_view str) noexcept {
 	using namespace std::string_view_literals;
 	if (uni::detail::propnamecomp(str, "script"sv) == 0 || uni::detail::propnamecomp(str, "sc"sv) == 0) {
 		return property_type::script;
-	} else if (uni::detail::propnamecomp(str, "script_extension"sv) == 0 || uni::detail::propnamecomp(str, "scx"sv) == 0) {
+	} else if (uni::detail::propnamecomp(str, "script_extension"sv) == 0 || uni::detail::propnamecomp(str, "script_extensions"sv) == 0 || uni::detail::propnamecomp(str, "scx"sv) == 0) {
 		return property_type::script_extension;
 	} else if (uni::detail::propnamecomp(str, "age"sv) == 0) {
 		return property_type::age;
@@ -2745,7 +2745,7 @@ template <auto V, auto... Value, auto... Name, typename... Ts, typename Paramete
 	//return ctll::reject{};
 	constexpr auto prop = property_builder<Name...>::template get<Value...>();
 
-	if constexpr (std::is_same_v<decltype(prop), ctll::reject>) {
+	if constexpr (std::is_same_v<std::remove_const_t<decltype(prop)>, ctll::reject>) {
 		return ctll::reject{};
 	} else {
 		return pcre_context{ctll::push_front(prop, ctll::list<Ts...>()), subject.parameters};
@@ -2770,7 +2770,7 @@ template <auto V, auto... Value, auto... Name, typename... Ts, typename Paramete
 	//return ctll::reject{};
 	constexpr auto prop = property_builder<Name...>::template get<Value...>();
 
-	if constexpr (std::is_same_v<decltype(prop), ctll::reject>) {
+	if constexpr (std::is_same_v<std::remove_const_t<decltype(prop)>, ctll::reject>) {
 		return ctll::reject{};
 	} else {
 		return pcre_context{ctll::push_front(negate<decltype(prop)>(), ctll::list<Ts...>()), subject.parameters};
-- 
2.43.0


From 60e7bc30b2274458171511a39066df021da06c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 32/49] fix: \p{Age=..} does not match unassigned code points
 and knows noncharacters

---
 include/ctre/atoms_unicode.hpp    | 3 ++-
 include/unicode-db/unicode-db.hpp | 5 +++++
 single-header/ctre-unicode.hpp    | 8 +++++++-
 single-header/ctre.hpp            | 3 ++-
 single-header/unicode-db.hpp      | 5 +++++
 5 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/ctre/atoms_unicode.hpp b/include/ctre/atoms_unicode.hpp
index fe642a9..316bc80 100644
--- a/include/ctre/atoms_unicode.hpp
+++ b/include/ctre/atoms_unicode.hpp
@@ -57,7 +57,8 @@ template <uni::script Script> struct property<property_type, property_type::scri
 
 template <uni::version Age> struct binary_property<uni::version, Age> {
 	template <typename CharT> inline static constexpr bool match_char(CharT c, const flags &) noexcept {
-		return uni::cp_age(c) <= Age;
+		const auto age = uni::cp_age(c);
+		return !uni::detail::is_unassigned(age) && age <= Age;
 	}
 };
 
diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index 23238d9..359cc52 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -7360,6 +7360,11 @@ constexpr script_extensions_view cp_script_extensions(char32_t cp) {
 }
 
 constexpr version cp_age(char32_t cp) {
+    // noncharacters are not in the table
+    if((cp & 0xFFFE) == 0xFFFE)
+        return cp <= 0xFFFF ? version::v1_1 : version::v2_0;
+    if(cp >= 0xFDD0 && cp <= 0xFDEF)
+        return version::v3_1;
     return static_cast<version>(detail::tables::age_data.value(cp, uint8_t(version::unassigned)));
 }
 
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 5ac0d9f..a30662a 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -1930,7 +1930,8 @@ template <uni::script Script> struct property<property_type, property_type::scri
 
 template <uni::version Age> struct binary_property<uni::version, Age> {
 	template <typename CharT> inline static constexpr bool match_char(CharT c, const flags &) noexcept {
-		return uni::cp_age(c) <= Age;
+		const auto age = uni::cp_age(c);
+		return !uni::detail::is_unassigned(age) && age <= Age;
 	}
 };
 
@@ -13481,6 +13482,11 @@ constexpr script_extensions_view cp_script_extensions(char32_t cp) {
 }
 
 constexpr version cp_age(char32_t cp) {
+    // noncharacters are not in the table
+    if((cp & 0xFFFE) == 0xFFFE)
+        return cp <= 0xFFFF ? version::v1_1 : version::v2_0;
+    if(cp >= 0xFDD0 && cp <= 0xFDEF)
+        return version::v3_1;
     return static_cast<version>(detail::tables::age_data.value(cp, uint8_t(version::unassigned)));
 }
 
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 184f9b5..88299e7 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -1927,7 +1927,8 @@ template <uni::script Script> struct property<property_type, property_type::scri
 
 template <uni::version Age> struct binary_property<uni::version, Age> {
 	template <typename CharT> inline static constexpr bool match_char(CharT c, const flags &) noexcept {
-		return uni::cp_age(c) <= Age;
+		const auto age = uni::cp_age(c);
+		return !uni::detail::is_unassigned(age) && age <= Age;
 	}
 };
 
diff --git a/single-header/unicode-db.hpp b/single-header/unicode-db.hpp
index 23238d9..359cc52 100644
--- a/single-header/unicode-db.hpp
+++ b/single-header/unicode-db.hpp
@@ -7360,6 +7360,11 @@ constexpr script_extensions_view cp_script_extensions(char32_t cp) {
 }
 
 constexpr version cp_age(char32_t cp) {
+    // noncharacters are not in the table
+    if((cp & 0xFFFE) == 0xFFFE)
+        return cp <= 0xFFFF ? version::v1_1 : version::v2_0;
+    if(cp >= 0xFDD0 && cp <= 0xFDEF)
+        return version::v3_1;
     return static_cast<version>(detail::tables::age_data.value(cp, uint8_t(version::unassigned)));
 }
 
-- 
2.43.0


From 11b94650556e177d2d7f5419d59aa92ca2238c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 33/49] fix: general category C contains unassigned code points

---
 include/unicode-db/unicode-db.hpp | 2 +-
 single-header/ctre-unicode.hpp    | 2 +-
 single-header/unicode-db.hpp      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index 359cc52..ecb0a17 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -3190,7 +3190,7 @@ constexpr bool cp_category_is<category::other>(char32_t c) {
         return true;
     if(detail::tables::cat_cc.lookup(c))
         return true;
-    return false;
+    return cp_category(c) == category::unassigned;
 }
 template<>
 constexpr bool cp_category_is<category::unassigned>(char32_t c) {
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index a30662a..a9f78cf 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -9312,7 +9312,7 @@ constexpr bool cp_category_is<category::other>(char32_t c) {
         return true;
     if(detail::tables::cat_cc.lookup(c))
         return true;
-    return false;
+    return cp_category(c) == category::unassigned;
 }
 template<>
 constexpr bool cp_category_is<category::unassigned>(char32_t c) {
diff --git a/single-header/unicode-db.hpp b/single-header/unicode-db.hpp
index 359cc52..ecb0a17 100644
--- a/single-header/unicode-db.hpp
+++ b/single-header/unicode-db.hpp
@@ -3190,7 +3190,7 @@ constexpr bool cp_category_is<category::other>(char32_t c) {
         return true;
     if(detail::tables::cat_cc.lookup(c))
         return true;
-    return false;
+    return cp_category(c) == category::unassigned;
 }
 template<>
 constexpr bool cp_category_is<category::unassigned>(char32_t c) {
-- 
2.43.0


From 46631da823b54e71ccaaadbd2f2d60de6af3bf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 34/49] fix: \p{Assigned} contains surrogates and private use
 code points

---
 include/unicode-db/unicode-db.hpp | 4 +++-
 single-header/ctre-unicode.hpp    | 4 +++-
 single-header/unicode-db.hpp      | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index ecb0a17..f3477b4 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -7438,7 +7438,9 @@ constexpr bool cp_is_valid(char32_t cp) {
     return char32_t(cp) <= 0x10FFFF;
 }
 constexpr bool cp_is_assigned(char32_t cp) {
-    return detail::tables::prop_assigned.lookup(char32_t(cp));
+    return detail::tables::prop_assigned.lookup(char32_t(cp)) ||
+           detail::tables::cat_co.lookup(char32_t(cp)) ||
+           detail::tables::cat_cs.lookup(char32_t(cp));
 }
 
 constexpr bool cp_is_ascii(char32_t cp) {
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index a9f78cf..683767a 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -13560,7 +13560,9 @@ constexpr bool cp_is_valid(char32_t cp) {
     return char32_t(cp) <= 0x10FFFF;
 }
 constexpr bool cp_is_assigned(char32_t cp) {
-    return detail::tables::prop_assigned.lookup(char32_t(cp));
+    return detail::tables::prop_assigned.lookup(char32_t(cp)) ||
+           detail::tables::cat_co.lookup(char32_t(cp)) ||
+           detail::tables::cat_cs.lookup(char32_t(cp));
 }
 
 constexpr bool cp_is_ascii(char32_t cp) {
diff --git a/single-header/unicode-db.hpp b/single-header/unicode-db.hpp
index ecb0a17..f3477b4 100644
--- a/single-header/unicode-db.hpp
+++ b/single-header/unicode-db.hpp
@@ -7438,7 +7438,9 @@ constexpr bool cp_is_valid(char32_t cp) {
     return char32_t(cp) <= 0x10FFFF;
 }
 constexpr bool cp_is_assigned(char32_t cp) {
-    return detail::tables::prop_assigned.lookup(char32_t(cp));
+    return detail::tables::prop_assigned.lookup(char32_t(cp)) ||
+           detail::tables::cat_co.lookup(char32_t(cp)) ||
+           detail::tables::cat_cs.lookup(char32_t(cp));
 }
 
 constexpr bool cp_is_ascii(char32_t cp) {
-- 
2.43.0


From f964cd65e0ea11790133e246f3254b9e443e98d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 35/49] fix: implement Case_Ignorable

---
 include/unicode-db/unicode-db.hpp | 15 +++++++++++++--
 single-header/ctre-unicode.hpp    | 15 +++++++++++++--
 single-header/unicode-db.hpp      | 15 +++++++++++++--
 3 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index f3477b4..fa424bc 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -7422,8 +7422,19 @@ constexpr bool cp_property_is<property::math>(char32_t cp) {
 
 // http://unicode.org/reports/tr44/#Case_Ignorable
 template<>
-constexpr bool cp_property_is<property::case_ignorable>(char32_t) {
-    return false;
+constexpr bool cp_property_is<property::case_ignorable>(char32_t cp) {
+    switch(cp) {
+        // Word_Break is MidLetter, MidNumLet or Single_Quote
+        case 0x0027: case 0x002E: case 0x003A: case 0x00B7: case 0x0387: case 0x055F:
+        case 0x05F4: case 0x2018: case 0x2019: case 0x2024: case 0x2027: case 0xFE13:
+        case 0xFE52: case 0xFE55: case 0xFF07: case 0xFF0E: case 0xFF1A:
+            return true;
+        default:
+            break;
+    }
+    return detail::tables::cat_mn.lookup(cp) || detail::tables::cat_me.lookup(cp) ||
+           detail::tables::cat_cf.lookup(cp) || detail::tables::cat_lm.lookup(cp) ||
+           detail::tables::cat_sk.lookup(cp);
 }
 
 // http://unicode.org/reports/tr44/#Grapheme_Extend
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 683767a..9178e6d 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -13544,8 +13544,19 @@ constexpr bool cp_property_is<property::math>(char32_t cp) {
 
 // http://unicode.org/reports/tr44/#Case_Ignorable
 template<>
-constexpr bool cp_property_is<property::case_ignorable>(char32_t) {
-    return false;
+constexpr bool cp_property_is<property::case_ignorable>(char32_t cp) {
+    switch(cp) {
+        // Word_Break is MidLetter, MidNumLet or Single_Quote
+        case 0x0027: case 0x002E: case 0x003A: case 0x00B7: case 0x0387: case 0x055F:
+        case 0x05F4: case 0x2018: case 0x2019: case 0x2024: case 0x2027: case 0xFE13:
+        case 0xFE52: case 0xFE55: case 0xFF07: case 0xFF0E: case 0xFF1A:
+            return true;
+        default:
+            break;
+    }
+    return detail::tables::cat_mn.lookup(cp) || detail::tables::cat_me.lookup(cp) ||
+           detail::tables::cat_cf.lookup(cp) || detail::tables::cat_lm.lookup(cp) ||
+           detail::tables::cat_sk.lookup(cp);
 }
 
 // http://unicode.org/reports/tr44/#Grapheme_Extend
diff --git a/single-header/unicode-db.hpp b/single-header/unicode-db.hpp
index f3477b4..fa424bc 100644
--- a/single-header/unicode-db.hpp
+++ b/single-header/unicode-db.hpp
@@ -7422,8 +7422,19 @@ constexpr bool cp_property_is<property::math>(char32_t cp) {
 
 // http://unicode.org/reports/tr44/#Case_Ignorable
 template<>
-constexpr bool cp_property_is<property::case_ignorable>(char32_t) {
-    return false;
+constexpr bool cp_property_is<property::case_ignorable>(char32_t cp) {
+    switch(cp) {
+        // Word_Break is MidLetter, MidNumLet or Single_Quote
+        case 0x0027: case 0x002E: case 0x003A: case 0x00B7: case 0x0387: case 0x055F:
+        case 0x05F4: case 0x2018: case 0x2019: case 0x2024: case 0x2027: case 0xFE13:
+        case 0xFE52: case 0xFE55: case 0xFF07: case 0xFF0E: case 0xFF1A:
+            return true;
+        default:
+            break;
+    }
+    return detail::tables::cat_mn.lookup(cp) || detail::tables::cat_me.lookup(cp) ||
+           detail::tables::cat_cf.lookup(cp) || detail::tables::cat_lm.lookup(cp) ||
+           detail::tables::cat_sk.lookup(cp);
 }
 
 // http://unicode.org/reports/tr44/#Grapheme_Extend
-- 
2.43.0


From 0dae839ebc30f9ed6218a8e9ea2c59b4d112e230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 36/49] fix: reserved code points have
 Default_Ignorable_Code_Point, Pattern_Syntax and Extended_Pictographic

---
 include/unicode-db/unicode-db.hpp | 28 ++++++++++++++++++++++++++--
 single-header/ctre-unicode.hpp    | 28 ++++++++++++++++++++++++++--
 single-header/unicode-db.hpp      | 28 ++++++++++++++++++++++++++--
 3 files changed, 78 insertions(+), 6 deletions(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index fa424bc..0ed9081 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -5880,6 +5880,19 @@ namespace detail::tables {
         0x00000000, 0x00002301, 0x00002400, 0x00002A01, 0x00002B00, 0x00003001, 0x00003A00,
         0x00200D01, 0x00200E00, 0x0020E301, 0x0020E400, 0x00FE0F01, 0x00FE1000, 0x01F1E601,
         0x01F20000, 0x01F3FB01, 0x01F40000, 0x01F9B001, 0x01F9B400, 0x0E002001, 0x0E008000};
+    // unassigned code points with this property
+    static constexpr range_array prop_extended_pictographic_reserved_data = {
+        0x00000000, 0x01F02C01, 0x01F03000, 0x01F09401, 0x01F0A000, 0x01F0AF01, 0x01F0B100,
+        0x01F0C001, 0x01F0C100, 0x01F0D001, 0x01F0D100, 0x01F0F601, 0x01F10000, 0x01F1AE01,
+        0x01F1E600, 0x01F20301, 0x01F21000, 0x01F23C01, 0x01F24000, 0x01F24901, 0x01F25000,
+        0x01F25201, 0x01F26000, 0x01F26601, 0x01F30000, 0x01F6D801, 0x01F6DD00, 0x01F6ED01,
+        0x01F6F000, 0x01F6FD01, 0x01F70000, 0x01F77401, 0x01F78000, 0x01F7D901, 0x01F7E000,
+        0x01F7EC01, 0x01F7F000, 0x01F7F101, 0x01F80000, 0x01F80C01, 0x01F81000, 0x01F84801,
+        0x01F85000, 0x01F85A01, 0x01F86000, 0x01F88801, 0x01F89000, 0x01F8AE01, 0x01F8B000,
+        0x01F8B201, 0x01F90000, 0x01FA5401, 0x01FA6000, 0x01FA6E01, 0x01FA7000, 0x01FA7501,
+        0x01FA7800, 0x01FA7D01, 0x01FA8000, 0x01FA8701, 0x01FA9000, 0x01FAAD01, 0x01FAB000,
+        0x01FABB01, 0x01FAC000, 0x01FAC601, 0x01FAD000, 0x01FADA01, 0x01FAE000, 0x01FAE801,
+        0x01FAF000, 0x01FAF701, 0x01FB0000, 0x01FC0001, 0x01FFFE00};
     static constexpr range_array prop_emoji_modifier_data = {0x00000000, 0x01F3FB01, 0x01F40000};
     static constexpr bool_trie<0, 5, 120, 867, 4, 1, 15, 240, 30, 78, 20, 15>
         prop_emoji_modifier_base_data{
@@ -6421,6 +6434,10 @@ namespace detail::tables {
     static constexpr range_array prop_oupper_data = {0x00000000, 0x00216001, 0x00217000, 0x0024B601,
                                                      0x0024D000, 0x01F13001, 0x01F14A00, 0x01F15001,
                                                      0x01F16A00, 0x01F17001, 0x01F18A00};
+    // unassigned code points with this property
+    static constexpr range_array prop_pat_syn_reserved_data = {
+        0x00000000, 0x00242701, 0x00244000, 0x00244B01, 0x00246000, 0x002B7401, 0x002B7600,
+        0x002B9601, 0x002B9700, 0x002E5E01, 0x002E8000};
     static constexpr bool_trie<32, 890, 96, 6, 15, 0, 0, 0, 0, 0, 0, 0> prop_pat_syn_data{
         {0xfc00fffe00000000, 0x7800000178000001, 0x88435afe00000000, 0x0080000000800000,
          0x0000000000000000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000,
@@ -7152,7 +7169,8 @@ constexpr bool cp_property_is<property::ext>(char32_t c) {
 }
 template<>
 constexpr bool cp_property_is<property::extended_pictographic>(char32_t c) {
-    return detail::tables::prop_extended_pictographic_data.lookup(c);
+    return detail::tables::prop_extended_pictographic_data.lookup(c) ||
+           detail::tables::prop_extended_pictographic_reserved_data.lookup(c);
 }
 template<>
 constexpr bool cp_property_is<property::gr_base>(char32_t c) {
@@ -7184,7 +7202,8 @@ constexpr bool cp_property_is<property::loe>(char32_t c) {
 }
 template<>
 constexpr bool cp_property_is<property::pat_syn>(char32_t c) {
-    return detail::tables::prop_pat_syn_data.lookup(c);
+    return detail::tables::prop_pat_syn_data.lookup(c) ||
+           detail::tables::prop_pat_syn_reserved_data.lookup(c);
 }
 template<>
 constexpr bool cp_property_is<property::pat_ws>(char32_t c) {
@@ -7461,6 +7480,11 @@ constexpr bool cp_is_ascii(char32_t cp) {
 template<>
 constexpr bool cp_property_is<property::default_ignorable_code_point>(char32_t cp) {
     const auto c = char32_t(cp);
+    // unassigned code points which are reserved for ignorable characters
+    if(c == 0x2065 || (c >= 0xFFF0 && c <= 0xFFF8) || c == 0xE0000 || (c >= 0xE0002 && c <= 0xE001F) ||
+       (c >= 0xE0080 && c <= 0xE00FF) || (c >= 0xE01F0 && c <= 0xE0FFF)) {
+        return true;
+    }
     const bool maybe = detail::tables::prop_odi_data.lookup(cp) ||
                        detail::tables::cat_cf.lookup(cp) || detail::tables::prop_vs_data.lookup(cp);
     if(!maybe)
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 9178e6d..df25a64 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -12002,6 +12002,19 @@ namespace detail::tables {
         0x00000000, 0x00002301, 0x00002400, 0x00002A01, 0x00002B00, 0x00003001, 0x00003A00,
         0x00200D01, 0x00200E00, 0x0020E301, 0x0020E400, 0x00FE0F01, 0x00FE1000, 0x01F1E601,
         0x01F20000, 0x01F3FB01, 0x01F40000, 0x01F9B001, 0x01F9B400, 0x0E002001, 0x0E008000};
+    // unassigned code points with this property
+    static constexpr range_array prop_extended_pictographic_reserved_data = {
+        0x00000000, 0x01F02C01, 0x01F03000, 0x01F09401, 0x01F0A000, 0x01F0AF01, 0x01F0B100,
+        0x01F0C001, 0x01F0C100, 0x01F0D001, 0x01F0D100, 0x01F0F601, 0x01F10000, 0x01F1AE01,
+        0x01F1E600, 0x01F20301, 0x01F21000, 0x01F23C01, 0x01F24000, 0x01F24901, 0x01F25000,
+        0x01F25201, 0x01F26000, 0x01F26601, 0x01F30000, 0x01F6D801, 0x01F6DD00, 0x01F6ED01,
+        0x01F6F000, 0x01F6FD01, 0x01F70000, 0x01F77401, 0x01F78000, 0x01F7D901, 0x01F7E000,
+        0x01F7EC01, 0x01F7F000, 0x01F7F101, 0x01F80000, 0x01F80C01, 0x01F81000, 0x01F84801,
+        0x01F85000, 0x01F85A01, 0x01F86000, 0x01F88801, 0x01F89000, 0x01F8AE01, 0x01F8B000,
+        0x01F8B201, 0x01F90000, 0x01FA5401, 0x01FA6000, 0x01FA6E01, 0x01FA7000, 0x01FA7501,
+        0x01FA7800, 0x01FA7D01, 0x01FA8000, 0x01FA8701, 0x01FA9000, 0x01FAAD01, 0x01FAB000,
+        0x01FABB01, 0x01FAC000, 0x01FAC601, 0x01FAD000, 0x01FADA01, 0x01FAE000, 0x01FAE801,
+        0x01FAF000, 0x01FAF701, 0x01FB0000, 0x01FC0001, 0x01FFFE00};
     static constexpr range_array prop_emoji_modifier_data = {0x00000000, 0x01F3FB01, 0x01F40000};
     static constexpr bool_trie<0, 5, 120, 867, 4, 1, 15, 240, 30, 78, 20, 15>
         prop_emoji_modifier_base_data{
@@ -12543,6 +12556,10 @@ namespace detail::tables {
     static constexpr range_array prop_oupper_data = {0x00000000, 0x00216001, 0x00217000, 0x0024B601,
                                                      0x0024D000, 0x01F13001, 0x01F14A00, 0x01F15001,
                                                      0x01F16A00, 0x01F17001, 0x01F18A00};
+    // unassigned code points with this property
+    static constexpr range_array prop_pat_syn_reserved_data = {
+        0x00000000, 0x00242701, 0x00244000, 0x00244B01, 0x00246000, 0x002B7401, 0x002B7600,
+        0x002B9601, 0x002B9700, 0x002E5E01, 0x002E8000};
     static constexpr bool_trie<32, 890, 96, 6, 15, 0, 0, 0, 0, 0, 0, 0> prop_pat_syn_data{
         {0xfc00fffe00000000, 0x7800000178000001, 0x88435afe00000000, 0x0080000000800000,
          0x0000000000000000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000,
@@ -13274,7 +13291,8 @@ constexpr bool cp_property_is<property::ext>(char32_t c) {
 }
 template<>
 constexpr bool cp_property_is<property::extended_pictographic>(char32_t c) {
-    return detail::tables::prop_extended_pictographic_data.lookup(c);
+    return detail::tables::prop_extended_pictographic_data.lookup(c) ||
+           detail::tables::prop_extended_pictographic_reserved_data.lookup(c);
 }
 template<>
 constexpr bool cp_property_is<property::gr_base>(char32_t c) {
@@ -13306,7 +13324,8 @@ constexpr bool cp_property_is<property::loe>(char32_t c) {
 }
 template<>
 constexpr bool cp_property_is<property::pat_syn>(char32_t c) {
-    return detail::tables::prop_pat_syn_data.lookup(c);
+    return detail::tables::prop_pat_syn_data.lookup(c) ||
+           detail::tables::prop_pat_syn_reserved_data.lookup(c);
 }
 template<>
 constexpr bool cp_property_is<property::pat_ws>(char32_t c) {
@@ -13583,6 +13602,11 @@ constexpr bool cp_is_ascii(char32_t cp) {
 template<>
 constexpr bool cp_property_is<property::default_ignorable_code_point>(char32_t cp) {
     const auto c = char32_t(cp);
+    // unassigned code points which are reserved for ignorable characters
+    if(c == 0x2065 || (c >= 0xFFF0 && c <= 0xFFF8) || c == 0xE0000 || (c >= 0xE0002 && c <= 0xE001F) ||
+       (c >= 0xE0080 && c <= 0xE00FF) || (c >= 0xE01F0 && c <= 0xE0FFF)) {
+        return true;
+    }
     const bool maybe = detail::tables::prop_odi_data.lookup(cp) ||
                        detail::tables::cat_cf.lookup(cp) || detail::tables::prop_vs_data.lookup(cp);
     if(!maybe)
diff --git a/single-header/unicode-db.hpp b/single-header/unicode-db.hpp
index fa424bc..0ed9081 100644
--- a/single-header/unicode-db.hpp
+++ b/single-header/unicode-db.hpp
@@ -5880,6 +5880,19 @@ namespace detail::tables {
         0x00000000, 0x00002301, 0x00002400, 0x00002A01, 0x00002B00, 0x00003001, 0x00003A00,
         0x00200D01, 0x00200E00, 0x0020E301, 0x0020E400, 0x00FE0F01, 0x00FE1000, 0x01F1E601,
         0x01F20000, 0x01F3FB01, 0x01F40000, 0x01F9B001, 0x01F9B400, 0x0E002001, 0x0E008000};
+    // unassigned code points with this property
+    static constexpr range_array prop_extended_pictographic_reserved_data = {
+        0x00000000, 0x01F02C01, 0x01F03000, 0x01F09401, 0x01F0A000, 0x01F0AF01, 0x01F0B100,
+        0x01F0C001, 0x01F0C100, 0x01F0D001, 0x01F0D100, 0x01F0F601, 0x01F10000, 0x01F1AE01,
+        0x01F1E600, 0x01F20301, 0x01F21000, 0x01F23C01, 0x01F24000, 0x01F24901, 0x01F25000,
+        0x01F25201, 0x01F26000, 0x01F26601, 0x01F30000, 0x01F6D801, 0x01F6DD00, 0x01F6ED01,
+        0x01F6F000, 0x01F6FD01, 0x01F70000, 0x01F77401, 0x01F78000, 0x01F7D901, 0x01F7E000,
+        0x01F7EC01, 0x01F7F000, 0x01F7F101, 0x01F80000, 0x01F80C01, 0x01F81000, 0x01F84801,
+        0x01F85000, 0x01F85A01, 0x01F86000, 0x01F88801, 0x01F89000, 0x01F8AE01, 0x01F8B000,
+        0x01F8B201, 0x01F90000, 0x01FA5401, 0x01FA6000, 0x01FA6E01, 0x01FA7000, 0x01FA7501,
+        0x01FA7800, 0x01FA7D01, 0x01FA8000, 0x01FA8701, 0x01FA9000, 0x01FAAD01, 0x01FAB000,
+        0x01FABB01, 0x01FAC000, 0x01FAC601, 0x01FAD000, 0x01FADA01, 0x01FAE000, 0x01FAE801,
+        0x01FAF000, 0x01FAF701, 0x01FB0000, 0x01FC0001, 0x01FFFE00};
     static constexpr range_array prop_emoji_modifier_data = {0x00000000, 0x01F3FB01, 0x01F40000};
     static constexpr bool_trie<0, 5, 120, 867, 4, 1, 15, 240, 30, 78, 20, 15>
         prop_emoji_modifier_base_data{
@@ -6421,6 +6434,10 @@ namespace detail::tables {
     static constexpr range_array prop_oupper_data = {0x00000000, 0x00216001, 0x00217000, 0x0024B601,
                                                      0x0024D000, 0x01F13001, 0x01F14A00, 0x01F15001,
                                                      0x01F16A00, 0x01F17001, 0x01F18A00};
+    // unassigned code points with this property
+    static constexpr range_array prop_pat_syn_reserved_data = {
+        0x00000000, 0x00242701, 0x00244000, 0x00244B01, 0x00246000, 0x002B7401, 0x002B7600,
+        0x002B9601, 0x002B9700, 0x002E5E01, 0x002E8000};
     static constexpr bool_trie<32, 890, 96, 6, 15, 0, 0, 0, 0, 0, 0, 0> prop_pat_syn_data{
         {0xfc00fffe00000000, 0x7800000178000001, 0x88435afe00000000, 0x0080000000800000,
          0x0000000000000000, 0x0000000000000000, 0x0000000000000000, 0x0000000000000000,
@@ -7152,7 +7169,8 @@ constexpr bool cp_property_is<property::ext>(char32_t c) {
 }
 template<>
 constexpr bool cp_property_is<property::extended_pictographic>(char32_t c) {
-    return detail::tables::prop_extended_pictographic_data.lookup(c);
+    return detail::tables::prop_extended_pictographic_data.lookup(c) ||
+           detail::tables::prop_extended_pictographic_reserved_data.lookup(c);
 }
 template<>
 constexpr bool cp_property_is<property::gr_base>(char32_t c) {
@@ -7184,7 +7202,8 @@ constexpr bool cp_property_is<property::loe>(char32_t c) {
 }
 template<>
 constexpr bool cp_property_is<property::pat_syn>(char32_t c) {
-    return detail::tables::prop_pat_syn_data.lookup(c);
+    return detail::tables::prop_pat_syn_data.lookup(c) ||
+           detail::tables::prop_pat_syn_reserved_data.lookup(c);
 }
 template<>
 constexpr bool cp_property_is<property::pat_ws>(char32_t c) {
@@ -7461,6 +7480,11 @@ constexpr bool cp_is_ascii(char32_t cp) {
 template<>
 constexpr bool cp_property_is<property::default_ignorable_code_point>(char32_t cp) {
     const auto c = char32_t(cp);
+    // unassigned code points which are reserved for ignorable characters
+    if(c == 0x2065 || (c >= 0xFFF0 && c <= 0xFFF8) || c == 0xE0000 || (c >= 0xE0002 && c <= 0xE001F) ||
+       (c >= 0xE0080 && c <= 0xE00FF) || (c >= 0xE01F0 && c <= 0xE0FFF)) {
+        return true;
+    }
     const bool maybe = detail::tables::prop_odi_data.lookup(cp) ||
                        detail::tables::cat_cf.lookup(cp) || detail::tables::prop_vs_data.lookup(cp);
     if(!maybe)
-- 
2.43.0


From 147c440b5373c5ad663dffe3fcb1faa12c2f0737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 37/49] fix: a failed search is an empty range, not one from
 nowhere to the end of the subject

---
 include/ctre/wrapper.hpp       | 4 ++--
 single-header/ctre-unicode.hpp | 4 ++--
 single-header/ctre.hpp         | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ctre/wrapper.hpp b/include/ctre/wrapper.hpp
index b31becf..bfab263 100644
--- a/include/ctre/wrapper.hpp
+++ b/include/ctre/wrapper.hpp
@@ -95,8 +95,8 @@ struct search_method {
 		auto out = evaluate(orig_begin, it, end, Modifier{}, return_type<result_iterator, RE>{}, ctll::list<start_mark, RE, end_mark, accept>());
 
 		// ALERT: ugly hack
-		// propagate end even if it didn't match (this is needed for split function)
-		if (!out) out.set_end_mark(it);
+		// propagate end even if it didn't match (this is needed for split function), as an empty range
+		if (!out) out.set_start_mark(it).set_end_mark(it);
 		return out;
 	}
 
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index df25a64..f437af1 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -5678,8 +5678,8 @@ struct search_method {
 		auto out = evaluate(orig_begin, it, end, Modifier{}, return_type<result_iterator, RE>{}, ctll::list<start_mark, RE, end_mark, accept>());
 
 		// ALERT: ugly hack
-		// propagate end even if it didn't match (this is needed for split function)
-		if (!out) out.set_end_mark(it);
+		// propagate end even if it didn't match (this is needed for split function), as an empty range
+		if (!out) out.set_start_mark(it).set_end_mark(it);
 		return out;
 	}
 
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 88299e7..069b8bf 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -5675,8 +5675,8 @@ struct search_method {
 		auto out = evaluate(orig_begin, it, end, Modifier{}, return_type<result_iterator, RE>{}, ctll::list<start_mark, RE, end_mark, accept>());
 
 		// ALERT: ugly hack
-		// propagate end even if it didn't match (this is needed for split function)
-		if (!out) out.set_end_mark(it);
+		// propagate end even if it didn't match (this is needed for split function), as an empty range
+		if (!out) out.set_start_mark(it).set_end_mark(it);
 		return out;
 	}
 
-- 
2.43.0


From d50c843cee7aa40ef3090daa8bfa8a2f2a1fda0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 38/49] fix: an anchor inside of a named capture didn't end a
 search which can't match

---
 include/ctre/starts_with_anchor.hpp | 4 ++--
 single-header/ctre-unicode.hpp      | 4 ++--
 single-header/ctre.hpp              | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ctre/starts_with_anchor.hpp b/include/ctre/starts_with_anchor.hpp
index 70bd7aa..b605f30 100644
--- a/include/ctre/starts_with_anchor.hpp
+++ b/include/ctre/starts_with_anchor.hpp
@@ -82,8 +82,8 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<capture<Index, Seq
 	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
 }
 
-template <size_t Index, typename... Seq, typename... Content> 
-constexpr bool starts_with_anchor(const flags & f, ctll::list<capture_with_name<Index, Seq...>, Content...>) noexcept {
+template <size_t Index, typename Name, typename... Seq, typename... Content> 
+constexpr bool starts_with_anchor(const flags & f, ctll::list<capture_with_name<Index, Name, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
 	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
 }
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index f437af1..d30b510 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -3110,8 +3110,8 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<capture<Index, Seq
 	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
 }
 
-template <size_t Index, typename... Seq, typename... Content> 
-constexpr bool starts_with_anchor(const flags & f, ctll::list<capture_with_name<Index, Seq...>, Content...>) noexcept {
+template <size_t Index, typename Name, typename... Seq, typename... Content> 
+constexpr bool starts_with_anchor(const flags & f, ctll::list<capture_with_name<Index, Name, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
 	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
 }
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 069b8bf..8e5bda9 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -3107,8 +3107,8 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<capture<Index, Seq
 	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
 }
 
-template <size_t Index, typename... Seq, typename... Content> 
-constexpr bool starts_with_anchor(const flags & f, ctll::list<capture_with_name<Index, Seq...>, Content...>) noexcept {
+template <size_t Index, typename Name, typename... Seq, typename... Content> 
+constexpr bool starts_with_anchor(const flags & f, ctll::list<capture_with_name<Index, Name, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
 	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
 }
-- 
2.43.0


From 0a58facb3fc8f5b894ebea83b4443bc0ec5e3ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 39/49] fix: a range of subjects which is a temporary or has
 const strings didn't compile

---
 include/ctre/range.hpp         | 6 +++---
 single-header/ctre-unicode.hpp | 6 +++---
 single-header/ctre.hpp         | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/ctre/range.hpp b/include/ctre/range.hpp
index b75227f..1f26981 100644
--- a/include/ctre/range.hpp
+++ b/include/ctre/range.hpp
@@ -42,11 +42,11 @@ template <typename... Ts> constexpr bool is_range<regex_split_range<Ts...>> = tr
 template <typename Range, typename RE> struct multi_subject_range {
 	struct end_iterator { };
 	
-	using first_type = decltype(std::declval<Range>().begin());
-	using last_type = decltype(std::declval<Range>().end());
+	using first_type = decltype(std::declval<const Range &>().begin());
+	using last_type = decltype(std::declval<const Range &>().end());
 	
 	struct iterator {
-		using value_type = decltype(RE::exec(std::declval<typename std::iterator_traits<first_type>::value_type>()));
+		using value_type = decltype(RE::exec(*std::declval<first_type &>()));
 		using iterator_category = std::forward_iterator_tag;
 		using reference = const value_type &;
 		using pointer = const value_type *;
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index d30b510..8edd2c2 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -5482,11 +5482,11 @@ template <typename... Ts> constexpr bool is_range<regex_split_range<Ts...>> = tr
 template <typename Range, typename RE> struct multi_subject_range {
 	struct end_iterator { };
 	
-	using first_type = decltype(std::declval<Range>().begin());
-	using last_type = decltype(std::declval<Range>().end());
+	using first_type = decltype(std::declval<const Range &>().begin());
+	using last_type = decltype(std::declval<const Range &>().end());
 	
 	struct iterator {
-		using value_type = decltype(RE::exec(std::declval<typename std::iterator_traits<first_type>::value_type>()));
+		using value_type = decltype(RE::exec(*std::declval<first_type &>()));
 		using iterator_category = std::forward_iterator_tag;
 		using reference = const value_type &;
 		using pointer = const value_type *;
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 8e5bda9..9db0cb8 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -5479,11 +5479,11 @@ template <typename... Ts> constexpr bool is_range<regex_split_range<Ts...>> = tr
 template <typename Range, typename RE> struct multi_subject_range {
 	struct end_iterator { };
 	
-	using first_type = decltype(std::declval<Range>().begin());
-	using last_type = decltype(std::declval<Range>().end());
+	using first_type = decltype(std::declval<const Range &>().begin());
+	using last_type = decltype(std::declval<const Range &>().end());
 	
 	struct iterator {
-		using value_type = decltype(RE::exec(std::declval<typename std::iterator_traits<first_type>::value_type>()));
+		using value_type = decltype(RE::exec(*std::declval<first_type &>()));
 		using iterator_category = std::forward_iterator_tag;
 		using reference = const value_type &;
 		using pointer = const value_type *;
-- 
2.43.0


From 9d077ad8f17974556b0f5c2452f970731fbc7e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:04 +0000
Subject: [PATCH 40/49] fix: the Unicode tables didn't compile alone, before
 ctre.hpp or beside the single-header ctre.hpp

---
 include/unicode-db.hpp            |  1 -
 include/unicode-db/unicode-db.hpp | 21 ++++++++++-----------
 single-header/ctre-unicode.hpp    | 21 +++++++++------------
 single-header/unicode-db.hpp      | 21 ++++++++++-----------
 4 files changed, 29 insertions(+), 35 deletions(-)

diff --git a/include/unicode-db.hpp b/include/unicode-db.hpp
index a1ad958..07b7e1e 100644
--- a/include/unicode-db.hpp
+++ b/include/unicode-db.hpp
@@ -1,7 +1,6 @@
 #ifndef CTRE_V2__UNICODE_CODE_DB__HPP
 #define CTRE_V2__UNICODE_CODE_DB__HPP
 
-#define CTRE_UNICODE_SYNOPSYS_WAS_INCLUDED
 #include "unicode-db/unicode-db.hpp"
 
 #endif
diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index 0ed9081..3808d12 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -1,10 +1,17 @@
 #pragma once
 
+#ifndef H_COR3NTIN_UNICODE_DB
+#define H_COR3NTIN_UNICODE_DB
+
 #ifndef UNICODE_DB_IN_A_MODULE
+#include <algorithm>
+#include <cstdint>
+#include <iterator>
 #include <string_view>
 #endif
 
-#ifndef CTRE_UNICODE_SYNOPSYS_WAS_INCLUDED
+#ifndef H_COR3NTIN_UNICODE_SYNOPSYS
+#define H_COR3NTIN_UNICODE_SYNOPSYS
 namespace uni {
 enum class category;
 enum class property;
@@ -96,12 +103,6 @@ namespace detail {
 }    // namespace uni
 #endif
 
-#ifndef UNICODE_DB_IN_A_MODULE
-#include <cstdint>
-#include <algorithm>
-#include <string_view>
-#endif
-
 namespace uni::detail {
 
 template<class ForwardIt, class T, class Compare>
@@ -7259,10 +7260,6 @@ constexpr bool cp_property_is<property::xids>(char32_t c) {
 }
 }    // namespace uni
 
-#ifndef UNICODE_DB_IN_A_MODULE
-#include <iterator>
-#endif
-
 namespace uni {
 
 constexpr category cp_category(char32_t cp) {
@@ -9570,3 +9567,5 @@ constexpr bool is_unknown(binary_prop s) {
 }
 
 }    // namespace uni::detail
+
+#endif
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 8edd2c2..49b9888 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -6120,13 +6120,18 @@ template <typename A, typename B> constexpr auto operator>>(ctre::regular_expres
 #ifndef CTRE_V2__UNICODE_CODE_DB__HPP
 #define CTRE_V2__UNICODE_CODE_DB__HPP
 
-#define CTRE_UNICODE_SYNOPSYS_WAS_INCLUDED
+#ifndef H_COR3NTIN_UNICODE_DB
+#define H_COR3NTIN_UNICODE_DB
 
 #ifndef UNICODE_DB_IN_A_MODULE
+#include <algorithm>
+#include <cstdint>
+#include <iterator>
 #include <string_view>
 #endif
 
-#ifndef CTRE_UNICODE_SYNOPSYS_WAS_INCLUDED
+#ifndef H_COR3NTIN_UNICODE_SYNOPSYS
+#define H_COR3NTIN_UNICODE_SYNOPSYS
 namespace uni {
 enum class category;
 enum class property;
@@ -6218,12 +6223,6 @@ namespace detail {
 }    // namespace uni
 #endif
 
-#ifndef UNICODE_DB_IN_A_MODULE
-#include <cstdint>
-#include <algorithm>
-#include <string_view>
-#endif
-
 namespace uni::detail {
 
 template<class ForwardIt, class T, class Compare>
@@ -13381,10 +13380,6 @@ constexpr bool cp_property_is<property::xids>(char32_t c) {
 }
 }    // namespace uni
 
-#ifndef UNICODE_DB_IN_A_MODULE
-#include <iterator>
-#endif
-
 namespace uni {
 
 constexpr category cp_category(char32_t cp) {
@@ -15696,3 +15691,5 @@ constexpr bool is_unknown(binary_prop s) {
 #endif
 
 #endif
+
+#endif
diff --git a/single-header/unicode-db.hpp b/single-header/unicode-db.hpp
index 0ed9081..3808d12 100644
--- a/single-header/unicode-db.hpp
+++ b/single-header/unicode-db.hpp
@@ -1,10 +1,17 @@
 #pragma once
 
+#ifndef H_COR3NTIN_UNICODE_DB
+#define H_COR3NTIN_UNICODE_DB
+
 #ifndef UNICODE_DB_IN_A_MODULE
+#include <algorithm>
+#include <cstdint>
+#include <iterator>
 #include <string_view>
 #endif
 
-#ifndef CTRE_UNICODE_SYNOPSYS_WAS_INCLUDED
+#ifndef H_COR3NTIN_UNICODE_SYNOPSYS
+#define H_COR3NTIN_UNICODE_SYNOPSYS
 namespace uni {
 enum class category;
 enum class property;
@@ -96,12 +103,6 @@ namespace detail {
 }    // namespace uni
 #endif
 
-#ifndef UNICODE_DB_IN_A_MODULE
-#include <cstdint>
-#include <algorithm>
-#include <string_view>
-#endif
-
 namespace uni::detail {
 
 template<class ForwardIt, class T, class Compare>
@@ -7259,10 +7260,6 @@ constexpr bool cp_property_is<property::xids>(char32_t c) {
 }
 }    // namespace uni
 
-#ifndef UNICODE_DB_IN_A_MODULE
-#include <iterator>
-#endif
-
 namespace uni {
 
 constexpr category cp_category(char32_t cp) {
@@ -9570,3 +9567,5 @@ constexpr bool is_unknown(binary_prop s) {
 }
 
 }    // namespace uni::detail
+
+#endif
-- 
2.43.0


From e8f810d79458d87d99e1199fdcca4d72ab13d080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 41/49] fix: values beyond the last code point had the
 properties of others

---
 include/unicode-db/unicode-db.hpp | 8 +++++++-
 single-header/ctre-unicode.hpp    | 8 +++++++-
 single-header/unicode-db.hpp      | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index 3808d12..e710612 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -253,6 +253,8 @@ struct bool_trie {
                     child = r2[i - r2_t_f];
                 return trie_range_leaf(c, r3[child]);
             }
+        } else if(c > 0x10FFFF) {
+            return false;
         } else {
             if constexpr(r6_s == 0)
                 return false;
@@ -7377,7 +7379,7 @@ constexpr script_extensions_view cp_script_extensions(char32_t cp) {
 
 constexpr version cp_age(char32_t cp) {
     // noncharacters are not in the table
-    if((cp & 0xFFFE) == 0xFFFE)
+    if((cp & 0xFFFE) == 0xFFFE && cp <= 0x10FFFF)
         return cp <= 0xFFFF ? version::v1_1 : version::v2_0;
     if(cp >= 0xFDD0 && cp <= 0xFDEF)
         return version::v3_1;
@@ -7385,6 +7387,8 @@ constexpr version cp_age(char32_t cp) {
 }
 
 constexpr block cp_block(char32_t cp) {
+    if(cp > 0x10FFFF)
+        return block::no_block;
     const auto end = std::end(detail::tables::block_data._data);
     auto it = detail::upper_bound(std::begin(detail::tables::block_data._data), end, cp,
                                   [](char32_t cp_, uint32_t v) {
@@ -7405,6 +7409,8 @@ constexpr block cp_block(char32_t cp) {
 
 template<>
 constexpr bool cp_property_is<property::noncharacter_code_point>(char32_t cp) {
+    if(char32_t(cp) > 0x10FFFF)
+        return false;
     return (char32_t(cp) & 0xfffe) == 0xfffe || (char32_t(cp) >= 0xfdd0 && char32_t(cp) <= 0xfdef);
 }
 
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 49b9888..5fe53a6 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -6373,6 +6373,8 @@ struct bool_trie {
                     child = r2[i - r2_t_f];
                 return trie_range_leaf(c, r3[child]);
             }
+        } else if(c > 0x10FFFF) {
+            return false;
         } else {
             if constexpr(r6_s == 0)
                 return false;
@@ -13497,7 +13499,7 @@ constexpr script_extensions_view cp_script_extensions(char32_t cp) {
 
 constexpr version cp_age(char32_t cp) {
     // noncharacters are not in the table
-    if((cp & 0xFFFE) == 0xFFFE)
+    if((cp & 0xFFFE) == 0xFFFE && cp <= 0x10FFFF)
         return cp <= 0xFFFF ? version::v1_1 : version::v2_0;
     if(cp >= 0xFDD0 && cp <= 0xFDEF)
         return version::v3_1;
@@ -13505,6 +13507,8 @@ constexpr version cp_age(char32_t cp) {
 }
 
 constexpr block cp_block(char32_t cp) {
+    if(cp > 0x10FFFF)
+        return block::no_block;
     const auto end = std::end(detail::tables::block_data._data);
     auto it = detail::upper_bound(std::begin(detail::tables::block_data._data), end, cp,
                                   [](char32_t cp_, uint32_t v) {
@@ -13525,6 +13529,8 @@ constexpr block cp_block(char32_t cp) {
 
 template<>
 constexpr bool cp_property_is<property::noncharacter_code_point>(char32_t cp) {
+    if(char32_t(cp) > 0x10FFFF)
+        return false;
     return (char32_t(cp) & 0xfffe) == 0xfffe || (char32_t(cp) >= 0xfdd0 && char32_t(cp) <= 0xfdef);
 }
 
diff --git a/single-header/unicode-db.hpp b/single-header/unicode-db.hpp
index 3808d12..e710612 100644
--- a/single-header/unicode-db.hpp
+++ b/single-header/unicode-db.hpp
@@ -253,6 +253,8 @@ struct bool_trie {
                     child = r2[i - r2_t_f];
                 return trie_range_leaf(c, r3[child]);
             }
+        } else if(c > 0x10FFFF) {
+            return false;
         } else {
             if constexpr(r6_s == 0)
                 return false;
@@ -7377,7 +7379,7 @@ constexpr script_extensions_view cp_script_extensions(char32_t cp) {
 
 constexpr version cp_age(char32_t cp) {
     // noncharacters are not in the table
-    if((cp & 0xFFFE) == 0xFFFE)
+    if((cp & 0xFFFE) == 0xFFFE && cp <= 0x10FFFF)
         return cp <= 0xFFFF ? version::v1_1 : version::v2_0;
     if(cp >= 0xFDD0 && cp <= 0xFDEF)
         return version::v3_1;
@@ -7385,6 +7387,8 @@ constexpr version cp_age(char32_t cp) {
 }
 
 constexpr block cp_block(char32_t cp) {
+    if(cp > 0x10FFFF)
+        return block::no_block;
     const auto end = std::end(detail::tables::block_data._data);
     auto it = detail::upper_bound(std::begin(detail::tables::block_data._data), end, cp,
                                   [](char32_t cp_, uint32_t v) {
@@ -7405,6 +7409,8 @@ constexpr block cp_block(char32_t cp) {
 
 template<>
 constexpr bool cp_property_is<property::noncharacter_code_point>(char32_t cp) {
+    if(char32_t(cp) > 0x10FFFF)
+        return false;
     return (char32_t(cp) & 0xfffe) == 0xfffe || (char32_t(cp) >= 0xfdd0 && char32_t(cp) <= 0xfdef);
 }
 
-- 
2.43.0


From a783d9997dbf46245d0488d3590bb758c3140477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 42/49] fix: a rule beginning with a character did not compile
 in C++17 (ctll::push<ctll::term<'b'>>)

---
 include/ctll/parser.hpp        | 6 ++----
 single-header/ctre-unicode.hpp | 6 ++----
 single-header/ctre.hpp         | 6 ++----
 3 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/include/ctll/parser.hpp b/include/ctll/parser.hpp
index d3751f9..759ed9b 100644
--- a/include/ctll/parser.hpp
+++ b/include/ctll/parser.hpp
@@ -132,15 +132,13 @@ template <typename Grammar, const auto & input, typename ActionSelector = empty_
 	// and push string without the character (quick LL(1))
 	template <size_t Pos, auto V, typename... Content, typename Stack, typename Subject>
 	static constexpr auto move(push<term<V>, Content...>, term<V>, Stack stack, Subject) noexcept {
-		constexpr auto local_input = input;
-		return typename parser<Grammar, local_input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
+		return typename parser<Grammar, _input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
 	}
 	// if rule is string with any character at the beginning (compatible with current term<T>) => move to next character 
 	// and push string without the character (quick LL(1))
 	template <size_t Pos, auto V, typename... Content, auto T, typename Stack, typename Subject>
 	static constexpr auto move(push<anything, Content...>, term<T>, Stack stack, Subject) noexcept {
-		constexpr auto local_input = input;
-		return typename parser<Grammar, local_input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
+		return typename parser<Grammar, _input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
 	}
 	// decide if we need to take action or move
 	template <size_t Pos, typename Stack, typename Subject> static constexpr auto decide(Stack previous_stack, Subject previous_subject) noexcept {
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 5fe53a6..a6f6f66 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -883,15 +883,13 @@ template <typename Grammar, const auto & input, typename ActionSelector = empty_
 	// and push string without the character (quick LL(1))
 	template <size_t Pos, auto V, typename... Content, typename Stack, typename Subject>
 	static constexpr auto move(push<term<V>, Content...>, term<V>, Stack stack, Subject) noexcept {
-		constexpr auto local_input = input;
-		return typename parser<Grammar, local_input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
+		return typename parser<Grammar, _input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
 	}
 	// if rule is string with any character at the beginning (compatible with current term<T>) => move to next character 
 	// and push string without the character (quick LL(1))
 	template <size_t Pos, auto V, typename... Content, auto T, typename Stack, typename Subject>
 	static constexpr auto move(push<anything, Content...>, term<T>, Stack stack, Subject) noexcept {
-		constexpr auto local_input = input;
-		return typename parser<Grammar, local_input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
+		return typename parser<Grammar, _input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
 	}
 	// decide if we need to take action or move
 	template <size_t Pos, typename Stack, typename Subject> static constexpr auto decide(Stack previous_stack, Subject previous_subject) noexcept {
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 9db0cb8..2cd7dc9 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -880,15 +880,13 @@ template <typename Grammar, const auto & input, typename ActionSelector = empty_
 	// and push string without the character (quick LL(1))
 	template <size_t Pos, auto V, typename... Content, typename Stack, typename Subject>
 	static constexpr auto move(push<term<V>, Content...>, term<V>, Stack stack, Subject) noexcept {
-		constexpr auto local_input = input;
-		return typename parser<Grammar, local_input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
+		return typename parser<Grammar, _input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
 	}
 	// if rule is string with any character at the beginning (compatible with current term<T>) => move to next character 
 	// and push string without the character (quick LL(1))
 	template <size_t Pos, auto V, typename... Content, auto T, typename Stack, typename Subject>
 	static constexpr auto move(push<anything, Content...>, term<T>, Stack stack, Subject) noexcept {
-		constexpr auto local_input = input;
-		return typename parser<Grammar, local_input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
+		return typename parser<Grammar, _input, ActionSelector, IgnoreUnknownActions>::template results<Pos+1, decltype(push_front(list<Content...>(), stack)), Subject, decision::undecided>();
 	}
 	// decide if we need to take action or move
 	template <size_t Pos, typename Stack, typename Subject> static constexpr auto decide(Stack previous_stack, Subject previous_subject) noexcept {
-- 
2.43.0


From 09b7c47640b8348d8590901ff2341b5191aa0f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:08 +0000
Subject: [PATCH 43/49] fix: ctll::exists_in and add_item took a type for
 another it converts to

---
 include/ctll/list.hpp          | 2 +-
 single-header/ctre-unicode.hpp | 2 +-
 single-header/ctre.hpp         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ctll/list.hpp b/include/ctll/list.hpp
index a04ed51..9a13eef 100644
--- a/include/ctll/list.hpp
+++ b/include/ctll/list.hpp
@@ -66,7 +66,7 @@ template <typename T> struct item_matcher {
 	};
 
 	static constexpr auto check(T) { return std::true_type{}; }
-	static constexpr auto check(...) { return std::false_type{}; }
+	template <typename Y> static constexpr auto check(Y) { return std::false_type{}; }
 	static constexpr auto select(T) { return not_selected{}; }
 	template <typename Y> static constexpr auto select(Y) { return wrapper<Y>{}; }
 };
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index a6f6f66..65640cd 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -585,7 +585,7 @@ template <typename T> struct item_matcher {
 	};
 
 	static constexpr auto check(T) { return std::true_type{}; }
-	static constexpr auto check(...) { return std::false_type{}; }
+	template <typename Y> static constexpr auto check(Y) { return std::false_type{}; }
 	static constexpr auto select(T) { return not_selected{}; }
 	template <typename Y> static constexpr auto select(Y) { return wrapper<Y>{}; }
 };
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 2cd7dc9..6ba1919 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -582,7 +582,7 @@ template <typename T> struct item_matcher {
 	};
 
 	static constexpr auto check(T) { return std::true_type{}; }
-	static constexpr auto check(...) { return std::false_type{}; }
+	template <typename Y> static constexpr auto check(Y) { return std::false_type{}; }
 	static constexpr auto select(T) { return not_selected{}; }
 	template <typename Y> static constexpr auto select(Y) { return wrapper<Y>{}; }
 };
-- 
2.43.0


From e0a0c74abd4c8991b9b8a6f3aaac70e8e48e7d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 44/49] fix: the increments of the iterator over script
 extensions were exchanged (*it++ and *++it)

---
 include/unicode-db/unicode-db.hpp        | 14 +++++++-------
 include/unicode-db/unicode_interface.hpp |  4 ++--
 single-header/ctre-unicode.hpp           | 18 +++++++++---------
 single-header/ctre.hpp                   |  4 ++--
 single-header/unicode-db.hpp             | 14 +++++++-------
 5 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/include/unicode-db/unicode-db.hpp b/include/unicode-db/unicode-db.hpp
index e710612..d0cda90 100644
--- a/include/unicode-db/unicode-db.hpp
+++ b/include/unicode-db/unicode-db.hpp
@@ -28,9 +28,9 @@ struct script_extensions_view {
         constexpr iterator(char32_t c);
         constexpr script operator*() const;
 
-        constexpr iterator& operator++(int);
+        constexpr iterator operator++(int);
 
-        constexpr iterator operator++();
+        constexpr iterator& operator++();
 
         constexpr bool operator==(sentinel) const;
         constexpr bool operator!=(sentinel) const;
@@ -7338,17 +7338,17 @@ constexpr script script_extensions_view::iterator::operator*() const {
     return m_script;
 }
 
-constexpr auto script_extensions_view::iterator::operator++(int) -> iterator& {
+constexpr auto script_extensions_view::iterator::operator++(int) -> iterator {
+    auto c = *this;
     idx++;
     m_script = detail::tables::get_cp_script(m_c, idx);
-    return *this;
+    return c;
 }
 
-constexpr auto script_extensions_view::iterator::operator++() -> iterator {
-    auto c = *this;
+constexpr auto script_extensions_view::iterator::operator++() -> iterator& {
     idx++;
     m_script = detail::tables::get_cp_script(m_c, idx);
-    return c;
+    return *this;
 }
 
 constexpr bool script_extensions_view::iterator::operator==(sentinel) const {
diff --git a/include/unicode-db/unicode_interface.hpp b/include/unicode-db/unicode_interface.hpp
index 7ad4cf5..83ca704 100644
--- a/include/unicode-db/unicode_interface.hpp
+++ b/include/unicode-db/unicode_interface.hpp
@@ -22,9 +22,9 @@ namespace uni
             constexpr iterator(char32_t c);
             constexpr script operator*() const;
 
-            constexpr iterator& operator++(int);
+            constexpr iterator operator++(int);
 
-            constexpr iterator operator++();
+            constexpr iterator& operator++();
 
             constexpr bool operator==(sentinel) const;
             constexpr bool operator!=(sentinel) const;
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 65640cd..40acc4b 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -1800,9 +1800,9 @@ namespace uni
             constexpr iterator(char32_t c);
             constexpr script operator*() const;
 
-            constexpr iterator& operator++(int);
+            constexpr iterator operator++(int);
 
-            constexpr iterator operator++();
+            constexpr iterator& operator++();
 
             constexpr bool operator==(sentinel) const;
             constexpr bool operator!=(sentinel) const;
@@ -6146,9 +6146,9 @@ struct script_extensions_view {
         constexpr iterator(char32_t c);
         constexpr script operator*() const;
 
-        constexpr iterator& operator++(int);
+        constexpr iterator operator++(int);
 
-        constexpr iterator operator++();
+        constexpr iterator& operator++();
 
         constexpr bool operator==(sentinel) const;
         constexpr bool operator!=(sentinel) const;
@@ -13456,17 +13456,17 @@ constexpr script script_extensions_view::iterator::operator*() const {
     return m_script;
 }
 
-constexpr auto script_extensions_view::iterator::operator++(int) -> iterator& {
+constexpr auto script_extensions_view::iterator::operator++(int) -> iterator {
+    auto c = *this;
     idx++;
     m_script = detail::tables::get_cp_script(m_c, idx);
-    return *this;
+    return c;
 }
 
-constexpr auto script_extensions_view::iterator::operator++() -> iterator {
-    auto c = *this;
+constexpr auto script_extensions_view::iterator::operator++() -> iterator& {
     idx++;
     m_script = detail::tables::get_cp_script(m_c, idx);
-    return c;
+    return *this;
 }
 
 constexpr bool script_extensions_view::iterator::operator==(sentinel) const {
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 6ba1919..6f93e76 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -1797,9 +1797,9 @@ namespace uni
             constexpr iterator(char32_t c);
             constexpr script operator*() const;
 
-            constexpr iterator& operator++(int);
+            constexpr iterator operator++(int);
 
-            constexpr iterator operator++();
+            constexpr iterator& operator++();
 
             constexpr bool operator==(sentinel) const;
             constexpr bool operator!=(sentinel) const;
diff --git a/single-header/unicode-db.hpp b/single-header/unicode-db.hpp
index e710612..d0cda90 100644
--- a/single-header/unicode-db.hpp
+++ b/single-header/unicode-db.hpp
@@ -28,9 +28,9 @@ struct script_extensions_view {
         constexpr iterator(char32_t c);
         constexpr script operator*() const;
 
-        constexpr iterator& operator++(int);
+        constexpr iterator operator++(int);
 
-        constexpr iterator operator++();
+        constexpr iterator& operator++();
 
         constexpr bool operator==(sentinel) const;
         constexpr bool operator!=(sentinel) const;
@@ -7338,17 +7338,17 @@ constexpr script script_extensions_view::iterator::operator*() const {
     return m_script;
 }
 
-constexpr auto script_extensions_view::iterator::operator++(int) -> iterator& {
+constexpr auto script_extensions_view::iterator::operator++(int) -> iterator {
+    auto c = *this;
     idx++;
     m_script = detail::tables::get_cp_script(m_c, idx);
-    return *this;
+    return c;
 }
 
-constexpr auto script_extensions_view::iterator::operator++() -> iterator {
-    auto c = *this;
+constexpr auto script_extensions_view::iterator::operator++() -> iterator& {
     idx++;
     m_script = detail::tables::get_cp_script(m_c, idx);
-    return c;
+    return *this;
 }
 
 constexpr bool script_extensions_view::iterator::operator==(sentinel) const {
-- 
2.43.0


From 90b95f2e74067ace9cdff3bd90c04aeef601e507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:08 +0000
Subject: [PATCH 45/49] fix: a pointer differed from a utf8_iterator which is
 equal to it (C++17 with char8_t)

---
 include/ctre/utf8.hpp          | 2 +-
 single-header/ctre-unicode.hpp | 2 +-
 single-header/ctre.hpp         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index ce749c8..d2d0e46 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -93,7 +93,7 @@ struct utf8_iterator {
 	}
 	
 	constexpr friend bool operator!=(const char8_t * lhs, const utf8_iterator & rhs) {
-		return lhs == rhs.ptr;
+		return lhs != rhs.ptr;
 	}
 	
 	constexpr friend bool operator==(sentinel, const utf8_iterator & rhs) {
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 40acc4b..4a90700 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -3214,7 +3214,7 @@ struct utf8_iterator {
 	}
 	
 	constexpr friend bool operator!=(const char8_t * lhs, const utf8_iterator & rhs) {
-		return lhs == rhs.ptr;
+		return lhs != rhs.ptr;
 	}
 	
 	constexpr friend bool operator==(sentinel, const utf8_iterator & rhs) {
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 6f93e76..c63f54b 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -3211,7 +3211,7 @@ struct utf8_iterator {
 	}
 	
 	constexpr friend bool operator!=(const char8_t * lhs, const utf8_iterator & rhs) {
-		return lhs == rhs.ptr;
+		return lhs != rhs.ptr;
 	}
 	
 	constexpr friend bool operator==(sentinel, const utf8_iterator & rhs) {
-- 
2.43.0


From 2682aefe2a19c77701232e87b359a3115c98ac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:16 +0000
Subject: [PATCH 46/49] fix: lookbehinds cut the code points of UTF-8 subjects
 to eight bits (C++17 with char8_t)

---
 include/ctre/utf8.hpp          | 2 +-
 single-header/ctre-unicode.hpp | 2 +-
 single-header/ctre.hpp         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index d2d0e46..41b1d08 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -19,7 +19,7 @@ namespace ctre {
 struct utf8_iterator {
 	using self_type = utf8_iterator;
 	using value_type = char8_t;
-	using reference = char8_t;
+	using reference = char32_t;
 	using pointer = const char8_t *;
 	using iterator_category = std::bidirectional_iterator_tag;
 	using difference_type = int;
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 4a90700..ddf5687 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -3140,7 +3140,7 @@ namespace ctre {
 struct utf8_iterator {
 	using self_type = utf8_iterator;
 	using value_type = char8_t;
-	using reference = char8_t;
+	using reference = char32_t;
 	using pointer = const char8_t *;
 	using iterator_category = std::bidirectional_iterator_tag;
 	using difference_type = int;
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index c63f54b..b23418a 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -3137,7 +3137,7 @@ namespace ctre {
 struct utf8_iterator {
 	using self_type = utf8_iterator;
 	using value_type = char8_t;
-	using reference = char8_t;
+	using reference = char32_t;
 	using pointer = const char8_t *;
 	using iterator_category = std::bidirectional_iterator_tag;
 	using difference_type = int;
-- 
2.43.0


From ae1962a88eda57b2001c17eaab5a9dc766a4fcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:59 +0000
Subject: [PATCH 47/49] fix: a named reference at the begin of a named capture
 did not compile (/(?<a>x)(?<b>\g{a})/)

---
 include/ctre/actions/capture.inc.hpp |  8 ++++++--
 include/ctre/pcre.gram               |  2 +-
 include/ctre/pcre.hpp                |  3 ++-
 include/ctre/pcre_actions.hpp        |  3 +++
 single-header/ctre-unicode.hpp       | 14 +++++++++++---
 single-header/ctre.hpp               | 14 +++++++++++---
 6 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/include/ctre/actions/capture.inc.hpp b/include/ctre/actions/capture.inc.hpp
index ebf5437..294937d 100644
--- a/include/ctre/actions/capture.inc.hpp
+++ b/include/ctre/actions/capture.inc.hpp
@@ -27,12 +27,16 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 template <auto... Str, auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_name, ctll::term<V>, pcre_context<ctll::list<id<Str...>, Ts...>, Parameters> subject) {
 	return pcre_context{ctll::push_front(id<Str..., V>(), ctll::list<Ts...>()), subject.parameters};
 }
+// finish_name
+template <auto... Str, auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::finish_name, ctll::term<V>, pcre_context<ctll::list<id<Str...>, Ts...>, Parameters> subject) {
+	return pcre_context{ctll::push_front(capture_name<id<Str...>>(), ctll::list<Ts...>()), subject.parameters};
+}
 // capture with name
-template <auto... Str, auto V, typename A, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_capture_with_name, ctll::term<V>, pcre_context<ctll::list<A, id<Str...>, capture_id<Id>, Ts...>, pcre_parameters<Counter>>) {
+template <auto... Str, auto V, typename A, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_capture_with_name, ctll::term<V>, pcre_context<ctll::list<A, capture_name<id<Str...>>, capture_id<Id>, Ts...>, pcre_parameters<Counter>>) {
 	return pcre_context{ctll::push_front(capture_with_name<Id, id<Str...>, A>(), ctll::list<Ts...>()), pcre_parameters<Counter>()};
 }
 // capture with name (sequence)
-template <auto... Str, auto V, typename... Content, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_capture_with_name, ctll::term<V>, pcre_context<ctll::list<sequence<Content...>, id<Str...>, capture_id<Id>, Ts...>, pcre_parameters<Counter>>) {
+template <auto... Str, auto V, typename... Content, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_capture_with_name, ctll::term<V>, pcre_context<ctll::list<sequence<Content...>, capture_name<id<Str...>>, capture_id<Id>, Ts...>, pcre_parameters<Counter>>) {
 	return pcre_context{ctll::push_front(capture_with_name<Id, id<Str...>, Content...>(), ctll::list<Ts...>()), pcre_parameters<Counter>()};
 }
 
diff --git a/include/ctre/pcre.gram b/include/ctre/pcre.gram
index f86efdf..b4f7791 100644
--- a/include/ctre/pcre.gram
+++ b/include/ctre/pcre.gram
@@ -76,7 +76,7 @@ block->questionmark,angle_open,equal_sign,[reset_capture],[start_lookbehind_posi
 block->questionmark,exclamation_mark,[reset_capture],[start_lookahead_negative],<content_in_capture>,[look_finish],close
 block->questionmark,angle_open,exclamation_mark,[reset_capture],[start_lookbehind_negative],<content_in_capture>,[look_finish],close
 block->questionmark,colon,[reset_capture],<content_in_capture>,close
-block->questionmark,angle_open,<block_name>,angle_close,<content_in_capture>,[make_capture_with_name],close
+block->questionmark,angle_open,<block_name>,[finish_name],angle_close,<content_in_capture>,[make_capture_with_name],close
 
 block_name->alpha_characters,[push_name],<block_name2>
 block_name2->alphanum_characters,[push_name],<block_name2>|epsilon
diff --git a/include/ctre/pcre.hpp b/include/ctre/pcre.hpp
index 70ee731..a73c84b 100644
--- a/include/ctre/pcre.hpp
+++ b/include/ctre/pcre.hpp
@@ -81,6 +81,7 @@ struct pcre {
 	struct create_hexdec: ctll::action {};
 	struct create_number: ctll::action {};
 	struct finish_hexdec: ctll::action {};
+	struct finish_name: ctll::action {};
 	struct look_finish: ctll::action {};
 	struct make_alternate: ctll::action {};
 	struct make_atomic: ctll::action {};
@@ -391,7 +392,7 @@ struct pcre {
 
 	static constexpr auto rule(number, ctll::set<'0','1','2','3','4','5','6','7','8','9'>) -> ctll::push<ctll::anything, create_number, number2>;
 
-	static constexpr auto rule(o, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<block_name, ctll::term<'>'>, content_in_capture, make_capture_with_name, ctll::term<'\x29'>>;
+	static constexpr auto rule(o, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<block_name, finish_name, ctll::term<'>'>, content_in_capture, make_capture_with_name, ctll::term<'\x29'>>;
 	static constexpr auto rule(o, ctll::term<'!'>) -> ctll::push<ctll::anything, reset_capture, start_lookbehind_negative, content_in_capture, look_finish, ctll::term<'\x29'>>;
 	static constexpr auto rule(o, ctll::term<'='>) -> ctll::push<ctll::anything, reset_capture, start_lookbehind_positive, content_in_capture, look_finish, ctll::term<'\x29'>>;
 
diff --git a/include/ctre/pcre_actions.hpp b/include/ctre/pcre_actions.hpp
index c4483d4..d19dc7f 100644
--- a/include/ctre/pcre_actions.hpp
+++ b/include/ctre/pcre_actions.hpp
@@ -32,6 +32,9 @@ template <typename... Content, typename Parameters> pcre_context(ctll::list<Cont
 template <size_t Value> struct number { };
 
 template <size_t Id> struct capture_id { };
+
+// name of a capture which is being parsed (id can be still a prefix of a name)
+template <typename Name> struct capture_name { };
 	
 struct pcre_actions {
 // i know it's ugly, but it's more readable
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index ddf5687..75172e8 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -1024,6 +1024,7 @@ struct pcre {
 	struct create_hexdec: ctll::action {};
 	struct create_number: ctll::action {};
 	struct finish_hexdec: ctll::action {};
+	struct finish_name: ctll::action {};
 	struct look_finish: ctll::action {};
 	struct make_alternate: ctll::action {};
 	struct make_atomic: ctll::action {};
@@ -1334,7 +1335,7 @@ struct pcre {
 
 	static constexpr auto rule(number, ctll::set<'0','1','2','3','4','5','6','7','8','9'>) -> ctll::push<ctll::anything, create_number, number2>;
 
-	static constexpr auto rule(o, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<block_name, ctll::term<'>'>, content_in_capture, make_capture_with_name, ctll::term<'\x29'>>;
+	static constexpr auto rule(o, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<block_name, finish_name, ctll::term<'>'>, content_in_capture, make_capture_with_name, ctll::term<'\x29'>>;
 	static constexpr auto rule(o, ctll::term<'!'>) -> ctll::push<ctll::anything, reset_capture, start_lookbehind_negative, content_in_capture, look_finish, ctll::term<'\x29'>>;
 	static constexpr auto rule(o, ctll::term<'='>) -> ctll::push<ctll::anything, reset_capture, start_lookbehind_positive, content_in_capture, look_finish, ctll::term<'\x29'>>;
 
@@ -2186,6 +2187,9 @@ template <typename... Content, typename Parameters> pcre_context(ctll::list<Cont
 template <size_t Value> struct number { };
 
 template <size_t Id> struct capture_id { };
+
+// name of a capture which is being parsed (id can be still a prefix of a name)
+template <typename Name> struct capture_name { };
 	
 struct pcre_actions {
 // i know it's ugly, but it's more readable
@@ -2314,12 +2318,16 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 template <auto... Str, auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_name, ctll::term<V>, pcre_context<ctll::list<id<Str...>, Ts...>, Parameters> subject) {
 	return pcre_context{ctll::push_front(id<Str..., V>(), ctll::list<Ts...>()), subject.parameters};
 }
+// finish_name
+template <auto... Str, auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::finish_name, ctll::term<V>, pcre_context<ctll::list<id<Str...>, Ts...>, Parameters> subject) {
+	return pcre_context{ctll::push_front(capture_name<id<Str...>>(), ctll::list<Ts...>()), subject.parameters};
+}
 // capture with name
-template <auto... Str, auto V, typename A, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_capture_with_name, ctll::term<V>, pcre_context<ctll::list<A, id<Str...>, capture_id<Id>, Ts...>, pcre_parameters<Counter>>) {
+template <auto... Str, auto V, typename A, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_capture_with_name, ctll::term<V>, pcre_context<ctll::list<A, capture_name<id<Str...>>, capture_id<Id>, Ts...>, pcre_parameters<Counter>>) {
 	return pcre_context{ctll::push_front(capture_with_name<Id, id<Str...>, A>(), ctll::list<Ts...>()), pcre_parameters<Counter>()};
 }
 // capture with name (sequence)
-template <auto... Str, auto V, typename... Content, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_capture_with_name, ctll::term<V>, pcre_context<ctll::list<sequence<Content...>, id<Str...>, capture_id<Id>, Ts...>, pcre_parameters<Counter>>) {
+template <auto... Str, auto V, typename... Content, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_capture_with_name, ctll::term<V>, pcre_context<ctll::list<sequence<Content...>, capture_name<id<Str...>>, capture_id<Id>, Ts...>, pcre_parameters<Counter>>) {
 	return pcre_context{ctll::push_front(capture_with_name<Id, id<Str...>, Content...>(), ctll::list<Ts...>()), pcre_parameters<Counter>()};
 }
 
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index b23418a..e67b367 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -1021,6 +1021,7 @@ struct pcre {
 	struct create_hexdec: ctll::action {};
 	struct create_number: ctll::action {};
 	struct finish_hexdec: ctll::action {};
+	struct finish_name: ctll::action {};
 	struct look_finish: ctll::action {};
 	struct make_alternate: ctll::action {};
 	struct make_atomic: ctll::action {};
@@ -1331,7 +1332,7 @@ struct pcre {
 
 	static constexpr auto rule(number, ctll::set<'0','1','2','3','4','5','6','7','8','9'>) -> ctll::push<ctll::anything, create_number, number2>;
 
-	static constexpr auto rule(o, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<block_name, ctll::term<'>'>, content_in_capture, make_capture_with_name, ctll::term<'\x29'>>;
+	static constexpr auto rule(o, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<block_name, finish_name, ctll::term<'>'>, content_in_capture, make_capture_with_name, ctll::term<'\x29'>>;
 	static constexpr auto rule(o, ctll::term<'!'>) -> ctll::push<ctll::anything, reset_capture, start_lookbehind_negative, content_in_capture, look_finish, ctll::term<'\x29'>>;
 	static constexpr auto rule(o, ctll::term<'='>) -> ctll::push<ctll::anything, reset_capture, start_lookbehind_positive, content_in_capture, look_finish, ctll::term<'\x29'>>;
 
@@ -2183,6 +2184,9 @@ template <typename... Content, typename Parameters> pcre_context(ctll::list<Cont
 template <size_t Value> struct number { };
 
 template <size_t Id> struct capture_id { };
+
+// name of a capture which is being parsed (id can be still a prefix of a name)
+template <typename Name> struct capture_name { };
 	
 struct pcre_actions {
 // i know it's ugly, but it's more readable
@@ -2311,12 +2315,16 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 template <auto... Str, auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_name, ctll::term<V>, pcre_context<ctll::list<id<Str...>, Ts...>, Parameters> subject) {
 	return pcre_context{ctll::push_front(id<Str..., V>(), ctll::list<Ts...>()), subject.parameters};
 }
+// finish_name
+template <auto... Str, auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::finish_name, ctll::term<V>, pcre_context<ctll::list<id<Str...>, Ts...>, Parameters> subject) {
+	return pcre_context{ctll::push_front(capture_name<id<Str...>>(), ctll::list<Ts...>()), subject.parameters};
+}
 // capture with name
-template <auto... Str, auto V, typename A, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_capture_with_name, ctll::term<V>, pcre_context<ctll::list<A, id<Str...>, capture_id<Id>, Ts...>, pcre_parameters<Counter>>) {
+template <auto... Str, auto V, typename A, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_capture_with_name, ctll::term<V>, pcre_context<ctll::list<A, capture_name<id<Str...>>, capture_id<Id>, Ts...>, pcre_parameters<Counter>>) {
 	return pcre_context{ctll::push_front(capture_with_name<Id, id<Str...>, A>(), ctll::list<Ts...>()), pcre_parameters<Counter>()};
 }
 // capture with name (sequence)
-template <auto... Str, auto V, typename... Content, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_capture_with_name, ctll::term<V>, pcre_context<ctll::list<sequence<Content...>, id<Str...>, capture_id<Id>, Ts...>, pcre_parameters<Counter>>) {
+template <auto... Str, auto V, typename... Content, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_capture_with_name, ctll::term<V>, pcre_context<ctll::list<sequence<Content...>, capture_name<id<Str...>>, capture_id<Id>, Ts...>, pcre_parameters<Counter>>) {
 	return pcre_context{ctll::push_front(capture_with_name<Id, id<Str...>, Content...>(), ctll::list<Ts...>()), pcre_parameters<Counter>()};
 }
 
-- 
2.43.0


From ffb57295210f3367b770550f874563bfd53743b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:51 +0000
Subject: [PATCH 48/49] fix: a range which begins with a class was a hard error
 instead of a syntax error (/[[:word:]-a]/)

---
 include/ctre/actions/set.inc.hpp | 4 ++++
 single-header/ctre-unicode.hpp   | 4 ++++
 single-header/ctre.hpp           | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/include/ctre/actions/set.inc.hpp b/include/ctre/actions/set.inc.hpp
index e1c9401..8507dd6 100644
--- a/include/ctre/actions/set.inc.hpp
+++ b/include/ctre/actions/set.inc.hpp
@@ -68,5 +68,9 @@ template <auto V, typename A, typename... Ts, typename Parameters> static conste
 template <auto V, auto B, auto A, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_range, ctll::term<V>, pcre_context<ctll::list<character<B>,character<A>, Ts...>, Parameters> subject) {
 	return pcre_context{ctll::push_front(char_range<A,B>(), ctll::list<Ts...>()), subject.parameters};
 }
+// a class isn't a bound of a range
+template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_range, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters>) {
+	return ctll::reject{};
+}
 
 #endif
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 75172e8..45b5bfb 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -2980,6 +2980,10 @@ template <auto V, typename A, typename... Ts, typename Parameters> static conste
 template <auto V, auto B, auto A, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_range, ctll::term<V>, pcre_context<ctll::list<character<B>,character<A>, Ts...>, Parameters> subject) {
 	return pcre_context{ctll::push_front(char_range<A,B>(), ctll::list<Ts...>()), subject.parameters};
 }
+// a class isn't a bound of a range
+template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_range, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters>) {
+	return ctll::reject{};
+}
 
 #endif
 
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index e67b367..3deb37e 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -2977,6 +2977,10 @@ template <auto V, typename A, typename... Ts, typename Parameters> static conste
 template <auto V, auto B, auto A, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_range, ctll::term<V>, pcre_context<ctll::list<character<B>,character<A>, Ts...>, Parameters> subject) {
 	return pcre_context{ctll::push_front(char_range<A,B>(), ctll::list<Ts...>()), subject.parameters};
 }
+// a class isn't a bound of a range
+template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_range, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters>) {
+	return ctll::reject{};
+}
 
 #endif
 
-- 
2.43.0


From 7ba655560c04dd5f985e7f6e18b597eda27316cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:07 +0000
Subject: [PATCH 49/49] fix: the module doesn't export the flags, ctre::re, the
 literal and the pipes

---
 include/ctre/flags_and_modes.hpp | 14 ++++++++------
 include/ctre/functions.hpp       |  4 ++--
 include/ctre/literals.hpp        |  6 +++---
 include/ctre/wrapper.hpp         | 10 +++++-----
 single-header/ctre-unicode.hpp   | 32 ++++++++++++++++----------------
 single-header/ctre.hpp           | 32 ++++++++++++++++----------------
 6 files changed, 50 insertions(+), 48 deletions(-)

diff --git a/include/ctre/flags_and_modes.hpp b/include/ctre/flags_and_modes.hpp
index 19c848d..f15b5dd 100644
--- a/include/ctre/flags_and_modes.hpp
+++ b/include/ctre/flags_and_modes.hpp
@@ -1,16 +1,18 @@
 #ifndef CTRE_V2__CTRE__FLAGS_AND_MODES__HPP
 #define CTRE_V2__CTRE__FLAGS_AND_MODES__HPP
 
+#include "utility.hpp"
+
 namespace ctre {
 
-struct singleline { };
-struct multiline { };
+CTRE_EXPORT struct singleline { };
+CTRE_EXPORT struct multiline { };
 
-struct case_sensitive { };
-struct case_insensitive { };
+CTRE_EXPORT struct case_sensitive { };
+CTRE_EXPORT struct case_insensitive { };
 
-using ci = case_insensitive;
-using cs = case_sensitive;
+CTRE_EXPORT using ci = case_insensitive;
+CTRE_EXPORT using cs = case_sensitive;
 
 template <typename... Flags> struct flag_list { };
 
diff --git a/include/ctre/functions.hpp b/include/ctre/functions.hpp
index dfda985..7c1c90a 100644
--- a/include/ctre/functions.hpp
+++ b/include/ctre/functions.hpp
@@ -30,10 +30,10 @@ template <typename CharT, size_t N> fixed_string(const CharT (&)[N]) -> fixed_st
 #endif
 
 #if CTRE_CNTTP_COMPILER_CHECK
-template <ctll::fixed_string input, typename Modifier = void> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto re() noexcept {
+CTRE_EXPORT template <ctll::fixed_string input, typename Modifier = void> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto re() noexcept {
 constexpr auto _input = input; // workaround for GCC 9 bug 88092
 #else
-template <auto & input, typename Modifier = void> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto re() noexcept {	
+CTRE_EXPORT template <auto & input, typename Modifier = void> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto re() noexcept {	
 constexpr auto & _input = input; 
 #endif
 	
diff --git a/include/ctre/literals.hpp b/include/ctre/literals.hpp
index e595902..8a249ab 100644
--- a/include/ctre/literals.hpp
+++ b/include/ctre/literals.hpp
@@ -58,10 +58,10 @@ namespace literals {
 // requires ctll::parser<ctre::pcre, _fixed_string_reference<CharT, charpack...>, ctre::pcre_actions>::template correct_with<pcre_context<>>
 
 #if !CTRE_CNTTP_COMPILER_CHECK
-template <typename CharT, CharT... charpack> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto operator""_ctre() noexcept {
+CTRE_EXPORT template <typename CharT, CharT... charpack> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto operator""_ctre() noexcept {
 	constexpr auto & _input = _fixed_string_reference<CharT, charpack...>;
 #else
-template <ctll::fixed_string input> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto operator""_ctre() noexcept {
+CTRE_EXPORT template <ctll::fixed_string input> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto operator""_ctre() noexcept {
 	constexpr auto _input = input; // workaround for GCC 9 bug 88092
 #endif
 	using tmp = typename ctll::parser<ctre::pcre, _input, ctre::pcre_actions>::template output<pcre_context<>>;
@@ -78,7 +78,7 @@ template <ctll::fixed_string input> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE aut
 
 // this will need to be fixed with C++20
 #if !CTRE_CNTTP_COMPILER_CHECK
-template <typename CharT, CharT... charpack> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto operator""_ctre_id() noexcept {
+CTRE_EXPORT template <typename CharT, CharT... charpack> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto operator""_ctre_id() noexcept {
 	return id<charpack...>();
 }
 #endif
diff --git a/include/ctre/wrapper.hpp b/include/ctre/wrapper.hpp
index bfab263..34f83ed 100644
--- a/include/ctre/wrapper.hpp
+++ b/include/ctre/wrapper.hpp
@@ -258,21 +258,21 @@ CTRE_EXPORT template <typename RE, typename Method, typename Modifier> struct re
 };
 
 // range style API support for tokenize/range/split operations
-template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, range_method, Modifier> re) noexcept {
+CTRE_EXPORT template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, range_method, Modifier> re) noexcept {
 	return re.exec(std::forward<Range>(range));
 }
 
-template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, tokenize_method, Modifier> re) noexcept {
+CTRE_EXPORT template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, tokenize_method, Modifier> re) noexcept {
 	return re.exec(std::forward<Range>(range));
 }
 
-template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, split_method, Modifier> re) noexcept {
+CTRE_EXPORT template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, split_method, Modifier> re) noexcept {
 	return re.exec(std::forward<Range>(range));
 }
 
-template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, iterator_method, Modifier> re) noexcept = delete;
+CTRE_EXPORT template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, iterator_method, Modifier> re) noexcept = delete;
 
-template <typename Range, typename RE, typename Method, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, Method, Modifier> re) noexcept {
+CTRE_EXPORT template <typename Range, typename RE, typename Method, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, Method, Modifier> re) noexcept {
 	return re.multi_exec(std::forward<Range>(range));
 }
 
diff --git a/single-header/ctre-unicode.hpp b/single-header/ctre-unicode.hpp
index 45b5bfb..b6fde83 100644
--- a/single-header/ctre-unicode.hpp
+++ b/single-header/ctre-unicode.hpp
@@ -1468,14 +1468,14 @@ struct pcre {
 
 namespace ctre {
 
-struct singleline { };
-struct multiline { };
+CTRE_EXPORT struct singleline { };
+CTRE_EXPORT struct multiline { };
 
-struct case_sensitive { };
-struct case_insensitive { };
+CTRE_EXPORT struct case_sensitive { };
+CTRE_EXPORT struct case_insensitive { };
 
-using ci = case_insensitive;
-using cs = case_sensitive;
+CTRE_EXPORT using ci = case_insensitive;
+CTRE_EXPORT using cs = case_sensitive;
 
 template <typename... Flags> struct flag_list { };
 
@@ -5851,21 +5851,21 @@ CTRE_EXPORT template <typename RE, typename Method, typename Modifier> struct re
 };
 
 // range style API support for tokenize/range/split operations
-template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, range_method, Modifier> re) noexcept {
+CTRE_EXPORT template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, range_method, Modifier> re) noexcept {
 	return re.exec(std::forward<Range>(range));
 }
 
-template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, tokenize_method, Modifier> re) noexcept {
+CTRE_EXPORT template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, tokenize_method, Modifier> re) noexcept {
 	return re.exec(std::forward<Range>(range));
 }
 
-template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, split_method, Modifier> re) noexcept {
+CTRE_EXPORT template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, split_method, Modifier> re) noexcept {
 	return re.exec(std::forward<Range>(range));
 }
 
-template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, iterator_method, Modifier> re) noexcept = delete;
+CTRE_EXPORT template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, iterator_method, Modifier> re) noexcept = delete;
 
-template <typename Range, typename RE, typename Method, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, Method, Modifier> re) noexcept {
+CTRE_EXPORT template <typename Range, typename RE, typename Method, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, Method, Modifier> re) noexcept {
 	return re.multi_exec(std::forward<Range>(range));
 }
 
@@ -5992,10 +5992,10 @@ namespace literals {
 // requires ctll::parser<ctre::pcre, _fixed_string_reference<CharT, charpack...>, ctre::pcre_actions>::template correct_with<pcre_context<>>
 
 #if !CTRE_CNTTP_COMPILER_CHECK
-template <typename CharT, CharT... charpack> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto operator""_ctre() noexcept {
+CTRE_EXPORT template <typename CharT, CharT... charpack> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto operator""_ctre() noexcept {
 	constexpr auto & _input = _fixed_string_reference<CharT, charpack...>;
 #else
-template <ctll::fixed_string input> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto operator""_ctre() noexcept {
+CTRE_EXPORT template <ctll::fixed_string input> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto operator""_ctre() noexcept {
 	constexpr auto _input = input; // workaround for GCC 9 bug 88092
 #endif
 	using tmp = typename ctll::parser<ctre::pcre, _input, ctre::pcre_actions>::template output<pcre_context<>>;
@@ -6010,7 +6010,7 @@ template <ctll::fixed_string input> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE aut
 
 // this will need to be fixed with C++20
 #if !CTRE_CNTTP_COMPILER_CHECK
-template <typename CharT, CharT... charpack> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto operator""_ctre_id() noexcept {
+CTRE_EXPORT template <typename CharT, CharT... charpack> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto operator""_ctre_id() noexcept {
 	return id<charpack...>();
 }
 #endif
@@ -6095,10 +6095,10 @@ template <typename CharT, size_t N> fixed_string(const CharT (&)[N]) -> fixed_st
 #endif
 
 #if CTRE_CNTTP_COMPILER_CHECK
-template <ctll::fixed_string input, typename Modifier = void> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto re() noexcept {
+CTRE_EXPORT template <ctll::fixed_string input, typename Modifier = void> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto re() noexcept {
 constexpr auto _input = input; // workaround for GCC 9 bug 88092
 #else
-template <auto & input, typename Modifier = void> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto re() noexcept {	
+CTRE_EXPORT template <auto & input, typename Modifier = void> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto re() noexcept {	
 constexpr auto & _input = input; 
 #endif
 	
diff --git a/single-header/ctre.hpp b/single-header/ctre.hpp
index 3deb37e..1c09b0e 100644
--- a/single-header/ctre.hpp
+++ b/single-header/ctre.hpp
@@ -1465,14 +1465,14 @@ struct pcre {
 
 namespace ctre {
 
-struct singleline { };
-struct multiline { };
+CTRE_EXPORT struct singleline { };
+CTRE_EXPORT struct multiline { };
 
-struct case_sensitive { };
-struct case_insensitive { };
+CTRE_EXPORT struct case_sensitive { };
+CTRE_EXPORT struct case_insensitive { };
 
-using ci = case_insensitive;
-using cs = case_sensitive;
+CTRE_EXPORT using ci = case_insensitive;
+CTRE_EXPORT using cs = case_sensitive;
 
 template <typename... Flags> struct flag_list { };
 
@@ -5848,21 +5848,21 @@ CTRE_EXPORT template <typename RE, typename Method, typename Modifier> struct re
 };
 
 // range style API support for tokenize/range/split operations
-template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, range_method, Modifier> re) noexcept {
+CTRE_EXPORT template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, range_method, Modifier> re) noexcept {
 	return re.exec(std::forward<Range>(range));
 }
 
-template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, tokenize_method, Modifier> re) noexcept {
+CTRE_EXPORT template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, tokenize_method, Modifier> re) noexcept {
 	return re.exec(std::forward<Range>(range));
 }
 
-template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, split_method, Modifier> re) noexcept {
+CTRE_EXPORT template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, split_method, Modifier> re) noexcept {
 	return re.exec(std::forward<Range>(range));
 }
 
-template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, iterator_method, Modifier> re) noexcept = delete;
+CTRE_EXPORT template <typename Range, typename RE, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, iterator_method, Modifier> re) noexcept = delete;
 
-template <typename Range, typename RE, typename Method, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, Method, Modifier> re) noexcept {
+CTRE_EXPORT template <typename Range, typename RE, typename Method, typename Modifier> constexpr auto operator|(Range && range, regular_expression<RE, Method, Modifier> re) noexcept {
 	return re.multi_exec(std::forward<Range>(range));
 }
 
@@ -5989,10 +5989,10 @@ namespace literals {
 // requires ctll::parser<ctre::pcre, _fixed_string_reference<CharT, charpack...>, ctre::pcre_actions>::template correct_with<pcre_context<>>
 
 #if !CTRE_CNTTP_COMPILER_CHECK
-template <typename CharT, CharT... charpack> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto operator""_ctre() noexcept {
+CTRE_EXPORT template <typename CharT, CharT... charpack> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto operator""_ctre() noexcept {
 	constexpr auto & _input = _fixed_string_reference<CharT, charpack...>;
 #else
-template <ctll::fixed_string input> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto operator""_ctre() noexcept {
+CTRE_EXPORT template <ctll::fixed_string input> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto operator""_ctre() noexcept {
 	constexpr auto _input = input; // workaround for GCC 9 bug 88092
 #endif
 	using tmp = typename ctll::parser<ctre::pcre, _input, ctre::pcre_actions>::template output<pcre_context<>>;
@@ -6007,7 +6007,7 @@ template <ctll::fixed_string input> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE aut
 
 // this will need to be fixed with C++20
 #if !CTRE_CNTTP_COMPILER_CHECK
-template <typename CharT, CharT... charpack> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto operator""_ctre_id() noexcept {
+CTRE_EXPORT template <typename CharT, CharT... charpack> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto operator""_ctre_id() noexcept {
 	return id<charpack...>();
 }
 #endif
@@ -6092,10 +6092,10 @@ template <typename CharT, size_t N> fixed_string(const CharT (&)[N]) -> fixed_st
 #endif
 
 #if CTRE_CNTTP_COMPILER_CHECK
-template <ctll::fixed_string input, typename Modifier = void> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto re() noexcept {
+CTRE_EXPORT template <ctll::fixed_string input, typename Modifier = void> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto re() noexcept {
 constexpr auto _input = input; // workaround for GCC 9 bug 88092
 #else
-template <auto & input, typename Modifier = void> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto re() noexcept {	
+CTRE_EXPORT template <auto & input, typename Modifier = void> CTRE_FLATTEN constexpr CTRE_FORCE_INLINE auto re() noexcept {	
 constexpr auto & _input = input; 
 #endif
 	
-- 
2.43.0


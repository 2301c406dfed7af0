From 7e0749e61407376d395f1ed9d7aabc876a883f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 01/35] fix: \B must be the negation of \b, not a boundary of
 the complementary class

\B was built as boundary<negative_set<word_chars>>, which inside the subject
accepts exactly the positions \b accepts. Use not_boundary and teach the
first-set calculation about it.
---
 include/ctre/actions/boundaries.inc.hpp | 2 +-
 include/ctre/first.hpp                  | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/ctre/actions/boundaries.inc.hpp b/include/ctre/actions/boundaries.inc.hpp
index 097bc9d..aa84780 100644
--- a/include/ctre/actions/boundaries.inc.hpp
+++ b/include/ctre/actions/boundaries.inc.hpp
@@ -8,7 +8,7 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 
 // push_not_word_boundary
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_not_word_boundary, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(boundary<negative_set<word_chars>>(), subject.stack), subject.parameters};
+	return pcre_context{ctll::push_front(not_boundary<word_chars>(), subject.stack), subject.parameters};
 }
 
 #endif
diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index bc54b76..2838807 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -51,6 +51,12 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<boundary<CharLike>, Ta
 	return first(l, ctll::list<Tail...>{});
 }
 
+// not_boundary
+template <typename... Content, typename CharLike, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
+	return first(l, ctll::list<Tail...>{});
+}
+
 // asserts
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin, Tail...>) noexcept {
-- 
2.43.0


From 7688b2d39800aee4dd4e737c3bbe483fb4470bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 02/35] fix: \e is ESC (0x1B), not DC4 (0x14)

---
 include/ctre/actions/characters.inc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/actions/characters.inc.hpp b/include/ctre/actions/characters.inc.hpp
index 4aa7ffd..9835837 100644
--- a/include/ctre/actions/characters.inc.hpp
+++ b/include/ctre/actions/characters.inc.hpp
@@ -15,7 +15,7 @@ template <auto V, typename... Ts, typename Parameters> static constexpr auto app
 }
 // character_escape
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_character_escape, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(character<'\x14'>(), subject.stack), subject.parameters};
+	return pcre_context{ctll::push_front(character<'\x1B'>(), subject.stack), subject.parameters};
 }
 // character_formfeed
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_character_formfeed, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
-- 
2.43.0


From 156e74c15ea9fbcc40b652612d3f84606d838fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 03/35] fix: greedy repeats followed by a zero-width assertion
 must backtrack

The first-set of \b, \B, ^ and \A was calculated as if they were not there and
that of $ and \Z as empty, so a repeat in front of them was turned into a
possessive one even if giving characters back could make the assertion
succeed (e.g. .*\b on "a ", or [^b]*$ in multiline mode).
---
 include/ctre/first.hpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index 2838807..a8f2698 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -47,20 +47,22 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<empty, Tail...>) noexc
 
 // boundary
 template <typename... Content, typename CharLike, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<boundary<CharLike>, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<boundary<CharLike>, Tail...>) noexcept {
+	// it looks also at the previous character => can succeed in the middle of a cycle
+	return ctll::list<can_be_anything>{};
 }
 
 // not_boundary
 template <typename... Content, typename CharLike, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<not_boundary<CharLike>, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
 }
 
 // asserts
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_begin, Tail...>) noexcept {
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_begin, Tail...>) noexcept {
+	// it succeeds only before the first iteration of a cycle
+	return ctll::list<can_be_anything>{};
 }
 
 template <typename... Content, typename... Tail> 
@@ -69,21 +71,21 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end, Ta
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_subject_end_line, Tail...>) noexcept {
-	// FIXME allow endline here
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_end_line, Tail...>) noexcept {
+	// can be followed by the last end of line (in multiline mode)
+	return ctll::list<Content..., character<'\n'>>{};
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_begin, Tail...>) noexcept {
-	// FIXME line begin is a bit different than subject begin
-	return first(l, ctll::list<Tail...>{});
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_line_begin, Tail...>) noexcept {
+	// it looks only at the previous character => can succeed in the middle of a cycle
+	return ctll::list<can_be_anything>{};
 }
 
 template <typename... Content, typename... Tail> 
-constexpr auto first(ctll::list<Content...> l, ctll::list<assert_line_end, Tail...>) noexcept {
-	// FIXME line end is a bit different than subject begin
-	return l;
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_line_end, Tail...>) noexcept {
+	// can be followed by an end of line (in multiline mode)
+	return ctll::list<Content..., character<'\n'>>{};
 }
 
 // sequence
-- 
2.43.0


From aa66837e92e0c0dc3f0055812182b8c77a55afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 04/35] fix: first-set collision must respect case-insensitive
 matching

a*A with ctre::case_insensitive was turned into a possessive repeat.
---
 include/ctre/first.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index a8f2698..f9efb42 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -3,6 +3,10 @@
 
 #include "atoms.hpp"
 #include "atoms_unicode.hpp"
+#ifndef CTRE_IN_A_MODULE
+#include <algorithm>
+#include <limits>
+#endif
 
 namespace ctre {
 	
@@ -471,6 +475,13 @@ public:
 		//insert_point(high, low);
 	}
 	constexpr bool check(int64_t low, int64_t high) {
+		// case-insensitivity is known only in runtime, so ascii letters collide in both cases
+		return overlaps(low, high)
+			|| overlaps((std::max)(low, int64_t{'a'}) - 0x20, (std::min)(high, int64_t{'z'}) - 0x20)
+			|| overlaps((std::max)(low, int64_t{'A'}) + 0x20, (std::min)(high, int64_t{'Z'}) + 0x20);
+	}
+	constexpr bool overlaps(int64_t low, int64_t high) {
+		if (low > high) return false;
 		for (const auto & r: *this) {
 			if (r.low <= low && low <= r.high) {
 				return true;
-- 
2.43.0


From 34b22404719a37a6b4fa495fd8120d6b2a89af0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 05/35] fix: first-set of negated items inside of character
 classes

Patterns like a*[[:^digit:]], [^\W]*b or b*[\P{L}a] didn't compile.
---
 include/ctre/first.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index f9efb42..ed35b5f 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -382,13 +382,18 @@ constexpr auto negative_helper(ctre::property<PropertyType, Property, Value>, CB
 	return start;
 }
 
+// we don't calculate what a negative item is excluding => act like it's not there
+template <typename> constexpr bool is_negative_item = false;
+template <typename... Content> constexpr bool is_negative_item<ctre::negate<Content...>> = true;
+template <typename... Content> constexpr bool is_negative_item<ctre::negative_set<Content...>> = true;
+
 template <typename Head, typename... Rest, typename CB> constexpr int64_t negative_helper(ctre::set<Head, Rest...>, CB & cb, int64_t start) {
-	start = negative_helper(Head{}, cb, start);
+	if constexpr (!is_negative_item<Head>) start = negative_helper(Head{}, cb, start);
 	return negative_helper(ctre::set<Rest...>{}, cb, start);
 }
 
 template <typename Head, typename... Rest, typename CB> constexpr void negative_helper(ctre::negative_set<Head, Rest...>, CB && cb, int64_t start = (std::numeric_limits<int64_t>::min)()) {
-	start = negative_helper(Head{}, cb, start);
+	if constexpr (!is_negative_item<Head>) start = negative_helper(Head{}, cb, start);
 	negative_helper(ctre::negative_set<Rest...>{}, std::forward<CB>(cb), start);
 }
 
@@ -506,6 +511,9 @@ public:
 	constexpr bool check(can_be_anything) {
 		return used > 0;
 	}
+	template <typename... Content> constexpr bool check(ctre::negate<Content...>) {
+		return check(ctre::negative_set<Content...>{});
+	}
 	template <typename PropertyType, PropertyType Property> 
 	constexpr bool check(ctre::binary_property<PropertyType, Property>) {
 		return check(can_be_anything{});
-- 
2.43.0


From 084c72e25ee6e99996c561577d1f125148e3f66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 06/35] fix: first-set of mode switches, reject and lookbehind
 ends

A greedy repeat in front of a mode switch or at the end of a lookbehind, or in
front of a possessive repeat which can't match, didn't compile.
---
 include/ctre/first.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index ed35b5f..56f86f1 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -38,6 +38,23 @@ constexpr auto first(ctll::list<Content...> l, ctll::list<end_lookahead_mark, Ta
 	return l;
 }
 
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<end_lookbehind_mark, Tail...>) noexcept {
+	return l;
+}
+
+// nothing can follow reject
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<reject, Tail...>) noexcept {
+	return l;
+}
+
+// mode switch
+template <typename... Content, typename Mode, typename... Tail> 
+constexpr auto first(ctll::list<Content...> l, ctll::list<mode_switch<Mode>, Tail...>) noexcept {
+	return first(l, ctll::list<Tail...>{});
+}
+
 template <typename... Content, size_t Id, typename... Tail> 
 constexpr auto first(ctll::list<Content...> l, ctll::list<numeric_mark<Id>, Tail...>) noexcept {
 	return first(l, ctll::list<Tail...>{});
-- 
2.43.0


From fb5b577c9a3e81ab379b569b5dcb2333d5ee72ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 07/35] fix: X{0} matches only empty string, not any number of
 X

X{0} was translated to a repeat type where an upper bound of zero means
infinity.
---
 include/ctre/actions/repeat.inc.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/ctre/actions/repeat.inc.hpp b/include/ctre/actions/repeat.inc.hpp
index 98c2e0b..c3a3233 100644
--- a/include/ctre/actions/repeat.inc.hpp
+++ b/include/ctre/actions/repeat.inc.hpp
@@ -38,13 +38,23 @@ template <auto V, typename... Content, size_t A, size_t B, typename... Ts, typen
 	return pcre_context{ctll::push_front(repeat<A,B,Content...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
+// in the repeat types an upper bound of zero means infinity, hence a repeat of exactly zero needs a body
+// which always rejects (content is kept, so I have same amount of captures)
+template <size_t A, typename... Content> static constexpr auto make_exact_repeat() {
+	if constexpr (A == 0) {
+		return repeat<0,1,reject,Content...>();
+	} else {
+		return repeat<A,A,Content...>();
+	}
+}
+
 // repeat_exactly 
 template <auto V, typename Subject, size_t A, typename... Ts, typename Parameters> static constexpr auto apply(pcre::repeat_exactly, ctll::term<V>, pcre_context<ctll::list<number<A>, Subject, Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(repeat<A,A,Subject>(), ctll::list<Ts...>()), subject.parameters};
+	return pcre_context{ctll::push_front(make_exact_repeat<A,Subject>(), ctll::list<Ts...>()), subject.parameters};
 }
 // repeat_exactly A..B (sequence)
 template <auto V, typename... Content, size_t A, typename... Ts, typename Parameters> static constexpr auto apply(pcre::repeat_exactly, ctll::term<V>, pcre_context<ctll::list<number<A>, sequence<Content...>, Ts...>, Parameters> subject) {
-	return pcre_context{ctll::push_front(repeat<A,A,Content...>(), ctll::list<Ts...>()), subject.parameters};
+	return pcre_context{ctll::push_front(make_exact_repeat<A,Content...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
 // repeat_at_least (A+) 
-- 
2.43.0


From d4b45519468d3cd69c908c59ccc9c03f84767f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 08/35] fix: an optional repeat at the start of a pattern does
 not anchor it

---
 include/ctre/starts_with_anchor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ctre/starts_with_anchor.hpp b/include/ctre/starts_with_anchor.hpp
index 62c28b9..f9c3894 100644
--- a/include/ctre/starts_with_anchor.hpp
+++ b/include/ctre/starts_with_anchor.hpp
@@ -55,19 +55,19 @@ constexpr bool starts_with_anchor(const flags & f, ctll::list<sequence<Seq...>,
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A != 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<lazy_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A != 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t A, size_t B, typename... Seq, typename... Content> 
 constexpr bool starts_with_anchor(const flags & f, ctll::list<possessive_repeat<A, B, Seq...>, Content...>) noexcept {
 	// check if all options starts with anchor or if they are empty, there is an anchor behind them
-	return starts_with_anchor(f, ctll::list<Seq..., Content...>{});
+	return starts_with_anchor(f, ctll::list<Seq..., Content...>{}) && (A != 0 || starts_with_anchor(f, ctll::list<Content...>{}));
 }
 
 template <size_t Index, typename... Seq, typename... Content> 
-- 
2.43.0


From 0582cb496c5e75b2a9984dc558c6171d22129fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 09/35] fix: empty iterations of repeats

Mandatory iterations are allowed to match empty string, and on the other side
a repeat without a non-empty iteration must not mark that something was
consumed (this lead to infinite recursion).
---
 include/ctre/evaluation.hpp      | 21 +++++++++++----------
 include/ctre/flags_and_modes.hpp |  5 +++++
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 7e9f0e4..b3ca069 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -278,7 +278,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		size_t i{0};
 	
 		while (less_than<A>(i)) {
-			auto outer_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			auto outer_result = evaluate(begin, current, last, can_be_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!outer_result) return not_matched;
 		
@@ -310,7 +310,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		}
 	
 		// rest of regex
-		return evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+		return evaluate(begin, current, last, consumed_something(f, backup_current != current), captures, ctll::list<Tail...>());
 	}
 }
 
@@ -325,7 +325,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 
 		for (size_t i{0}; less_than_or_infinite<B>(i); ++i) {
 			// try as many of inner as possible and then try outer once
-			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			auto inner_result = evaluate(begin, current, last, less_than<A>(i) ? can_be_empty_match(f) : not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!inner_result) {
 				if (!less_than<A>(i)) break;
@@ -360,21 +360,21 @@ constexpr inline R evaluate_recursive(size_t i, const BeginIterator begin, Itera
 			auto tmp_current = current;
 			tmp_current = inner_result.get_end_position();
 			#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-			evaluate_recursive(result, i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack);
+			evaluate_recursive(result, i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack);
 			if (result) {
 				return;
 			}
 			#else
-			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, f, inner_result.unmatch(), stack)) {
+			if (auto rec_result = evaluate_recursive(i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack)) {
 				return rec_result;
 			}
 			#endif
 		}
 	}
 	#ifdef CTRE_MSVC_GREEDY_WORKAROUND
-	result = evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	result = evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#else
-	return evaluate(begin, current, last, consumed_something(f), captures, ctll::list<Tail...>());
+	return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	#endif
 }	
 
@@ -395,9 +395,10 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 #endif
 	else {
 		// A..B
+		const Iterator backup_current = current;
 		size_t i{0};
 		while (less_than<A>(i)) {
-			auto inner_result = evaluate(begin, current, last, not_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
+			auto inner_result = evaluate(begin, current, last, can_be_empty_match(f), captures, ctll::list<Content..., end_cycle_mark>());
 		
 			if (!inner_result) return not_matched;
 		
@@ -409,10 +410,10 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	
 #ifdef CTRE_MSVC_GREEDY_WORKAROUND
 		R result;
-		evaluate_recursive(result, i, begin, current, last, f, captures, stack);
+		evaluate_recursive(result, i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 		return result;
 #else
-		return evaluate_recursive(i, begin, current, last, f, captures, stack);
+		return evaluate_recursive(i, begin, current, last, consumed_something(f, backup_current != current), captures, stack);
 #endif
 	}
 
diff --git a/include/ctre/flags_and_modes.hpp b/include/ctre/flags_and_modes.hpp
index 19c848d..a63baa8 100644
--- a/include/ctre/flags_and_modes.hpp
+++ b/include/ctre/flags_and_modes.hpp
@@ -75,6 +75,11 @@ constexpr CTRE_FORCE_INLINE auto not_empty_match(flags f) {
 	return f;
 }
 
+constexpr CTRE_FORCE_INLINE auto can_be_empty_match(flags f) {
+	f.block_empty_match = false;
+	return f;
+}
+
 constexpr CTRE_FORCE_INLINE auto consumed_something(flags f, bool condition = true) {
 	if (condition) f.block_empty_match = false;
 	return f;
-- 
2.43.0


From 83bab139a64bf3a23e28afb3b5e73aef5d7a5355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 10/35] fix: order of operands when fusing a repeat into a
 sequence

Possessive repeats are not commutative: a?+a++b is not a++a?+b.
---
 include/ctre/actions/fusion.inc.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ctre/actions/fusion.inc.hpp b/include/ctre/actions/fusion.inc.hpp
index bccb20b..1a2f6d1 100644
--- a/include/ctre/actions/fusion.inc.hpp
+++ b/include/ctre/actions/fusion.inc.hpp
@@ -48,21 +48,21 @@ template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename..
 
 // concat repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<repeat<MinB, MaxB, Content...>, As...>,repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(repeat<MinB, MaxB, Content...>(), repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(repeat<MinA, MaxA, Content...>(), repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
 // concat lazy repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<lazy_repeat<MinB, MaxB, Content...>, As...>,lazy_repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(lazy_repeat<MinB, MaxB, Content...>(), lazy_repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(lazy_repeat<MinA, MaxA, Content...>(), lazy_repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
 
 // concat possessive repeat sequences into sequence
 template <auto V, size_t MinA, size_t MaxA, size_t MinB, size_t MaxB, typename... Content, typename... As, typename... Ts, typename Parameters> static constexpr auto apply(pcre::make_sequence, ctll::term<V>, pcre_context<ctll::list<sequence<possessive_repeat<MinB, MaxB, Content...>, As...>,possessive_repeat<MinA, MaxA, Content...>,Ts...>, Parameters> subject) {
-	using result = decltype(combine_repeat(possessive_repeat<MinB, MaxB, Content...>(), possessive_repeat<MinA, MaxA, Content...>()));
+	using result = decltype(combine_repeat(possessive_repeat<MinA, MaxA, Content...>(), possessive_repeat<MinB, MaxB, Content...>()));
 	
 	return pcre_context{ctll::push_front(sequence<result,As...>(), ctll::list<Ts...>()), subject.parameters};
 }
-- 
2.43.0


From 6dd03403b6b7dd8759c179983df52fa42c333d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 11/35] fix: anchors and nested lookarounds inside of a
 lookbehind

Lookbehind is evaluated over the reversed subject, so the begin/end anchors and
the direction of nested lookarounds must be swapped.
---
 include/ctre/rotate.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/ctre/rotate.hpp b/include/ctre/rotate.hpp
index f232883..35eba80 100644
--- a/include/ctre/rotate.hpp
+++ b/include/ctre/rotate.hpp
@@ -75,11 +75,11 @@ template <typename... Content> static auto rotate(sequence<Content...>) {
 	return ctre::convert_to_basic_list<sequence>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
 }
 
-// we don't rotate lookaheads
-template <typename... Content> static auto rotate(lookahead_positive<Content...>) -> lookahead_positive<Content...>;
-template <typename... Content> static auto rotate(lookahead_negative<Content...>) -> lookahead_negative<Content...>;
-template <typename... Content> static auto rotate(lookbehind_positive<Content...>) -> lookbehind_positive<Content...>;
-template <typename... Content> static auto rotate(lookbehind_negative<Content...>) -> lookbehind_negative<Content...>;
+// lookbehind is evaluated over a reversed subject, so a nested look has to look in the opposite direction (and its content is already in the right order)
+template <typename... Content> static auto rotate(lookahead_positive<Content...>) -> lookbehind_positive<Content...>;
+template <typename... Content> static auto rotate(lookahead_negative<Content...>) -> lookbehind_negative<Content...>;
+template <typename... Content> static auto rotate(lookbehind_positive<Content...>) -> lookahead_positive<Content...>;
+template <typename... Content> static auto rotate(lookbehind_negative<Content...>) -> lookahead_negative<Content...>;
 
 static auto rotate(atomic_start) -> atomic_start;
 
@@ -90,11 +90,12 @@ template <typename... Content> static auto rotate(atomic_group<Content...>) {
 template <typename... Content> static auto rotate(boundary<Content...>) -> boundary<Content...>;
 template <typename... Content> static auto rotate(not_boundary<Content...>) -> not_boundary<Content...>;
 
-static auto rotate(assert_subject_begin) -> assert_subject_begin;
-static auto rotate(assert_subject_end) -> assert_subject_end;
+// begin of a subject (or of a line) is the end of the reversed one
+static auto rotate(assert_subject_begin) -> assert_subject_end;
+static auto rotate(assert_subject_end) -> assert_subject_begin;
 static auto rotate(assert_subject_end_line) -> assert_subject_end_line;
-static auto rotate(assert_line_begin) -> assert_line_begin;
-static auto rotate(assert_line_end) -> assert_line_end;
+static auto rotate(assert_line_begin) -> assert_line_end;
+static auto rotate(assert_line_end) -> assert_line_begin;
 
 };
 
-- 
2.43.0


From 68256590b599eee0b1c8b9d6a448503616e83251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 12/35] fix: backreferences must respect case-insensitive mode

---
 include/ctre/atoms_characters.hpp | 4 ++++
 include/ctre/evaluation.hpp       | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ctre/atoms_characters.hpp b/include/ctre/atoms_characters.hpp
index ed9e66e..f54e53e 100644
--- a/include/ctre/atoms_characters.hpp
+++ b/include/ctre/atoms_characters.hpp
@@ -31,6 +31,10 @@ template <typename T> constexpr CTRE_FORCE_INLINE bool is_ascii_alpha_uppercase(
 	return (v >= static_cast<T>('A')) && v <= (static_cast<T>('Z'));
 }
 
+template <typename T> constexpr CTRE_FORCE_INLINE bool is_same_character(T lhs, T rhs, const flags & f) noexcept {
+	return lhs == rhs || (is_case_insensitive(f) && is_ascii_alpha(lhs) && rhs == (lhs ^ static_cast<T>(0x20)));
+}
+
 template <auto V> struct character {
 	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT value, const flags & f) noexcept {
 		if constexpr (is_ascii_alpha(V)) {
diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index b3ca069..183c694 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -443,9 +443,9 @@ template <typename Iterator> struct string_match {
 	bool match;
 };
 
-template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, flags) noexcept {
+template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<Iterator> match_against_range(Iterator current, const EndIterator last, Iterator range_current, const Iterator range_end, const flags & f) noexcept {
 	while (last != current && range_end != range_current) {
-		if (*current == *range_current) {
+		if (is_same_character(*current, *range_current, f)) {
 			current++;
 			range_current++;
 		} else {
-- 
2.43.0


From 608c70ae25e038e2f994113bba0e78db8d0268f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 13/35] fix: case-insensitive ranges with ends which are not
 letters of the same case

[0-Z] or [X-c] must match also the other case of ascii letters which are inside.
---
 include/ctre/atoms_characters.hpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/include/ctre/atoms_characters.hpp b/include/ctre/atoms_characters.hpp
index f54e53e..493910e 100644
--- a/include/ctre/atoms_characters.hpp
+++ b/include/ctre/atoms_characters.hpp
@@ -70,18 +70,12 @@ template <typename... Content> struct negate {
 
 template <auto A, auto B> struct char_range {
 	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT value, const flags & f) noexcept {
-		if constexpr (is_ascii_alpha_lowercase(A) && is_ascii_alpha_lowercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
-					return true;//
-				}
-			}	
-		} else if constexpr (is_ascii_alpha_uppercase(A) && is_ascii_alpha_uppercase(B)) {
-			if (is_case_insensitive(f)) {
-				if (value >= (A ^ static_cast<decltype(A)>(0x20)) && value <= (B ^ static_cast<decltype(B)>(0x20))) {
-					return true;//
-				}
-			}	
+		if (is_case_insensitive(f) && is_ascii_alpha(value)) {
+			// only ascii letters have the other case, and these are in every encoding an offset of 0x20
+			const auto other_case = static_cast<CharT>(value ^ static_cast<CharT>(0x20));
+			if ((other_case >= A) && (other_case <= B)) {
+				return true;
+			}
 		}
 		return (value >= A) && (value <= B);
 	}
-- 
2.43.0


From 503402b19b61fbf83df58c69b0a10232a724010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 14/35] fix: compare code units above 0x7F as unsigned values

Characters of a pattern are never negative, but plain char (and wchar_t) can
be, so ctre::match<"\xE9">("\xE9") didn't match and [^\xE9] did.
---
 include/ctre/atoms_characters.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/ctre/atoms_characters.hpp b/include/ctre/atoms_characters.hpp
index 493910e..7bb3ce5 100644
--- a/include/ctre/atoms_characters.hpp
+++ b/include/ctre/atoms_characters.hpp
@@ -6,6 +6,7 @@
 
 #ifndef CTRE_IN_A_MODULE
 #include <cstdint>
+#include <type_traits>
 #endif
 
 namespace ctre {
@@ -19,6 +20,15 @@ public:
 	template <typename CharT> static inline constexpr bool value = decltype(test<T>(std::declval<CharT>()))();
 };
 
+// code units with the highest bit set are negative where the character type is signed, and characters of a pattern never are
+template <typename CharT> constexpr CTRE_FORCE_INLINE auto code_value(CharT value) noexcept {
+	if constexpr (std::is_integral_v<CharT> && !std::is_same_v<CharT, bool>) {
+		return static_cast<char32_t>(static_cast<std::make_unsigned_t<CharT>>(value));
+	} else {
+		return value;
+	}
+}
+
 template <typename T> constexpr CTRE_FORCE_INLINE bool is_ascii_alpha(T v) {
 	return ((v >= static_cast<T>('a') && v <= static_cast<T>('z')) || (v >= static_cast<T>('A') && v <= static_cast<T>('Z')));
 }
@@ -44,7 +54,7 @@ template <auto V> struct character {
 				}
 			}	
 		}
-		return value == V;
+		return code_value(value) == code_value(V);
 	}
 };
 
@@ -72,12 +82,12 @@ template <auto A, auto B> struct char_range {
 	template <typename CharT> CTRE_FORCE_INLINE static constexpr bool match_char(CharT value, const flags & f) noexcept {
 		if (is_case_insensitive(f) && is_ascii_alpha(value)) {
 			// only ascii letters have the other case, and these are in every encoding an offset of 0x20
-			const auto other_case = static_cast<CharT>(value ^ static_cast<CharT>(0x20));
-			if ((other_case >= A) && (other_case <= B)) {
+			const auto other_case = code_value(static_cast<CharT>(value ^ static_cast<CharT>(0x20)));
+			if ((other_case >= code_value(A)) && (other_case <= code_value(B))) {
 				return true;
 			}
 		}
-		return (value >= A) && (value <= B);
+		return (code_value(value) >= code_value(A)) && (code_value(value) <= code_value(B));
 	}
 };
 using word_chars = set<char_range<'A','Z'>, char_range<'a','z'>, char_range<'0','9'>, character<'_'> >;
-- 
2.43.0


From f07c058139964e197f73795666715628d393552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 15/35] fix: captures inside of an atomic group

---
 include/ctre/find_captures.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ctre/find_captures.hpp b/include/ctre/find_captures.hpp
index 43a8f77..aa7e808 100644
--- a/include/ctre/find_captures.hpp
+++ b/include/ctre/find_captures.hpp
@@ -109,6 +109,11 @@ CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> co
 }
 
 
+CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> constexpr auto find_captures(ctll::list<atomic_group<Content...>, Tail...>, Output output) noexcept {
+	return find_captures(ctll::list<Content..., Tail...>(), output);
+}
+
+
 
 
 CTRE_EXPORT template <size_t Id, typename... Content, typename... Tail, typename... Output> constexpr auto find_captures(ctll::list<capture<Id,Content...>, Tail...>, ctll::list<Output...>) noexcept {
-- 
2.43.0


From 8b6b359d334f4ba487963c7d415ca0ace9711f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 16/35] fix: search_all/tokenize/split must terminate on empty
 matches

An empty match was found at the same position forever, and split repeated the
last piece for separators matching the end of the subject or when the pattern
is anchored.
---
 include/ctre/iterators.hpp | 31 +++++++++++++++++++++++++++----
 include/ctre/wrapper.hpp   |  8 ++++++++
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/include/ctre/iterators.hpp b/include/ctre/iterators.hpp
index 7964914..c78e4bb 100644
--- a/include/ctre/iterators.hpp
+++ b/include/ctre/iterators.hpp
@@ -49,6 +49,16 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 			return *this;
 		}
 		
+		// an empty match would be found at the same position again and again
+		if (current_match && current_match.template get<0>().begin() == current_match.template get<0>().end()) {
+			if constexpr (RE::method::can_skip_characters) {
+				++current;
+			} else {
+				current_match = decltype(current_match){};
+				return *this;
+			}
+		}
+		
 		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, current, end);
 		
 		if (current_match) {
@@ -105,19 +115,21 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 	EndIterator end{};
 	value_type current_match{};
 	bool last_match{false};
+	bool empty_separator{false};
 
 	constexpr CTRE_FORCE_INLINE void modify_match() {
 		auto tmp = current_match.template get<0>().end();
+		empty_separator = (current_match.template get<0>().begin() == tmp);
 		current_match.set_end_mark(current_match.template get<0>().begin());
 		current_match.set_start_mark(current);
 		current = tmp;
 	}
 	
 	constexpr CTRE_FORCE_INLINE void match_rest() {
-		// the end is there set by search_method
 		current_match.set_start_mark(current);
+		while (current != end) ++current;
+		current_match.set_end_mark(current);
 		current_match.matched();
-		current = current_match.template get<0>().end();
 		last_match = true;
 	}
 
@@ -140,12 +152,23 @@ template <typename BeginIterator, typename EndIterator, typename RE, typename Re
 		return current_match;
 	}
 	constexpr CTRE_FORCE_INLINE regex_split_iterator & operator++() noexcept {
-		if (current == end && last_match) {
+		if (last_match) {
+			current_match = decltype(current_match){};
+			return *this;
+		}
+		
+		if (current == end) {
+			// nothing left after the last separator
 			current_match = decltype(current_match){};
+			match_rest();
 			return *this;
 		}
 	
-		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, current, end);
+		auto search_from = current;
+		// an empty separator would be found at the same position again and again
+		if (empty_separator) ++search_from;
+	
+		current_match = RE::template exec_with_result_iterator<ResultIterator>(orig_begin, search_from, end);
 	
 		if (current_match) {
 			modify_match();
diff --git a/include/ctre/wrapper.hpp b/include/ctre/wrapper.hpp
index b31becf..35203b7 100644
--- a/include/ctre/wrapper.hpp
+++ b/include/ctre/wrapper.hpp
@@ -66,6 +66,8 @@ public:
 };
 
 struct match_method {
+	static constexpr bool can_skip_characters = false;
+
 	template <typename Modifier = singleline, typename ResultIterator = void, typename RE, typename IteratorBegin, typename IteratorEnd> constexpr CTRE_FORCE_INLINE static auto exec(IteratorBegin orig_begin, IteratorBegin begin, IteratorEnd end, RE) noexcept {
 		using result_iterator = std::conditional_t<std::is_same_v<ResultIterator, void>, IteratorBegin, ResultIterator>;
 
@@ -78,6 +80,8 @@ struct match_method {
 };
 
 struct search_method {
+	static constexpr bool can_skip_characters = true;
+
 	template <typename Modifier = singleline, typename ResultIterator = void, typename RE, typename IteratorBegin, typename IteratorEnd> constexpr CTRE_FORCE_INLINE static auto exec(IteratorBegin orig_begin, IteratorBegin begin, IteratorEnd end, RE) noexcept {
 		using result_iterator = std::conditional_t<std::is_same_v<ResultIterator, void>, IteratorBegin, ResultIterator>;
 
@@ -106,6 +110,8 @@ struct search_method {
 };
 
 struct starts_with_method {
+	static constexpr bool can_skip_characters = false;
+
 	template <typename Modifier = singleline, typename ResultIterator = void, typename RE, typename IteratorBegin, typename IteratorEnd> constexpr CTRE_FORCE_INLINE static auto exec(IteratorBegin orig_begin, IteratorBegin begin, IteratorEnd end, RE) noexcept {
 		using result_iterator = std::conditional_t<std::is_same_v<ResultIterator, void>, IteratorBegin, ResultIterator>;
 		return evaluate(orig_begin, begin, end, Modifier{}, return_type<result_iterator, RE>{}, ctll::list<start_mark, RE, end_mark, accept>());
@@ -157,6 +163,8 @@ struct iterator_method {
 };
 
 CTRE_EXPORT template <typename RE, typename Method, typename Modifier> struct regular_expression {
+	using method = Method;
+
 	constexpr CTRE_FORCE_INLINE regular_expression() noexcept { }
 	constexpr CTRE_FORCE_INLINE regular_expression(RE) noexcept { }
 
-- 
2.43.0


From 68f5e68d92784a27b7a99e7d4be5d82d44b5a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 17/35] fix: inverted inequality of multi_subject_range's end
 iterator

---
 include/ctre/range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/range.hpp b/include/ctre/range.hpp
index d1412c3..b75227f 100644
--- a/include/ctre/range.hpp
+++ b/include/ctre/range.hpp
@@ -114,7 +114,7 @@ template <typename Range, typename RE> struct multi_subject_range {
 			return left.first != left.last;
 		}
 		friend constexpr CTRE_FORCE_INLINE bool operator!=(end_iterator, const iterator & right) noexcept {
-			return right.first == right.last;
+			return right.first != right.last;
 		}
 	};
 	
-- 
2.43.0


From 577ff0835a2d1f51854c6b25ecaf1d67b542d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 18/35] fix: unmatched capture is not equal to any string,
 hence operator!= is true

---
 include/ctre/return_type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ctre/return_type.hpp b/include/ctre/return_type.hpp
index e37e400..bf89dc0 100644
--- a/include/ctre/return_type.hpp
+++ b/include/ctre/return_type.hpp
@@ -207,13 +207,13 @@ template <size_t Id, typename Name = void> struct captured_content {
 			return bool(lhs) ? lhs.view() == rhs : false;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator!=(const storage & lhs, std::basic_string_view<char_type> rhs) noexcept {
-			return bool(lhs) ? lhs.view() != rhs : false;
+			return bool(lhs) ? lhs.view() != rhs : true;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator==(std::basic_string_view<char_type> lhs, const storage & rhs) noexcept {
 			return bool(rhs) ? lhs == rhs.view() : false;
 		}
 		friend CTRE_FORCE_INLINE constexpr bool operator!=(std::basic_string_view<char_type> lhs, const storage & rhs) noexcept {
-			return bool(rhs) ? lhs != rhs.view() : false;
+			return bool(rhs) ? lhs != rhs.view() : true;
 		}
 		friend CTRE_FORCE_INLINE std::ostream & operator<<(std::ostream & str, const storage & rhs) {
 			return str << rhs.view();
-- 
2.43.0


From 1e5499d0868e66a64773232de84b4af395c6b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 19/35] fix: back-reference to a group from inside of the same
 group

Opening the group moved the start of previously captured content.
---
 include/ctre/return_type.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/ctre/return_type.hpp b/include/ctre/return_type.hpp
index bf89dc0..3aa673c 100644
--- a/include/ctre/return_type.hpp
+++ b/include/ctre/return_type.hpp
@@ -42,6 +42,9 @@ template <size_t Id, typename Name = void> struct captured_content {
 		Iterator _begin{};
 		Iterator _end{};
 		
+		// start of a group which wasn't closed yet (until then the previous content is visible for back-references)
+		Iterator _open{};
+		
 		bool _matched{false};
 	public:
 		using char_type = typename std::iterator_traits<Iterator>::value_type;
@@ -59,6 +62,14 @@ template <size_t Id, typename Name = void> struct captured_content {
 		constexpr CTRE_FORCE_INLINE void set_start(Iterator pos) noexcept {
 			_begin = pos;
 		}
+		constexpr CTRE_FORCE_INLINE void open(Iterator pos) noexcept {
+			_open = pos;
+		}
+		constexpr CTRE_FORCE_INLINE void close(Iterator pos) noexcept {
+			_begin = _open;
+			_end = pos;
+			_matched = true;
+		}
 		constexpr CTRE_FORCE_INLINE storage & set_end(Iterator pos) noexcept {
 			_end = pos;
 			return *this;
@@ -489,11 +500,11 @@ public:
 		return _captures.template select<0>().get_end();
 	}
 	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & start_capture(Iterator pos) noexcept {
-		_captures.template select<Id>().set_start(pos);
+		_captures.template select<Id>().open(pos);
 		return *this;
 	}
 	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & end_capture(Iterator pos) noexcept {
-		_captures.template select<Id>().set_end(pos).matched();
+		_captures.template select<Id>().close(pos);
 		return *this;
 	}
 	constexpr auto begin() const noexcept {
-- 
2.43.0


From 90d6713548b0f4c5c1b5d59dbaf471dc3e74de7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 20/35] fix: utf8_iterator must stay inside of the subject for
 malformed input

A truncated sequence moved the iterator (and hence the end of a match) behind
the end of the subject, stray trailing units moved it in front of the begin, and
a malformed sequence swallowed following valid characters.
---
 include/ctre/utf8.hpp | 45 +++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index 6dfa027..9eac54f 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -60,6 +60,7 @@ struct utf8_iterator {
 	
 	const char8_t * ptr{nullptr};
 	const char8_t * end{nullptr};
+	const char8_t * begin{nullptr};
 #if !defined(__cpp_impl_three_way_comparison) || __cpp_impl_three_way_comparison < 201907L
 	constexpr friend bool operator!=(const utf8_iterator & lhs, sentinel) {
 		return lhs.ptr < lhs.end;
@@ -113,27 +114,47 @@ struct utf8_iterator {
 		return ptr;
 	}
 	
-	constexpr utf8_iterator & operator++() noexcept {
+	static constexpr unsigned trailing_units(char8_t front) noexcept {
 		// the contant is mapping from first 5 bits of first code unit to length of UTF8 code point -1
 		// xxxxx -> yy (5 bits to 2 bits)
 		// 5 bits are 32 combination, and for each I need 2 bits, hence 64 bit constant
-		// (*ptr >> 2) & 0b111110 look at the left 5 bits ignoring the least significant
+		// (front >> 2) & 0b111110 look at the left 5 bits ignoring the least significant
 		// & 0b11u  selects only needed two bits
-		// +1  because each iteration is at least one code unit forward
 		
-		ptr += ((0x3A55000000000000ull >> ((*ptr >> 2) & 0b111110u)) & 0b11u) + 1;
+		return static_cast<unsigned>((0x3A55000000000000ull >> ((front >> 2) & 0b111110u)) & 0b11u);
+	}
+	
+	static constexpr bool is_trailing_unit(char8_t unit) noexcept {
+		return (unit & 0b11000000u) == 0b10'000000;
+	}
+	
+	constexpr utf8_iterator & operator++() noexcept {
+		unsigned trailing = trailing_units(*ptr);
+		
+		// each iteration is at least one code unit forward
+		++ptr;
+		
+		// malformed sequence ends in front of first unit which doesn't belong there
+		while (trailing > 0 && ptr != end && is_trailing_unit(*ptr)) {
+			++ptr;
+			--trailing;
+		}
+		
 		return *this;
 	}
 	
 	constexpr utf8_iterator & operator--() noexcept {
-		if (ptr > end) {
-			ptr = end-1;
-		} else {
-			--ptr;
+		--ptr;
+		
+		const char8_t * front = ptr;
+		
+		for (unsigned i = 0; i != 3 && front != begin && is_trailing_unit(*front); ++i) {
+			--front;
 		}
 		
-		while ((*ptr & 0b11000000u) == 0b10'000000) {
-			--ptr;
+		// trailing units without proper front unit are individual (malformed) code points
+		if (trailing_units(*front) >= static_cast<unsigned>(ptr - front)) {
+			ptr = front;
 		}
 		
 		return *this;
@@ -178,7 +199,7 @@ struct utf8_iterator {
 		}
  
 		// calculate length based on first 5 bits
-		const unsigned length = ((0x3A55000000000000ull >> ((*ptr >> 2) & 0b111110u)) & 0b11u);
+		const unsigned length = trailing_units(*ptr);
 
 		// actual length is number + 1 bytes
 		
@@ -236,7 +257,7 @@ struct utf8_range {
 	constexpr utf8_range(std::u8string_view r) noexcept: range{r} { }
 	
 	constexpr auto begin() const noexcept {
-		return utf8_iterator{range.data(), range.data() + range.size()};
+		return utf8_iterator{range.data(), range.data() + range.size(), range.data()};
 	}
 	constexpr auto end() const noexcept {
 		return utf8_iterator::sentinel{};
-- 
2.43.0


From ed1b365d9481d029c7a21d80b947730d68306e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 21/35] fix: utf8_iterator must not decode overlong encodings,
 surrogates and values above 0x10FFFF

---
 include/ctre/utf8.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index 9eac54f..ef9a619 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -230,6 +230,10 @@ struct utf8_iterator {
 
 		// add rest of trailing units
 		if (length == 1) CTRE_LIKELY {
+			// overlong encoding
+			if (result < 0x80u) CTRE_UNLIKELY {
+				return mojibake;
+			}
 			return result;
 		}
 
@@ -240,6 +244,10 @@ struct utf8_iterator {
 		result = (result << 6) | (ptr[2] & 0b0011'1111u);
 
 		if (length == 2) CTRE_LIKELY {
+			// overlong encoding or a surrogate
+			if (result < 0x800u || (result >= 0xD800u && result <= 0xDFFFu)) CTRE_UNLIKELY {
+				return mojibake;
+			}
 			return result;
 		}
 
@@ -247,7 +255,14 @@ struct utf8_iterator {
 			return mojibake;
 		}
 
-		return (result << 6) | (ptr[3] & 0b0011'1111u);
+		result = (result << 6) | (ptr[3] & 0b0011'1111u);
+
+		// overlong encoding or not an unicode code point
+		if (result < 0x10000u || result > 0x10FFFFu) CTRE_UNLIKELY {
+			return mojibake;
+		}
+
+		return result;
 	}
 };
 
-- 
2.43.0


From 16989df119ec13a6a4b89aeb5d9bf033a6e9c63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:39 +0000
Subject: [PATCH 22/35] fix: \Z inside of a lookbehind must look at the end of
 the (not reversed) subject

---
 include/ctre/atoms.hpp      |  1 +
 include/ctre/evaluation.hpp | 11 +++++++++++
 include/ctre/first.hpp      |  5 +++++
 include/ctre/rotate.hpp     |  3 ++-
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/ctre/atoms.hpp b/include/ctre/atoms.hpp
index f1d8b34..f620483 100644
--- a/include/ctre/atoms.hpp
+++ b/include/ctre/atoms.hpp
@@ -70,6 +70,7 @@ using not_word_boundary = not_boundary<word_chars>;
 struct assert_subject_begin { };
 struct assert_subject_end { };
 struct assert_subject_end_line{ };
+struct assert_reversed_subject_end_line{ };
 struct assert_line_begin { };
 struct assert_line_end { };
 
diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 183c694..06451ee 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -185,6 +185,17 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	}
 }
 
+// \Z inside of a lookbehind (the subject is reversed there)
+template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename... Tail> 
+constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<assert_reversed_subject_end_line, Tail...>) noexcept {
+	if (begin != current) {
+		if (!multiline_mode(f) || std::prev(current) != begin || *std::prev(current) != '\n') {
+			return not_matched;
+		}
+	}
+	return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
+}
+
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<assert_line_begin, Tail...>) noexcept {
 	if (multiline_mode(f)) {
diff --git a/include/ctre/first.hpp b/include/ctre/first.hpp
index 56f86f1..e3d67c1 100644
--- a/include/ctre/first.hpp
+++ b/include/ctre/first.hpp
@@ -97,6 +97,11 @@ constexpr auto first(ctll::list<Content...>, ctll::list<assert_subject_end_line,
 	return ctll::list<Content..., character<'\n'>>{};
 }
 
+template <typename... Content, typename... Tail> 
+constexpr auto first(ctll::list<Content...>, ctll::list<assert_reversed_subject_end_line, Tail...>) noexcept {
+	return ctll::list<can_be_anything>{};
+}
+
 template <typename... Content, typename... Tail> 
 constexpr auto first(ctll::list<Content...>, ctll::list<assert_line_begin, Tail...>) noexcept {
 	// it looks only at the previous character => can succeed in the middle of a cycle
diff --git a/include/ctre/rotate.hpp b/include/ctre/rotate.hpp
index 35eba80..f39d26d 100644
--- a/include/ctre/rotate.hpp
+++ b/include/ctre/rotate.hpp
@@ -93,7 +93,8 @@ template <typename... Content> static auto rotate(not_boundary<Content...>) -> n
 // begin of a subject (or of a line) is the end of the reversed one
 static auto rotate(assert_subject_begin) -> assert_subject_end;
 static auto rotate(assert_subject_end) -> assert_subject_begin;
-static auto rotate(assert_subject_end_line) -> assert_subject_end_line;
+static auto rotate(assert_subject_end_line) -> assert_reversed_subject_end_line;
+static auto rotate(assert_reversed_subject_end_line) -> assert_subject_end_line;
 static auto rotate(assert_line_begin) -> assert_line_end;
 static auto rotate(assert_line_end) -> assert_line_begin;
 
-- 
2.43.0


From fa6162a6b97463f306eefc01a71c6af10db03f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:33 +0000
Subject: [PATCH 23/35] fix: all modes of one switch like (?im) must be
 applied, not only the last one

---
 include/ctre/actions/mode.inc.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ctre/actions/mode.inc.hpp b/include/ctre/actions/mode.inc.hpp
index d4e612b..333add3 100644
--- a/include/ctre/actions/mode.inc.hpp
+++ b/include/ctre/actions/mode.inc.hpp
@@ -10,6 +10,15 @@ template <typename Mode, typename... Ts, size_t Id, size_t Counter> static const
 	return pcre_context<ctll::list<mode_switch<Mode>, Ts...>, pcre_parameters<Counter-1>>{};
 }
 
+// more modes inside of one switch: (?im)
+template <typename Mode, typename... Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<sequence<mode_switch<Previous>...>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<mode_switch<Previous>..., mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
+template <typename Mode, typename Previous, typename... Ts, typename Parameters> static constexpr auto apply_mode(Mode, ctll::list<mode_switch<Previous>, Ts...>, Parameters) {
+	return pcre_context<ctll::list<sequence<mode_switch<Previous>, mode_switch<Mode>>, Ts...>, Parameters>{};
+}
+
 // catch a semantic action into mode
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::mode_case_insensitive mode, ctll::term<V>,pcre_context<ctll::list<Ts...>, Parameters>) {
 	return apply_mode(mode, ctll::list<Ts...>{}, Parameters{});
-- 
2.43.0


From 1a929e889b403976106a4fb0cfbd88623eb96c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 24/35] fix: repeats, captures and back-references inside of a
 lookbehind

---
 include/ctre/evaluation.hpp    |  6 +++---
 include/ctre/find_captures.hpp |  8 ++++++++
 include/ctre/return_type.hpp   | 30 ++++++++++++++++++++++++++++++
 include/ctre/rotate.hpp        | 12 +++++++++---
 4 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index 06451ee..b257be3 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -539,8 +539,8 @@ template <typename R, typename BeginIterator, typename Iterator, typename EndIte
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<lookbehind_positive<Content...>, Tail...>) noexcept {
 	static_assert(is_at_least_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{}), "to use lookbehind you must provide bi-directional iterator");
 	
-	if (auto lookbehind_result = evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, captures, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
-		captures = lookbehind_result.unmatch();
+	if (auto lookbehind_result = evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, captures.reversed(), ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
+		captures.assign_reversed(lookbehind_result);
 		return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 	} else {
 		return not_matched;
@@ -552,7 +552,7 @@ template <typename R, typename BeginIterator, typename Iterator, typename EndIte
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<lookbehind_negative<Content...>, Tail...>) noexcept {
 	static_assert(is_at_least_bidirectional(typename std::iterator_traits<Iterator>::iterator_category{}), "to use negative lookbehind you must provide bi-directional iterator");
 	
-	if (auto lookbehind_result = evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, captures, ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
+	if (auto lookbehind_result = evaluate(std::make_reverse_iterator(last), std::make_reverse_iterator(current), std::make_reverse_iterator(begin), f, captures.reversed(), ctll::list<sequence<Content...>, end_lookbehind_mark>())) {
 		return not_matched;
 	} else {
 		return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
diff --git a/include/ctre/find_captures.hpp b/include/ctre/find_captures.hpp
index aa7e808..2524ab3 100644
--- a/include/ctre/find_captures.hpp
+++ b/include/ctre/find_captures.hpp
@@ -108,6 +108,14 @@ CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> co
 	return find_captures(ctll::list<Content..., Tail...>(), output);
 }
 
+CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> constexpr auto find_captures(ctll::list<lookbehind_positive<Content...>, Tail...>, Output output) noexcept {
+	return find_captures(ctll::list<Content..., Tail...>(), output);
+}
+
+CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> constexpr auto find_captures(ctll::list<lookbehind_negative<Content...>, Tail...>, Output output) noexcept {
+	return find_captures(ctll::list<Content..., Tail...>(), output);
+}
+
 
 CTRE_EXPORT template <typename... Content, typename... Tail, typename Output> constexpr auto find_captures(ctll::list<atomic_group<Content...>, Tail...>, Output output) noexcept {
 	return find_captures(ctll::list<Content..., Tail...>(), output);
diff --git a/include/ctre/return_type.hpp b/include/ctre/return_type.hpp
index 3aa673c..48ec425 100644
--- a/include/ctre/return_type.hpp
+++ b/include/ctre/return_type.hpp
@@ -77,6 +77,23 @@ template <size_t Id, typename Name = void> struct captured_content {
 		constexpr CTRE_FORCE_INLINE Iterator get_end() const noexcept {
 			return _end;
 		}
+		// content of the capture as it is seen in a reversed subject (lookbehind)
+		constexpr CTRE_FORCE_INLINE auto reversed() const noexcept {
+			storage<std::reverse_iterator<Iterator>> output{};
+			if (_matched) {
+				output.set_start(std::make_reverse_iterator(_end));
+				output.set_end(std::make_reverse_iterator(_begin));
+				output.matched();
+			}
+			return output;
+		}
+		constexpr CTRE_FORCE_INLINE void assign_reversed(const storage<std::reverse_iterator<Iterator>> & other) noexcept {
+			if (other) {
+				_begin = other.end().base();
+				_end = other.begin().base();
+			}
+			_matched = bool(other);
+		}
 		
 	
 		constexpr auto begin() const noexcept {
@@ -499,6 +516,19 @@ public:
 	constexpr CTRE_FORCE_INLINE Iterator get_end_position() const noexcept {
 		return _captures.template select<0>().get_end();
 	}
+	// captured groups over a reversed subject (and back)
+	constexpr CTRE_FORCE_INLINE auto reversed() const noexcept {
+		regex_results<std::reverse_iterator<Iterator>, Captures...> output{};
+		((output.template storage_of<Captures::template storage<Iterator>::get_id()>() = _captures.template select<Captures::template storage<Iterator>::get_id()>().reversed()), ...);
+		return output;
+	}
+	constexpr CTRE_FORCE_INLINE regex_results & assign_reversed([[maybe_unused]] const regex_results<std::reverse_iterator<Iterator>, Captures...> & other) noexcept {
+		(_captures.template select<Captures::template storage<Iterator>::get_id()>().assign_reversed(other.template get<Captures::template storage<Iterator>::get_id()>()), ...);
+		return *this;
+	}
+	template <size_t Id> CTRE_FORCE_INLINE constexpr auto & storage_of() noexcept {
+		return _captures.template select<Id>();
+	}
 	template <size_t Id> CTRE_FORCE_INLINE constexpr regex_results & start_capture(Iterator pos) noexcept {
 		_captures.template select<Id>().open(pos);
 		return *this;
diff --git a/include/ctre/rotate.hpp b/include/ctre/rotate.hpp
index f39d26d..c87af21 100644
--- a/include/ctre/rotate.hpp
+++ b/include/ctre/rotate.hpp
@@ -52,9 +52,15 @@ template <typename... Content> static auto rotate(select<Content...>) {
 }
 
 
-template <size_t a, size_t b, typename... Content> static auto rotate(repeat<a,b,Content...>) -> decltype(ctre::convert_to_repeat<repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{})));
-template <size_t a, size_t b, typename... Content> static auto rotate(lazy_repeat<a,b,Content...>) -> decltype(ctre::convert_to_repeat<lazy_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{})));
-template <size_t a, size_t b, typename... Content> static auto rotate(possessive_repeat<a,b,Content...>) -> decltype(ctre::convert_to_repeat<possessive_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{})));
+template <size_t a, size_t b, typename... Content> static auto rotate(repeat<a,b,Content...>) {
+	return ctre::convert_to_repeat<repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
+}
+template <size_t a, size_t b, typename... Content> static auto rotate(lazy_repeat<a,b,Content...>) {
+	return ctre::convert_to_repeat<lazy_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
+}
+template <size_t a, size_t b, typename... Content> static auto rotate(possessive_repeat<a,b,Content...>) {
+	return ctre::convert_to_repeat<possessive_repeat, a, b>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
+}
 
 template <size_t Index, typename... Content> static auto rotate(capture<Index, Content...>) {
 	return ctre::convert_to_capture<Index>(ctll::rotate(ctll::list<decltype(rotate(Content{}))...>{}));
-- 
2.43.0


From 85119e32a00f94b26e855bd24c3e9f0ae30011c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:02 +0000
Subject: [PATCH 25/35] fix: filter owned ranges and ranges of const strings

---
 include/ctre/range.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ctre/range.hpp b/include/ctre/range.hpp
index b75227f..f7fc5a5 100644
--- a/include/ctre/range.hpp
+++ b/include/ctre/range.hpp
@@ -42,11 +42,11 @@ template <typename... Ts> constexpr bool is_range<regex_split_range<Ts...>> = tr
 template <typename Range, typename RE> struct multi_subject_range {
 	struct end_iterator { };
 	
-	using first_type = decltype(std::declval<Range>().begin());
-	using last_type = decltype(std::declval<Range>().end());
+	using first_type = decltype(std::declval<const Range &>().begin());
+	using last_type = decltype(std::declval<const Range &>().end());
 	
 	struct iterator {
-		using value_type = decltype(RE::exec(std::declval<typename std::iterator_traits<first_type>::value_type>()));
+		using value_type = decltype(RE::exec(*std::declval<const first_type &>()));
 		using iterator_category = std::forward_iterator_tag;
 		using reference = const value_type &;
 		using pointer = const value_type *;
-- 
2.43.0


From 246a432a7b5e45b75edf1b2648c4e1d4eb3b5df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:02 +0000
Subject: [PATCH 26/35] fix: back references over UTF-8 subjects

---
 include/ctre/evaluation.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index b257be3..c9f22a2 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -466,6 +466,18 @@ template <typename Iterator, typename EndIterator> constexpr CTRE_FORCE_INLINE s
 	return {current, range_current == range_end};
 }
 
+#ifdef CTRE_ENABLE_UTF8_RANGE
+// captures over an UTF-8 subject hold only pointers to its code units
+template <typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<utf8_iterator> match_against_range(utf8_iterator current, const EndIterator last, const char8_t * range_begin, const char8_t * range_end, const flags & f) noexcept {
+	return match_against_range(current, last, utf8_iterator{range_begin, range_end, range_begin}, utf8_iterator{range_end, range_end, range_begin}, f);
+}
+
+template <typename EndIterator> constexpr CTRE_FORCE_INLINE string_match<std::reverse_iterator<utf8_iterator>> match_against_range(std::reverse_iterator<utf8_iterator> current, const EndIterator last, std::reverse_iterator<const char8_t *> range_begin, std::reverse_iterator<const char8_t *> range_end, const flags & f) noexcept {
+	const auto make = [=](const char8_t * ptr) { return std::make_reverse_iterator(utf8_iterator{ptr, range_begin.base(), range_end.base()}); };
+	return match_against_range(current, last, make(range_begin.base()), make(range_end.base()), f);
+}
+#endif
+
 // backreference with name
 template <typename R, typename Id, typename BeginIterator, typename Iterator, typename EndIterator, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, const flags & f, R captures, ctll::list<back_reference_with_name<Id>, Tail...>) noexcept {
-- 
2.43.0


From 9a93a8727e807784ab80e1db07343e5c9e2d2098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:02 +0000
Subject: [PATCH 27/35] fix: match std::u8string as UTF-8, as
 std::u8string_view is

---
 include/ctre/wrapper.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ctre/wrapper.hpp b/include/ctre/wrapper.hpp
index 35203b7..74f2230 100644
--- a/include/ctre/wrapper.hpp
+++ b/include/ctre/wrapper.hpp
@@ -207,6 +207,11 @@ CTRE_EXPORT template <typename RE, typename Method, typename Modifier> struct re
 		return exec(sv.begin(), sv.end());
 	}
 	template <typename Range, typename = typename std::enable_if<RangeLikeType<Range>::value>::type> static constexpr CTRE_FORCE_INLINE auto exec(Range && range) noexcept {
+#ifdef CTRE_ENABLE_UTF8_RANGE
+		if constexpr (std::is_convertible_v<Range, std::u8string_view>) {
+			return exec(std::u8string_view(range)); // std::u8string is UTF-8 too
+		} else
+#endif
 		return exec(std::begin(range), std::end(range));
 	}
 
-- 
2.43.0


From fc683f5da03bf8e7e2794a2bd7612ad33c4bded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 28/35] fix: ctre::pattern and ctre::fixed_string didn't
 compile

---
 include/ctre/functions.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ctre/functions.hpp b/include/ctre/functions.hpp
index dfda985..8f4b2ba 100644
--- a/include/ctre/functions.hpp
+++ b/include/ctre/functions.hpp
@@ -11,8 +11,8 @@ namespace ctre {
 
 #if !CTRE_CNTTP_COMPILER_CHECK
 // avoiding CTAD limitation in C++17
-template <typename CharT, size_t N> class pattern: public ctll::fixed_string<N> {
-	using parent = ctll::fixed_string<N>;
+template <typename CharT, size_t N> class pattern: public ctll::fixed_string<N-1> {
+	using parent = ctll::fixed_string<N-1>;
 public:
 	constexpr pattern(const CharT (&input)[N]) noexcept: parent(input) { }
 };
@@ -20,8 +20,8 @@ public:
 template <typename CharT, size_t N> pattern(const CharT (&)[N]) -> pattern<CharT, N>;
 
 // for better examples
-template <typename CharT, size_t N> class fixed_string: public ctll::fixed_string<N> {
-	using parent = ctll::fixed_string<N>;
+template <typename CharT, size_t N> class fixed_string: public ctll::fixed_string<N-1> {
+	using parent = ctll::fixed_string<N-1>;
 public:
 	constexpr fixed_string(const CharT (&input)[N]) noexcept: parent(input) { }
 };
-- 
2.43.0


From 32df6d90055b28a4dfff0329a55c8d605575e40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 29/35] fix: repeats over UTF-8 subjects continue with code
 points, also inside of a lookbehind

---
 include/ctre/evaluation.hpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/ctre/evaluation.hpp b/include/ctre/evaluation.hpp
index c9f22a2..2a4f06a 100644
--- a/include/ctre/evaluation.hpp
+++ b/include/ctre/evaluation.hpp
@@ -277,6 +277,18 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 	return evaluate(begin, current, last, f, captures, ctll::list<Tail...>());
 }
 
+// iterator moved to a position from a result (results over an UTF-8 subject hold only pointers to its code units)
+template <typename Iterator, typename Position> constexpr CTRE_FORCE_INLINE Iterator move_to(Iterator current, Position position) noexcept {
+	current = position;
+	return current;
+}
+
+#ifdef CTRE_ENABLE_UTF8_RANGE
+constexpr CTRE_FORCE_INLINE std::reverse_iterator<utf8_iterator> move_to(std::reverse_iterator<utf8_iterator> current, std::reverse_iterator<const char8_t *> position) noexcept {
+	return std::make_reverse_iterator(move_to(current.base(), position.base()));
+}
+#endif
+
 // lazy repeat
 template <typename R, typename BeginIterator, typename Iterator, typename EndIterator, size_t A, size_t B, typename... Content, typename... Tail> 
 constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator current, const EndIterator last, [[maybe_unused]] const flags & f, R captures, ctll::list<lazy_repeat<A,B,Content...>, Tail...>) noexcept {
@@ -294,7 +306,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 			if (!outer_result) return not_matched;
 		
 			captures = outer_result.unmatch();
-			current = outer_result.get_end_position();
+			current = move_to(current, outer_result.get_end_position());
 		
 			++i;
 		}
@@ -308,14 +320,16 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 		
 			if (!inner_result) return not_matched;
 		
-			auto outer_result = evaluate(begin, inner_result.get_end_position(), last, consumed_something(f), inner_result.unmatch(), ctll::list<Tail...>());
+			auto inner_current = move_to(current, inner_result.get_end_position());
+		
+			auto outer_result = evaluate(begin, inner_current, last, consumed_something(f), inner_result.unmatch(), ctll::list<Tail...>());
 		
 			if (outer_result) {
 				return outer_result;
 			}
 		
 			captures = inner_result.unmatch();
-			current = inner_result.get_end_position();
+			current = move_to(current, inner_result.get_end_position());
 		
 			++i;
 		}
@@ -344,7 +358,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 			}
 		
 			captures = inner_result.unmatch();
-			current = inner_result.get_end_position();
+			current = move_to(current, inner_result.get_end_position());
 		}
 	
 		return evaluate(begin, current, last, consumed_something(f, backup_current != current), captures, ctll::list<Tail...>());
@@ -368,8 +382,7 @@ constexpr inline R evaluate_recursive(size_t i, const BeginIterator begin, Itera
 			// if I uncomment this return it will not fail in constexpr (but the matching result will not be correct)
 			//  return inner_result
 			// I tried to add all constructors to R but without any success
-			auto tmp_current = current;
-			tmp_current = inner_result.get_end_position();
+			auto tmp_current = move_to(current, inner_result.get_end_position());
 			#ifdef CTRE_MSVC_GREEDY_WORKAROUND
 			evaluate_recursive(result, i+1, begin, tmp_current, last, consumed_something(f), inner_result.unmatch(), stack);
 			if (result) {
@@ -414,7 +427,7 @@ constexpr CTRE_FORCE_INLINE R evaluate(const BeginIterator begin, Iterator curre
 			if (!inner_result) return not_matched;
 		
 			captures = inner_result.unmatch();
-			current = inner_result.get_end_position();
+			current = move_to(current, inner_result.get_end_position());
 		
 			++i;
 		}
-- 
2.43.0


From 76a002cc0e816e9e49ab0c6b172b616fb3d528c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 30/35] fix: utf8_iterator::reference is what operator* returns
 (a reverse_iterator truncated code points in C++17)

---
 include/ctre/utf8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index ef9a619..124dfb7 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -18,7 +18,7 @@ namespace ctre {
 struct utf8_iterator {
 	using self_type = utf8_iterator;
 	using value_type = char8_t;
-	using reference = char8_t;
+	using reference = char32_t;
 	using pointer = const char8_t *;
 	using iterator_category = std::bidirectional_iterator_tag;
 	using difference_type = int;
-- 
2.43.0


From ef27c6d8d5cbcbb3a0954bb92bb3812d383e735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 31/35] fix: operator!= of a pointer and utf8_iterator was
 equality

---
 include/ctre/utf8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index 124dfb7..a3a6cd0 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -92,7 +92,7 @@ struct utf8_iterator {
 	}
 	
 	constexpr friend bool operator!=(const char8_t * lhs, const utf8_iterator & rhs) {
-		return lhs == rhs.ptr;
+		return lhs != rhs.ptr;
 	}
 	
 	constexpr friend bool operator==(sentinel, const utf8_iterator & rhs) {
-- 
2.43.0


From c6382935c71aa19cbd3fb5007e150349bd164907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 32/35] fix: utf8_iterator formed pointers past the end for
 truncated sequences

---
 include/ctre/utf8.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ctre/utf8.hpp b/include/ctre/utf8.hpp
index a3a6cd0..3704c27 100644
--- a/include/ctre/utf8.hpp
+++ b/include/ctre/utf8.hpp
@@ -209,7 +209,7 @@ struct utf8_iterator {
 		}
 
 		// if part of the utf-8 sequence is past the end
-		if (((ptr + length) >= end)) CTRE_UNLIKELY {
+		if (end - ptr <= static_cast<std::ptrdiff_t>(length)) CTRE_UNLIKELY {
 			return mojibake;
 		}
 		
-- 
2.43.0


From 2f9ce2abbb929eba8952ea0423aa4ef1dc61e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 33/35] fix: truncated UTF-8 and unpaired surrogates in a
 pattern were not flagged as incorrect

---
 include/ctll/fixed_string.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ctll/fixed_string.hpp b/include/ctll/fixed_string.hpp
index 148f377..7e1830b 100644
--- a/include/ctll/fixed_string.hpp
+++ b/include/ctll/fixed_string.hpp
@@ -73,6 +73,7 @@ CTLL_EXPORT template <size_t N> struct fixed_string {
 							if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
 							[[fallthrough]];
 						case 1:
+							if (i >= N) correct_flag = false; // the last code point is cut off
 							content[out++] = static_cast<char32_t>(info.value);
 							real_size++;
 							break;
@@ -109,6 +110,7 @@ CTLL_EXPORT template <size_t N> struct fixed_string {
 						if (++i < N) info.value = (info.value << 6) | value_of_trailing_utf8_code_point(input[i], correct_flag);
 						[[fallthrough]];
 					case 1:
+						if (i >= N) correct_flag = false; // the last code point is cut off
 						content[out++] = static_cast<char32_t>(info.value);
 						real_size++;
 						break;
@@ -130,8 +132,11 @@ CTLL_EXPORT template <size_t N> struct fixed_string {
 							correct_flag = false;
 							break;
 						}
+					} else {
+						correct_flag = false;
 					}
 				} else {
+					if ((info.value & 0b1111'1100'0000'0000) == 0b1101'1100'0000'0000) correct_flag = false;
 					content[out++] = info.value;
 				}
 			}
-- 
2.43.0


From ccc27c04152ea42f2dd419c87efedda952c7c54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 34/35] fix: a back reference by name at the beginning of a
 named group continued the name of the group

---
 include/ctre/actions/capture.inc.hpp | 4 ++++
 include/ctre/pcre.gram               | 2 +-
 include/ctre/pcre.hpp                | 3 ++-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/ctre/actions/capture.inc.hpp b/include/ctre/actions/capture.inc.hpp
index ebf5437..2b01c36 100644
--- a/include/ctre/actions/capture.inc.hpp
+++ b/include/ctre/actions/capture.inc.hpp
@@ -19,6 +19,10 @@ template <auto V, typename A, size_t Id, typename... Ts, size_t Counter> static
 template <auto V, typename... Content, size_t Id, typename... Ts, size_t Counter> static constexpr auto apply(pcre::make_capture, ctll::term<V>, pcre_context<ctll::list<sequence<Content...>, capture_id<Id>, Ts...>, pcre_parameters<Counter>>) {
 	return pcre_context{ctll::push_front(capture<Id, Content...>(), ctll::list<Ts...>()), pcre_parameters<Counter>()};
 }
+// create_name (seed of a referenced name, it never continues the name of the surrounding capture)
+template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::create_name, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
+	return pcre_context{ctll::push_front(id<V>(), subject.stack), subject.parameters};
+}
 // push_name
 template <auto V, typename... Ts, typename Parameters> static constexpr auto apply(pcre::push_name, ctll::term<V>, pcre_context<ctll::list<Ts...>, Parameters> subject) {
 	return pcre_context{ctll::push_front(id<V>(), subject.stack), subject.parameters};
diff --git a/include/ctre/pcre.gram b/include/ctre/pcre.gram
index f86efdf..1588cfa 100644
--- a/include/ctre/pcre.gram
+++ b/include/ctre/pcre.gram
@@ -177,7 +177,7 @@ backslash-><backslash_range>|<backslash_set>
 
 backslash->g,copen,minus,<number>,cclose,[make_relative_back_reference]
 backslash->g,copen,<number>,cclose,[make_back_reference]
-backslash->g,copen,<block_name>,cclose,[make_back_reference]
+backslash->g,copen,alpha_characters,[create_name],<block_name2>,cclose,[make_back_reference]
 backslash->escape_backreference,[create_number],[make_back_reference]
 
 character->other,[push_character] | nonspecial_characters,[push_character] | set_control_chars,[push_character] | dot,[push_character_anything] | backslash,<backslash>|capture_control_chars,[push_character] | \>,[push_character]
diff --git a/include/ctre/pcre.hpp b/include/ctre/pcre.hpp
index 70ee731..1de748a 100644
--- a/include/ctre/pcre.hpp
+++ b/include/ctre/pcre.hpp
@@ -79,6 +79,7 @@ struct pcre {
 	struct class_vertical_space: ctll::action {};
 	struct class_word: ctll::action {};
 	struct create_hexdec: ctll::action {};
+	struct create_name: ctll::action {};
 	struct create_number: ctll::action {};
 	struct finish_hexdec: ctll::action {};
 	struct look_finish: ctll::action {};
@@ -368,7 +369,7 @@ struct pcre {
 
 	static constexpr auto rule(m, ctll::set<'0','1','2','3','4','5','6','7','8','9'>) -> ctll::push<ctll::anything, create_number, number2, ctll::term<'\x7D'>, make_back_reference>;
 	static constexpr auto rule(m, ctll::term<'-'>) -> ctll::push<ctll::anything, number, ctll::term<'\x7D'>, make_relative_back_reference>;
-	static constexpr auto rule(m, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<ctll::anything, push_name, block_name2, ctll::term<'\x7D'>, make_back_reference>;
+	static constexpr auto rule(m, ctll::set<'A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z'>) -> ctll::push<ctll::anything, create_name, block_name2, ctll::term<'\x7D'>, make_back_reference>;
 
 	static constexpr auto rule(mod, ctll::set<'!','$','\x28','\x29',',','-','.','/','0','1','2','3','4','5','6','7','8','9',':','<','=','>','A','B','C','D','E','F','G','H','I','J','K','L','M','N','O','P','Q','R','S','T','U','V','W','X','Y','Z','[','\\','\"',']','^','_','a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x','y','z','|'>) -> ctll::epsilon;
 	static constexpr auto rule(mod, ctll::epsilon) -> ctll::epsilon;
-- 
2.43.0


From 7148a1824e92d1f874a25b9574cbb00f924c51d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 35/35] fix: a search without a match had an end but no
 beginning, its view was a null pointer of a wild length

---
 include/ctre/wrapper.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ctre/wrapper.hpp b/include/ctre/wrapper.hpp
index 74f2230..d8a0980 100644
--- a/include/ctre/wrapper.hpp
+++ b/include/ctre/wrapper.hpp
@@ -99,8 +99,8 @@ struct search_method {
 		auto out = evaluate(orig_begin, it, end, Modifier{}, return_type<result_iterator, RE>{}, ctll::list<start_mark, RE, end_mark, accept>());
 
 		// ALERT: ugly hack
-		// propagate end even if it didn't match (this is needed for split function)
-		if (!out) out.set_end_mark(it);
+		// propagate end even if it didn't match (this is needed for split function), without a match the content is empty
+		if (!out) out.set_start_mark(it).set_end_mark(it);
 		return out;
 	}
 
-- 
2.43.0


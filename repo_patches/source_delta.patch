From 49a7d5f76f76bcde4db4ec6df9d2f2d2e58ad8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:29 +0000
Subject: [PATCH 01/11] fix: choice assigns its value to the right alternative
 when void or repeated types come first

---
 include/k3/tok3n/detail/filter.h | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/include/k3/tok3n/detail/filter.h b/include/k3/tok3n/detail/filter.h
index e4368af..b2ddd99 100644
--- a/include/k3/tok3n/detail/filter.h
+++ b/include/k3/tok3n/detail/filter.h
@@ -63,20 +63,14 @@ using filter_out_void = impl::filter_with_index<impl::is_not_void, impl::list<>,
 
 namespace impl {
 
-template <class ListOfDone, class Seq, class T>
-struct index_lookup;
+// The index of `T` is its position in the list of types that are already done.
+template <class ListOfDone, class T>
+struct index_lookup : std::integral_constant<std::size_t, 0> {};
 
-template <class Head, class... Tail, std::size_t I, std::size_t... Is, class T>
-struct index_lookup<list<Head, Tail...>, std::index_sequence<I, Is...>, T>
-{
-	static constexpr std::size_t value = std::conditional_t<std::is_same_v<T, Head>,
-		std::integral_constant<std::size_t, I>,
-		std::conditional_t<sizeof...(Tail) == 0,
-			std::integral_constant<std::size_t, 0>,
-			index_lookup<list<Tail...>, std::index_sequence<Is...>, T>
-		>
-	>::value;
-};
+template <class Head, class... Tail, class T>
+requires (not std::is_same_v<T, Head>)
+struct index_lookup<list<Head, Tail...>, T>
+	: std::integral_constant<std::size_t, 1 + index_lookup<list<Tail...>, T>::value> {};
 
 template <class Pred, class ListOfDone, class Seq, std::size_t Next, class Head, class... Tail>
 struct filter_deduplicate_with_index;
@@ -87,7 +81,7 @@ struct filter_deduplicate_with_index<Pred, list<Done...>, std::index_sequence<Is
 private:
 	static constexpr std::size_t next_index = std::conditional_t<Pred::template fn<Head>::value,
 		std::conditional_t<(... or std::is_same_v<Done, Head>),
-			index_lookup<list<Done...>, std::index_sequence<Is...>, Head>,
+			index_lookup<list<Done...>, Head>,
 			std::integral_constant<std::size_t, Next>
 		>,
 		std::integral_constant<std::size_t, static_cast<std::size_t>(-1)>
@@ -107,7 +101,7 @@ struct filter_deduplicate_with_index<Pred, list<Done...>, std::index_sequence<Is
 private:
 	static constexpr std::size_t next_index = std::conditional_t<Pred::template fn<Head>::value,
 		std::conditional_t<(... or std::is_same_v<Done, Head>),
-			index_lookup<list<Done...>, std::index_sequence<Is...>, Head>,
+			index_lookup<list<Done...>, Head>,
 			std::integral_constant<std::size_t, Next>
 		>,
 		std::integral_constant<std::size_t, static_cast<std::size_t>(-1)>
-- 
2.43.0


From 94d08e07887d936f46146cea58ae7ed1ee8c8805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:29 +0000
Subject: [PATCH 02/11] fix: converting a failed result never makes it
 successful

---
 include/k3/tok3n/detail/result.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/k3/tok3n/detail/result.h b/include/k3/tok3n/detail/result.h
index 863c4b2..09829e0 100644
--- a/include/k3/tok3n/detail/result.h
+++ b/include/k3/tok3n/detail/result.h
@@ -32,11 +32,19 @@ public:
 
 	template <class T2>
 	constexpr result(const result<T2, U>& other)
-		: _result(other._result), _remaining(other._remaining) {}
+		: _result(), _remaining(other._remaining)
+	{
+		if (other._result.has_value())
+			_result.emplace(*other._result);
+	}
 
 	template <class T2>
 	constexpr result(result<T2, U>&& other)
-		: _result(std::move(other)._result), _remaining(other._remaining) {}
+		: _result(), _remaining(other._remaining)
+	{
+		if (other._result.has_value())
+			_result.emplace(*std::move(other)._result);
+	}
 
 	constexpr explicit operator bool() const noexcept { return _result.operator bool(); }
 	constexpr bool has_value() const noexcept         { return _result.has_value(); }
-- 
2.43.0


From 512f65f115209a68661d287fba3bba522de5e53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:29 +0000
Subject: [PATCH 03/11] fix: a default-constructed result<void, U> is
 unsuccessful, like result<T, U>

---
 include/k3/tok3n/detail/result.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/k3/tok3n/detail/result.h b/include/k3/tok3n/detail/result.h
index 09829e0..a3fa3d2 100644
--- a/include/k3/tok3n/detail/result.h
+++ b/include/k3/tok3n/detail/result.h
@@ -91,7 +91,7 @@ public:
 	constexpr input_span<U> remaining() const noexcept { return _remaining; }
 
 private:
-	bool _successful;
+	bool _successful = false;
 	input_span<U> _remaining;
 };
 
-- 
2.43.0


From 46c9cea7c54fef2bc7205a97b99f8c90021acf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 04/11] fix: sequence and choice honour the verdict of
 sub-parsers whose result is void

---
 include/k3/tok3n/detail/helpers.h          | 19 +++++++------------
 include/k3/tok3n/detail/parsers/choice.h   |  2 +-
 include/k3/tok3n/detail/parsers/sequence.h |  2 +-
 3 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/include/k3/tok3n/detail/helpers.h b/include/k3/tok3n/detail/helpers.h
index 075f7ab..16261b2 100644
--- a/include/k3/tok3n/detail/helpers.h
+++ b/include/k3/tok3n/detail/helpers.h
@@ -152,16 +152,6 @@ struct compound_executor
 		: input(input_)
 	{}
 
-	template <parser P, std::size_t I = static_cast<std::size_t>(-1)>
-	constexpr bool execute()
-	{
-		if constexpr (I == static_cast<std::size_t>(-1))
-			return execute_lookahead<P>();
-		else
-			return execute_element<P, I>();
-	}
-
-private:
 	template <parser P>
 	constexpr bool execute_lookahead()
 	{
@@ -170,15 +160,20 @@ private:
 		return res.has_value();
 	}
 
+	// An index of -1 means that `P` has no value to keep, but it still has to parse successfully
 	template <parser P, std::size_t I>
-	constexpr bool execute_element()
+	constexpr bool execute()
 	{
 		auto res = P::parse(input);
 		if (not res.has_value())
 			return false;
 
 		input = res.remaining();
-		if constexpr (unwrapped)
+		if constexpr (I == static_cast<std::size_t>(-1))
+		{
+			// Nothing to keep
+		}
+		else if constexpr (unwrapped)
 		{
 			if constexpr (std::is_move_assignable_v<ResultType>)
 				builder.assign(std::move(res));
diff --git a/include/k3/tok3n/detail/parsers/choice.h b/include/k3/tok3n/detail/parsers/choice.h
index 6e60c85..0de70f4 100644
--- a/include/k3/tok3n/detail/parsers/choice.h
+++ b/include/k3/tok3n/detail/parsers/choice.h
@@ -58,7 +58,7 @@ public:
 		using Executor = impl::choice_executor<void, V, _trait<V>::unwrapped>;
 		Executor executor{ input };
 
-		bool successful = (executor.template execute<P>() or ... or executor.template execute<Ps>());
+		bool successful = (executor.template execute_lookahead<P>() or ... or executor.template execute_lookahead<Ps>());
 
 		if (successful)
 			return result<void, V>{ success_tag, executor.input };
diff --git a/include/k3/tok3n/detail/parsers/sequence.h b/include/k3/tok3n/detail/parsers/sequence.h
index 7e05b97..f51ea30 100644
--- a/include/k3/tok3n/detail/parsers/sequence.h
+++ b/include/k3/tok3n/detail/parsers/sequence.h
@@ -59,7 +59,7 @@ public:
 		using Executor = impl::sequence_executor<void, V, _trait<V>::unwrapped>;
 		Executor executor{ input };
 
-		bool successful = (executor.template execute<P>() and ... and executor.template execute<Ps>());
+		bool successful = (executor.template execute_lookahead<P>() and ... and executor.template execute_lookahead<Ps>());
 
 		if (successful)
 			return result<void, V>{ success_tag, executor.input };
-- 
2.43.0


From 84cfacec0df9a3589d2d4444441a421f23d72ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 05/11] fix: sub looks inside parsers named with another
 character type

---
 include/k3/tok3n/detail/modifiers/sub.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/k3/tok3n/detail/modifiers/sub.h b/include/k3/tok3n/detail/modifiers/sub.h
index a496abd..ca3fb71 100644
--- a/include/k3/tok3n/detail/modifiers/sub.h
+++ b/include/k3/tok3n/detail/modifiers/sub.h
@@ -27,7 +27,6 @@ struct substitute_one<named_parser<P, str>, Sub>
 };
 
 template <parser P, static_array str, substitution Sub>
-requires (Sub::name != str)
 struct substitute_one<named_parser<P, str>, Sub>
 {
 	using type = named_parser<typename substitute_one<P, Sub>::type, str>;
-- 
2.43.0


From cdf3eac7dcc3487c7f50bc525f7488e183cc8571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 06/11] fix: repetitions stop after a match that consumed
 nothing instead of looping forever

---
 .../detail/optimizations/join_one_or_more_basic.h      |  4 ++--
 .../detail/optimizations/join_zero_or_more_basic.h     |  4 ++--
 include/k3/tok3n/detail/parsers/delimit.h              | 10 +++++++++-
 include/k3/tok3n/detail/parsers/one_or_more.h          |  6 +++++-
 include/k3/tok3n/detail/parsers/zero_or_more.h         |  6 +++++-
 5 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/k3/tok3n/detail/optimizations/join_one_or_more_basic.h b/include/k3/tok3n/detail/optimizations/join_one_or_more_basic.h
index c8adc2f..12a5ee5 100644
--- a/include/k3/tok3n/detail/optimizations/join_one_or_more_basic.h
+++ b/include/k3/tok3n/detail/optimizations/join_one_or_more_basic.h
@@ -33,7 +33,7 @@ struct join_parser<one_or_more_parser<Basic<arr>>>
 		output_span<V> res = { input.data(), Traits::length };
 		input = input.subspan(Traits::length);
 
-		while (not Traits::failure_condition(input))
+		while (Traits::length != 0 and not Traits::failure_condition(input))
 		{
 			res = { res.data(), res.size() + Traits::length };
 			input = input.subspan(Traits::length);
@@ -55,7 +55,7 @@ struct join_parser<one_or_more_parser<Basic<arr>>>
 
 		input = input.subspan(Traits::length);
 
-		while (not Traits::failure_condition(input))
+		while (Traits::length != 0 and not Traits::failure_condition(input))
 		{
 			input = input.subspan(Traits::length);
 		}
diff --git a/include/k3/tok3n/detail/optimizations/join_zero_or_more_basic.h b/include/k3/tok3n/detail/optimizations/join_zero_or_more_basic.h
index 53de522..fab11b7 100644
--- a/include/k3/tok3n/detail/optimizations/join_zero_or_more_basic.h
+++ b/include/k3/tok3n/detail/optimizations/join_zero_or_more_basic.h
@@ -29,7 +29,7 @@ struct join_parser<zero_or_more_parser<Basic<arr>>>
 
 		output_span<V> res = { input.data(), 0 };
 
-		while (not Traits::failure_condition(input))
+		while (Traits::length != 0 and not Traits::failure_condition(input))
 		{
 			res = { res.data(), res.size() + Traits::length };
 			input = input.subspan(Traits::length);
@@ -46,7 +46,7 @@ struct join_parser<zero_or_more_parser<Basic<arr>>>
 
 		using Traits = impl::basic_parser_traits<Basic<arr>>;
 
-		while (not Traits::failure_condition(input))
+		while (Traits::length != 0 and not Traits::failure_condition(input))
 		{
 			input = input.subspan(Traits::length);
 		}
diff --git a/include/k3/tok3n/detail/parsers/delimit.h b/include/k3/tok3n/detail/parsers/delimit.h
index 1c63481..ed9ae93 100644
--- a/include/k3/tok3n/detail/parsers/delimit.h
+++ b/include/k3/tok3n/detail/parsers/delimit.h
@@ -47,6 +47,7 @@ struct delimit_parser
 		if (not res.has_value())
 			return result<result_for<V>, V>{ failure_tag, input };
 
+		bool progressed = true;
 		while (res.has_value())
 		{
 			input = res.remaining();
@@ -58,6 +59,9 @@ struct delimit_parser
 					builder.insert_back_first(std::move(res));
 			}
 
+			if (not progressed)
+				break;
+
 			auto delimit_res = D::parse(input);
 			if (not delimit_res)
 				break;
@@ -73,6 +77,8 @@ struct delimit_parser
 						builder.insert_back_second(std::move(delimit_res));
 				}
 			}
+
+			progressed = res.remaining().size() != input.size();
 		}
 
 		return std::move(builder).build(input);
@@ -88,7 +94,8 @@ struct delimit_parser
 		if (not res.has_value())
 			return result<void, V>{ failure_tag, input };
 
-		while (res.has_value())
+		bool progressed = true;
+		while (res.has_value() and progressed)
 		{
 			input = res.remaining();
 
@@ -97,6 +104,7 @@ struct delimit_parser
 				break;
 
 			res = P::lookahead(delimit_result.remaining());
+			progressed = res.remaining().size() != input.size();
 		}
 
 		return result<void, V>{ success_tag, input };
diff --git a/include/k3/tok3n/detail/parsers/one_or_more.h b/include/k3/tok3n/detail/parsers/one_or_more.h
index e3f3a62..0beca44 100644
--- a/include/k3/tok3n/detail/parsers/one_or_more.h
+++ b/include/k3/tok3n/detail/parsers/one_or_more.h
@@ -36,11 +36,14 @@ struct one_or_more_parser
 		while (true)
 		{
 			auto res = P::parse(input);
+			const bool progressed = res.remaining().size() != input.size();
 			input = res.remaining();
 			successful |= res.has_value();
 			if (not res.has_value())
 				break;
 			builder.insert_back(std::move(res));
+			if (not progressed)
+				break;
 		}
 
 		if (successful)
@@ -60,9 +63,10 @@ struct one_or_more_parser
 		while (true)
 		{
 			auto res = P::lookahead(input);
+			const bool progressed = res.remaining().size() != input.size();
 			input = res.remaining();
 			successful |= res.has_value();
-			if (not res.has_value())
+			if (not res.has_value() or not progressed)
 				break;
 		}
 
diff --git a/include/k3/tok3n/detail/parsers/zero_or_more.h b/include/k3/tok3n/detail/parsers/zero_or_more.h
index c865dbd..7c54d5d 100644
--- a/include/k3/tok3n/detail/parsers/zero_or_more.h
+++ b/include/k3/tok3n/detail/parsers/zero_or_more.h
@@ -35,10 +35,13 @@ struct zero_or_more_parser
 		while (true)
 		{
 			auto res = P::parse(input);
+			const bool progressed = res.remaining().size() != input.size();
 			input = res.remaining();
 			if (not res.has_value())
 				break;
 			builder.insert_back(std::move(res));
+			if (not progressed)
+				break;
 		}
 
 		return std::move(builder).build(input);
@@ -53,8 +56,9 @@ struct zero_or_more_parser
 		while (true)
 		{
 			auto res = P::lookahead(input);
+			const bool progressed = res.remaining().size() != input.size();
 			input = res.remaining();
-			if (not res.has_value())
+			if (not res.has_value() or not progressed)
 				break;
 		}
 
-- 
2.43.0


From 129478414ed301f6d420ee6059e9d5a2644d8b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 07/11] fix: a literal with embedded zeros is seen up to its
 end, not to the first zero

---
 include/k3/tok3n/detail/span.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/k3/tok3n/detail/span.h b/include/k3/tok3n/detail/span.h
index 7a1e351..75dafb4 100644
--- a/include/k3/tok3n/detail/span.h
+++ b/include/k3/tok3n/detail/span.h
@@ -77,7 +77,10 @@ public:
 		: _value(value)
 	{}
 	
-	constexpr span(const T* data)
+	// a template, so that it isn't preferred over the array constructor below
+	template <std::convertible_to<const T*> P>
+	requires std::is_pointer_v<P>
+	constexpr span(const P& data)
 		: _value(std::basic_string_view<T>(data))
 	{}
 
-- 
2.43.0


From fa62ca4b67f6036cbe66c21d7e537b7a144454c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:24 +0000
Subject: [PATCH 08/11] fix: every header includes what it uses

parsers.h did not compile on its own: the optimised joins, named and the
type filter used names of headers they did not include.
---
 include/k3/tok3n/detail/filter.h                                | 1 +
 include/k3/tok3n/detail/optimizations/join_exactly_basic.h      | 1 +
 include/k3/tok3n/detail/optimizations/join_maybe_basic.h        | 1 +
 include/k3/tok3n/detail/optimizations/join_one_or_more_basic.h  | 1 +
 include/k3/tok3n/detail/optimizations/join_zero_or_more_basic.h | 1 +
 include/k3/tok3n/detail/parsers/named.h                         | 1 +
 6 files changed, 6 insertions(+)

diff --git a/include/k3/tok3n/detail/filter.h b/include/k3/tok3n/detail/filter.h
index b2ddd99..72478bf 100644
--- a/include/k3/tok3n/detail/filter.h
+++ b/include/k3/tok3n/detail/filter.h
@@ -4,6 +4,7 @@
 
 #pragma once
 #include <type_traits>
+#include <utility>
 
 namespace k3::tok3n::detail {
 
diff --git a/include/k3/tok3n/detail/optimizations/join_exactly_basic.h b/include/k3/tok3n/detail/optimizations/join_exactly_basic.h
index 3ad5013..2b87b84 100644
--- a/include/k3/tok3n/detail/optimizations/join_exactly_basic.h
+++ b/include/k3/tok3n/detail/optimizations/join_exactly_basic.h
@@ -3,6 +3,7 @@
 // https://www.boost.org/LICENSE_1_0.txt
 
 #pragma once
+#include <k3/tok3n/detail/static_array.h>
 #include <k3/tok3n/detail/parsers/basic_base.h>
 #include <k3/tok3n/detail/parsers/join.h>
 #include <k3/tok3n/detail/parsers/exactly.h>
diff --git a/include/k3/tok3n/detail/optimizations/join_maybe_basic.h b/include/k3/tok3n/detail/optimizations/join_maybe_basic.h
index 41ded06..a16349e 100644
--- a/include/k3/tok3n/detail/optimizations/join_maybe_basic.h
+++ b/include/k3/tok3n/detail/optimizations/join_maybe_basic.h
@@ -3,6 +3,7 @@
 // https://www.boost.org/LICENSE_1_0.txt
 
 #pragma once
+#include <k3/tok3n/detail/static_array.h>
 #include <k3/tok3n/detail/parsers/basic_base.h>
 #include <k3/tok3n/detail/parsers/join.h>
 #include <k3/tok3n/detail/parsers/maybe.h>
diff --git a/include/k3/tok3n/detail/optimizations/join_one_or_more_basic.h b/include/k3/tok3n/detail/optimizations/join_one_or_more_basic.h
index 12a5ee5..8531fb4 100644
--- a/include/k3/tok3n/detail/optimizations/join_one_or_more_basic.h
+++ b/include/k3/tok3n/detail/optimizations/join_one_or_more_basic.h
@@ -3,6 +3,7 @@
 // https://www.boost.org/LICENSE_1_0.txt
 
 #pragma once
+#include <k3/tok3n/detail/static_array.h>
 #include <k3/tok3n/detail/parsers/basic_base.h>
 #include <k3/tok3n/detail/parsers/join.h>
 #include <k3/tok3n/detail/parsers/one_or_more.h>
diff --git a/include/k3/tok3n/detail/optimizations/join_zero_or_more_basic.h b/include/k3/tok3n/detail/optimizations/join_zero_or_more_basic.h
index fab11b7..a12624b 100644
--- a/include/k3/tok3n/detail/optimizations/join_zero_or_more_basic.h
+++ b/include/k3/tok3n/detail/optimizations/join_zero_or_more_basic.h
@@ -3,6 +3,7 @@
 // https://www.boost.org/LICENSE_1_0.txt
 
 #pragma once
+#include <k3/tok3n/detail/static_array.h>
 #include <k3/tok3n/detail/parsers/basic_base.h>
 #include <k3/tok3n/detail/parsers/join.h>
 #include <k3/tok3n/detail/parsers/zero_or_more.h>
diff --git a/include/k3/tok3n/detail/parsers/named.h b/include/k3/tok3n/detail/parsers/named.h
index 4f259e3..5e4d541 100644
--- a/include/k3/tok3n/detail/parsers/named.h
+++ b/include/k3/tok3n/detail/parsers/named.h
@@ -5,6 +5,7 @@
 #pragma once
 #include <k3/tok3n/detail/parser.h>
 #include <k3/tok3n/detail/result.h>
+#include <k3/tok3n/detail/static_array.h>
 
 namespace k3::tok3n::detail {
 
-- 
2.43.0


From 3ee9317271654918d1bfc5e4a807ae0098ac661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:24 +0000
Subject: [PATCH 09/11] fix: the join modifier brings the optimised joins along

Without parsers.h, joins of repetitions were instantiated from the general
template, so translation units with different includes disagreed about the
same types.
---
 include/k3/tok3n/detail/modifiers/join.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/k3/tok3n/detail/modifiers/join.h b/include/k3/tok3n/detail/modifiers/join.h
index 7453f99..ee9d9c7 100644
--- a/include/k3/tok3n/detail/modifiers/join.h
+++ b/include/k3/tok3n/detail/modifiers/join.h
@@ -4,6 +4,10 @@
 
 #pragma once
 #include <k3/tok3n/detail/modifier.h>
+#include <k3/tok3n/detail/optimizations/join_exactly_basic.h>
+#include <k3/tok3n/detail/optimizations/join_maybe_basic.h>
+#include <k3/tok3n/detail/optimizations/join_one_or_more_basic.h>
+#include <k3/tok3n/detail/optimizations/join_zero_or_more_basic.h>
 #include <k3/tok3n/detail/parsers/join.h>
 
 namespace k3::tok3n::detail {
-- 
2.43.0


From 92283eca21a5eec908f1e7cad19dbec9e9b8dc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 10/11] fix: a literal compared with a view is seen up to its
 end, not to its first zero

---
 include/k3/tok3n/detail/span.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/k3/tok3n/detail/span.h b/include/k3/tok3n/detail/span.h
index 75dafb4..1487d44 100644
--- a/include/k3/tok3n/detail/span.h
+++ b/include/k3/tok3n/detail/span.h
@@ -140,6 +140,13 @@ struct span_equal_to
 		return true;
 	}
 
+	// a literal is seen up to its end, as `span`'s array constructor sees it, not to its first zero
+	template <character T, std::size_t N>
+	[[nodiscard]] constexpr bool operator()(const span<T>& lhs, const T(&rhs)[N])
+	{
+		return operator()(lhs, span<T>(rhs));
+	}
+
 	template <class T, class RHS>
 	requires (not impl::is_span<std::remove_cvref_t<RHS>>)
 	[[nodiscard]] constexpr bool operator()(const span<T>& lhs, RHS&& rhs)
-- 
2.43.0


From 308176b0c51b03181b212573635cd57406715ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 11/11] fix: the announced result of a map is that of the call
 it makes

---
 include/k3/tok3n/detail/parsers/map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/k3/tok3n/detail/parsers/map.h b/include/k3/tok3n/detail/parsers/map.h
index a5f4f10..996470e 100644
--- a/include/k3/tok3n/detail/parsers/map.h
+++ b/include/k3/tok3n/detail/parsers/map.h
@@ -18,8 +18,8 @@ struct map_parser
 	template <equality_comparable_with<value_type> V>
 	using result_for = typename std::conditional_t<
 		std::same_as<void, typename P::template result_for<V>>,
-		std::invoke_result<typename FunctionValue::value_type>,
-		std::invoke_result<typename FunctionValue::value_type, typename P::template result_for<V>>
+		std::invoke_result<const typename FunctionValue::value_type&>,
+		std::invoke_result<const typename FunctionValue::value_type&, typename P::template result_for<V>>
 	>::type;
 
 	static constexpr parser_family family = map_family;
-- 
2.43.0


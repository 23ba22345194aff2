From e859b84c8bebc5a621534e0b2ab9ec7ad734a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 1/5] fix: choice: index of a repeated result type is its
 position in the variant

---
 include/k3/tok3n/detail/filter.h | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/include/k3/tok3n/detail/filter.h b/include/k3/tok3n/detail/filter.h
index e4368af..e48963c 100644
--- a/include/k3/tok3n/detail/filter.h
+++ b/include/k3/tok3n/detail/filter.h
@@ -63,20 +63,16 @@ using filter_out_void = impl::filter_with_index<impl::is_not_void, impl::list<>,
 
 namespace impl {
 
-template <class ListOfDone, class Seq, class T>
+template <class ListOfDone, class T>
 struct index_lookup;
 
-template <class Head, class... Tail, std::size_t I, std::size_t... Is, class T>
-struct index_lookup<list<Head, Tail...>, std::index_sequence<I, Is...>, T>
-{
-	static constexpr std::size_t value = std::conditional_t<std::is_same_v<T, Head>,
-		std::integral_constant<std::size_t, I>,
-		std::conditional_t<sizeof...(Tail) == 0,
-			std::integral_constant<std::size_t, 0>,
-			index_lookup<list<Tail...>, std::index_sequence<Is...>, T>
-		>
-	>::value;
-};
+template <class Head, class... Tail>
+struct index_lookup<list<Head, Tail...>, Head> : std::integral_constant<std::size_t, 0>
+{};
+
+template <class Head, class... Tail, class T>
+struct index_lookup<list<Head, Tail...>, T> : std::integral_constant<std::size_t, 1 + index_lookup<list<Tail...>, T>::value>
+{};
 
 template <class Pred, class ListOfDone, class Seq, std::size_t Next, class Head, class... Tail>
 struct filter_deduplicate_with_index;
@@ -87,7 +83,7 @@ struct filter_deduplicate_with_index<Pred, list<Done...>, std::index_sequence<Is
 private:
 	static constexpr std::size_t next_index = std::conditional_t<Pred::template fn<Head>::value,
 		std::conditional_t<(... or std::is_same_v<Done, Head>),
-			index_lookup<list<Done...>, std::index_sequence<Is...>, Head>,
+			index_lookup<list<Done...>, Head>,
 			std::integral_constant<std::size_t, Next>
 		>,
 		std::integral_constant<std::size_t, static_cast<std::size_t>(-1)>
@@ -107,7 +103,7 @@ struct filter_deduplicate_with_index<Pred, list<Done...>, std::index_sequence<Is
 private:
 	static constexpr std::size_t next_index = std::conditional_t<Pred::template fn<Head>::value,
 		std::conditional_t<(... or std::is_same_v<Done, Head>),
-			index_lookup<list<Done...>, std::index_sequence<Is...>, Head>,
+			index_lookup<list<Done...>, Head>,
 			std::integral_constant<std::size_t, Next>
 		>,
 		std::integral_constant<std::size_t, static_cast<std::size_t>(-1)>
-- 
2.43.0


From 71582013ced894fb157bbacce649689c328d39b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 2/5] fix: sequence, choice: parse elements without value, so
 that their functions run

---
 include/k3/tok3n/detail/helpers.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/k3/tok3n/detail/helpers.h b/include/k3/tok3n/detail/helpers.h
index 075f7ab..e0ca763 100644
--- a/include/k3/tok3n/detail/helpers.h
+++ b/include/k3/tok3n/detail/helpers.h
@@ -152,20 +152,28 @@ struct compound_executor
 		: input(input_)
 	{}
 
-	template <parser P, std::size_t I = static_cast<std::size_t>(-1)>
+	template <parser P>
+	constexpr bool execute()
+	{
+		auto res = P::lookahead(input);
+		input = res.remaining();
+		return res.has_value();
+	}
+
+	template <parser P, std::size_t I>
 	constexpr bool execute()
 	{
 		if constexpr (I == static_cast<std::size_t>(-1))
-			return execute_lookahead<P>();
+			return execute_void<P>();
 		else
 			return execute_element<P, I>();
 	}
 
 private:
 	template <parser P>
-	constexpr bool execute_lookahead()
+	constexpr bool execute_void()
 	{
-		auto res = P::lookahead(input);
+		auto res = P::parse(input);
 		input = res.remaining();
 		return res.has_value();
 	}
-- 
2.43.0


From 19fdf3abcc11b0481a348bb6f6b53dcd62f59b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 3/5] fix: repetitions: a match that consumes nothing ends the
 repetition

---
 .../optimizations/join_one_or_more_basic.h     |  4 ++--
 .../optimizations/join_zero_or_more_basic.h    |  4 ++--
 include/k3/tok3n/detail/parsers/delimit.h      |  5 +++++
 include/k3/tok3n/detail/parsers/one_or_more.h  | 18 +++++++++++++-----
 include/k3/tok3n/detail/parsers/zero_or_more.h |  9 +++++----
 5 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/include/k3/tok3n/detail/optimizations/join_one_or_more_basic.h b/include/k3/tok3n/detail/optimizations/join_one_or_more_basic.h
index c8adc2f..12a5ee5 100644
--- a/include/k3/tok3n/detail/optimizations/join_one_or_more_basic.h
+++ b/include/k3/tok3n/detail/optimizations/join_one_or_more_basic.h
@@ -33,7 +33,7 @@ struct join_parser<one_or_more_parser<Basic<arr>>>
 		output_span<V> res = { input.data(), Traits::length };
 		input = input.subspan(Traits::length);
 
-		while (not Traits::failure_condition(input))
+		while (Traits::length != 0 and not Traits::failure_condition(input))
 		{
 			res = { res.data(), res.size() + Traits::length };
 			input = input.subspan(Traits::length);
@@ -55,7 +55,7 @@ struct join_parser<one_or_more_parser<Basic<arr>>>
 
 		input = input.subspan(Traits::length);
 
-		while (not Traits::failure_condition(input))
+		while (Traits::length != 0 and not Traits::failure_condition(input))
 		{
 			input = input.subspan(Traits::length);
 		}
diff --git a/include/k3/tok3n/detail/optimizations/join_zero_or_more_basic.h b/include/k3/tok3n/detail/optimizations/join_zero_or_more_basic.h
index 53de522..fab11b7 100644
--- a/include/k3/tok3n/detail/optimizations/join_zero_or_more_basic.h
+++ b/include/k3/tok3n/detail/optimizations/join_zero_or_more_basic.h
@@ -29,7 +29,7 @@ struct join_parser<zero_or_more_parser<Basic<arr>>>
 
 		output_span<V> res = { input.data(), 0 };
 
-		while (not Traits::failure_condition(input))
+		while (Traits::length != 0 and not Traits::failure_condition(input))
 		{
 			res = { res.data(), res.size() + Traits::length };
 			input = input.subspan(Traits::length);
@@ -46,7 +46,7 @@ struct join_parser<zero_or_more_parser<Basic<arr>>>
 
 		using Traits = impl::basic_parser_traits<Basic<arr>>;
 
-		while (not Traits::failure_condition(input))
+		while (Traits::length != 0 and not Traits::failure_condition(input))
 		{
 			input = input.subspan(Traits::length);
 		}
diff --git a/include/k3/tok3n/detail/parsers/delimit.h b/include/k3/tok3n/detail/parsers/delimit.h
index 1c63481..fb3d17d 100644
--- a/include/k3/tok3n/detail/parsers/delimit.h
+++ b/include/k3/tok3n/detail/parsers/delimit.h
@@ -63,6 +63,9 @@ struct delimit_parser
 				break;
 
 			res = P::parse(delimit_res.remaining());
+			// A delimiter and item that consume nothing would match forever, so they end the list
+			if (res.has_value() and res.remaining().size() == input.size())
+				break;
 			if constexpr (not is_d_void)
 			{
 				if (res.has_value())
@@ -97,6 +100,8 @@ struct delimit_parser
 				break;
 
 			res = P::lookahead(delimit_result.remaining());
+			if (res.has_value() and res.remaining().size() == input.size())
+				break;
 		}
 
 		return result<void, V>{ success_tag, input };
diff --git a/include/k3/tok3n/detail/parsers/one_or_more.h b/include/k3/tok3n/detail/parsers/one_or_more.h
index e3f3a62..82ac5a7 100644
--- a/include/k3/tok3n/detail/parsers/one_or_more.h
+++ b/include/k3/tok3n/detail/parsers/one_or_more.h
@@ -36,11 +36,16 @@ struct one_or_more_parser
 		while (true)
 		{
 			auto res = P::parse(input);
-			input = res.remaining();
-			successful |= res.has_value();
 			if (not res.has_value())
 				break;
-			builder.insert_back(std::move(res));
+			// A match that consumes nothing would match forever, so it ends the repetition
+			const bool consumed = res.remaining().size() != input.size();
+			input = res.remaining();
+			if (consumed or not successful)
+				builder.insert_back(std::move(res));
+			successful = true;
+			if (not consumed)
+				break;
 		}
 
 		if (successful)
@@ -60,10 +65,13 @@ struct one_or_more_parser
 		while (true)
 		{
 			auto res = P::lookahead(input);
-			input = res.remaining();
-			successful |= res.has_value();
 			if (not res.has_value())
 				break;
+			const bool consumed = res.remaining().size() != input.size();
+			input = res.remaining();
+			successful = true;
+			if (not consumed)
+				break;
 		}
 
 		if (successful)
diff --git a/include/k3/tok3n/detail/parsers/zero_or_more.h b/include/k3/tok3n/detail/parsers/zero_or_more.h
index c865dbd..ecdda2d 100644
--- a/include/k3/tok3n/detail/parsers/zero_or_more.h
+++ b/include/k3/tok3n/detail/parsers/zero_or_more.h
@@ -35,9 +35,10 @@ struct zero_or_more_parser
 		while (true)
 		{
 			auto res = P::parse(input);
-			input = res.remaining();
-			if (not res.has_value())
+			// A match that consumes nothing would match forever, so it ends the repetition
+			if (not res.has_value() or res.remaining().size() == input.size())
 				break;
+			input = res.remaining();
 			builder.insert_back(std::move(res));
 		}
 
@@ -53,9 +54,9 @@ struct zero_or_more_parser
 		while (true)
 		{
 			auto res = P::lookahead(input);
-			input = res.remaining();
-			if (not res.has_value())
+			if (not res.has_value() or res.remaining().size() == input.size())
 				break;
+			input = res.remaining();
 		}
 
 		return result<void, V>{ success_tag, input };
-- 
2.43.0


From 56c8cdf7cba14023c3230aeceb77c98ebaf1d257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 4/5] fix: builders: an exception from the default constructor
 of an array element reaches the caller

---
 include/k3/tok3n/detail/helpers.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/k3/tok3n/detail/helpers.h b/include/k3/tok3n/detail/helpers.h
index e0ca763..87070f5 100644
--- a/include/k3/tok3n/detail/helpers.h
+++ b/include/k3/tok3n/detail/helpers.h
@@ -11,7 +11,10 @@ namespace k3::tok3n::detail {
 template <class T>
 struct empty_if_void
 {
-    T value{};
+    // Not implicitly defined: compilers deduce `noexcept` for `std::array<T, N>` even if `T` can throw
+    constexpr empty_if_void() : value() {}
+
+    T value;
 };
 template <>
 struct empty_if_void<void> {};
-- 
2.43.0


From 054a6d99eccfaae575fa3d2e547845bbd74dba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 5/5] fix: result: converting a failed result gives a failed
 result

---
 include/k3/tok3n/detail/result.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/k3/tok3n/detail/result.h b/include/k3/tok3n/detail/result.h
index 863c4b2..c374953 100644
--- a/include/k3/tok3n/detail/result.h
+++ b/include/k3/tok3n/detail/result.h
@@ -32,11 +32,20 @@ public:
 
 	template <class T2>
 	constexpr result(const result<T2, U>& other)
-		: _result(other._result), _remaining(other._remaining) {}
+		: _remaining(other._remaining)
+	{
+		// Not by converting the optional: `T` may be constructible from an empty `std::optional<T2>`
+		if (other._result.has_value())
+			_result.emplace(*other._result);
+	}
 
 	template <class T2>
 	constexpr result(result<T2, U>&& other)
-		: _result(std::move(other)._result), _remaining(other._remaining) {}
+		: _remaining(other._remaining)
+	{
+		if (other._result.has_value())
+			_result.emplace(*std::move(other)._result);
+	}
 
 	constexpr explicit operator bool() const noexcept { return _result.operator bool(); }
 	constexpr bool has_value() const noexcept         { return _result.has_value(); }
-- 
2.43.0


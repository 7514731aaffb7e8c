From 59aa0420479bd0a1b20ebf1cc57414df470c25e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 01/14] fix: ScopedExpectation move-assignment terminated
 instead of raising the unfulfilled report

---
 include/mimic++/Expectation.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Expectation.hpp b/include/mimic++/Expectation.hpp
index 8e40c75..c7c7f4c 100644
--- a/include/mimic++/Expectation.hpp
+++ b/include/mimic++/Expectation.hpp
@@ -698,9 +698,21 @@ namespace mimicpp
 		ScopedExpectation(ScopedExpectation&&) = default;
 
 		/**
-		 * \brief Defaulted move-assignment-operator.
+		 * \brief Move-assignment-operator, which ends the currently owned expectation (if any) like the destructor does.
+		 * \throws In cases of an unsatisfied expectation, this operator is expected to throw or terminate otherwise.
 		 */
-		ScopedExpectation& operator =(ScopedExpectation&&) = default;
+		ScopedExpectation& operator =(ScopedExpectation&& other) noexcept(false)
+		{
+			// std::unique_ptr's assignment mustn't throw, thus we must delete the previously owned object manually.
+			if (this != &other)
+			{
+				Concept* const previous = m_Inner.release();
+				m_Inner = std::move(other.m_Inner);
+				delete previous;
+			}
+
+			return *this;
+		}
 
 		/**
 		 * \brief Queries the stored expectation, whether it's satisfied.
-- 
2.43.0


From 145aeba3d56ae4d263330526f3652c295e80e180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 02/14] fix: use the prefixed warning macro of Catch2 when all
 its macros are prefixed

---
 include/mimic++/adapters/Catch2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mimic++/adapters/Catch2.hpp b/include/mimic++/adapters/Catch2.hpp
index c32ff2c..3479425 100644
--- a/include/mimic++/adapters/Catch2.hpp
+++ b/include/mimic++/adapters/Catch2.hpp
@@ -43,7 +43,7 @@ namespace mimicpp::detail::catch2
 
 	inline void send_warning(const StringViewT msg)
 	{
-#ifdef CATCH_CONFIG_PREFIX_MESSAGES
+#if defined(CATCH_CONFIG_PREFIX_ALL) || defined(CATCH_CONFIG_PREFIX_MESSAGES)
 		CATCH_WARN(msg);
 #else
 		WARN(msg);
-- 
2.43.0


From d4ad85fcd99fb05ecc5fa594daee3f2a15f846e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:20 +0000
Subject: [PATCH 03/14] fix: comparison matchers accept pairs and tuples as
 expected values

---
 include/mimic++/Matcher.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/mimic++/Matcher.hpp b/include/mimic++/Matcher.hpp
index db176c8..702d9eb 100644
--- a/include/mimic++/Matcher.hpp
+++ b/include/mimic++/Matcher.hpp
@@ -353,7 +353,7 @@ namespace mimicpp::matches
 			std::equal_to{},
 			"== {}",
 			"!= {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
@@ -370,7 +370,7 @@ namespace mimicpp::matches
 			std::not_equal_to{},
 			"!= {}",
 			"== {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
@@ -387,7 +387,7 @@ namespace mimicpp::matches
 			std::less{},
 			"< {}",
 			">= {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
@@ -404,7 +404,7 @@ namespace mimicpp::matches
 			std::less_equal{},
 			"<= {}",
 			"> {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
@@ -421,7 +421,7 @@ namespace mimicpp::matches
 			std::greater{},
 			"> {}",
 			"<= {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
@@ -438,7 +438,7 @@ namespace mimicpp::matches
 			std::greater_equal{},
 			">= {}",
 			"< {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
-- 
2.43.0


From 5d9d493de5709967be3ca28cac6d249065ccdb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:09 +0000
Subject: [PATCH 04/14] fix: element matchers no longer move from the given
 matcher, and support customised ones

---
 include/mimic++/Matcher.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mimic++/Matcher.hpp b/include/mimic++/Matcher.hpp
index 702d9eb..e5a0fed 100644
--- a/include/mimic++/Matcher.hpp
+++ b/include/mimic++/Matcher.hpp
@@ -945,7 +945,7 @@ namespace mimicpp::matches::range
 			{
 				return std::ranges::all_of(
 					target,
-					[&](const auto& element) { return m.matches(element); });
+					[&](const auto& element) { return mimicpp::detail::matches_hook::matches(m, element); });
 			},
 			"each el in range: el {}",
 			"not each el in range: el {}",
@@ -954,7 +954,7 @@ namespace mimicpp::matches::range
 					MatcherT,
 					std::identity,
 					decltype([](const auto& m) { return mimicpp::detail::describe_hook::describe(m); })>{
-					std::forward<MatcherT>(matcher)
+					std::forward<Matcher>(matcher)
 				}
 			}
 		};
@@ -974,7 +974,7 @@ namespace mimicpp::matches::range
 			{
 				return std::ranges::any_of(
 					target,
-					[&](const auto& element) { return m.matches(element); });
+					[&](const auto& element) { return mimicpp::detail::matches_hook::matches(m, element); });
 			},
 			"any el in range: el {}",
 			"none el in range: el {}",
@@ -983,7 +983,7 @@ namespace mimicpp::matches::range
 					MatcherT,
 					std::identity,
 					decltype([](const auto& m) { return mimicpp::detail::describe_hook::describe(m); })>{
-					std::forward<MatcherT>(matcher)
+					std::forward<Matcher>(matcher)
 				}
 			}
 		};
-- 
2.43.0


From ea5146ebc721c7fd7230d928f6c8ded4f82e8605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:41 +0000
Subject: [PATCH 05/14] fix: std::toupper is not called with negative values

---
 include/mimic++/String.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mimic++/String.hpp b/include/mimic++/String.hpp
index 2656fdc..f3af18c 100644
--- a/include/mimic++/String.hpp
+++ b/include/mimic++/String.hpp
@@ -418,7 +418,7 @@ struct mimicpp::string_case_fold_converter<char>
 						// see notes of https://en.cppreference.com/w/cpp/string/byte/toupper
 						// This approach will fail, if str actually contains an utf8-encoded string.
 						return static_cast<char>(
-							static_cast<unsigned char>(std::toupper(c)));
+							std::toupper(static_cast<unsigned char>(c)));
 					});
 	}
 };
-- 
2.43.0


From 9ddf6c527a54b17d96275f447a86e0a65f1b1ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:11 +0000
Subject: [PATCH 06/14] fix: strip the parentheses of comma-containing types in
 interface-mock signatures

---
 include/mimic++/InterfaceMock.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/InterfaceMock.hpp b/include/mimic++/InterfaceMock.hpp
index ea80a55..f12faab 100644
--- a/include/mimic++/InterfaceMock.hpp
+++ b/include/mimic++/InterfaceMock.hpp
@@ -197,16 +197,27 @@ namespace mimicpp
 	 */
 }
 
+/**
+ * \brief Selects the first argument.
+ * \ingroup MOCK_INTERFACES_DETAIL_MAKE_SIGNATURE_LIST
+ */
+#define MIMICPP_DETAIL_MAKE_SIGNATURE_SELECT_FIRST(first, ...) first
+
 /**
  * \brief Converts the given information to a single signature.
  * \ingroup MOCK_INTERFACES_DETAIL_MAKE_SIGNATURE_LIST
  * \param sequence Unused.
  * \param bound_data Unused.
- * \param ret The return type.
+ * \param ret The return type. Enclosing parentheses will be stripped.
  * \param param_type_list The parameter types.
  * \param specs Additional specs (e.g. ``const``, ``noexcept``).
+ * \param ... The enclosed parameter list, if available. It takes precedence over ``param_type_list``, because the
+ * parentheses of its parameter types are already stripped.
  */
-#define MIMICPP_DETAIL_MAKE_SIGNATURE(sequence, bound_data, ret, param_type_list, specs, ...) ret param_type_list specs
+#define MIMICPP_DETAIL_MAKE_SIGNATURE(sequence, bound_data, ret, param_type_list, specs, ...)	\
+	MIMICPP_DETAIL_STRIP_PARENS(ret)															\
+	MIMICPP_DETAIL_MAKE_SIGNATURE_SELECT_FIRST(__VA_ARGS__ __VA_OPT__(,) param_type_list,)		\
+	specs
 
 /**
  * \brief Converts all given arguments to a signature list (not enclosed by parentheses).
-- 
2.43.0


From e0fe2c69a9fecda1edcb756ab8a9027cd3c522e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:35 +0000
Subject: [PATCH 07/14] fix: interface methods with &&-qualifier reach the
 &&-qualified mock overload

---
 include/mimic++/InterfaceMock.hpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/mimic++/InterfaceMock.hpp b/include/mimic++/InterfaceMock.hpp
index f12faab..ec148f8 100644
--- a/include/mimic++/InterfaceMock.hpp
+++ b/include/mimic++/InterfaceMock.hpp
@@ -10,7 +10,9 @@
 
 #include "mimic++/Fwd.hpp"
 #include "mimic++/Mock.hpp"
+#include "mimic++/TypeTraits.hpp"
 
+#include <concepts>
 #include <type_traits>
 #include <utility>
 
@@ -361,6 +363,27 @@ namespace mimicpp
 	 * \ingroup MOCK_INTERFACES_DETAIL
 	 * \brief Creates all required override overloads.
 	 */
+
+	namespace detail
+	{
+		// Calls of &&-qualified interface methods must be directed to the &&-qualified overloads of the mock,
+		// thus the mock needs the same category.
+		template <typename Signature, typename Mock>
+		[[nodiscard]]
+		constexpr decltype(auto) apply_method_category(Mock& mock) noexcept
+		{
+			using SignatureT = signature_remove_noexcept_t<Signature>;
+			if constexpr (std::same_as<void() &&, SignatureT>
+						|| std::same_as<void() const &&, SignatureT>)
+			{
+				return std::move(mock);
+			}
+			else
+			{
+				return (mock);
+			}
+		}
+	}
 }
 
 /**
@@ -378,7 +401,8 @@ namespace mimicpp
 #define MIMICPP_DETAIL_MAKE_METHOD_OVERRIDE(ignore, mock_name, fn_name, ret, param_type_list, specs, param_list, forward_list, ...)	\
 	inline MIMICPP_DETAIL_STRIP_PARENS(ret) fn_name param_list MIMICPP_DETAIL_STRIP_PARENS(specs) override 							\
 	{																																\
-		return mock_name (MIMICPP_DETAIL_STRIP_PARENS(forward_list));																\
+		return ::mimicpp::detail::apply_method_category<void() MIMICPP_DETAIL_STRIP_PARENS(specs)>(mock_name)						\
+			(MIMICPP_DETAIL_STRIP_PARENS(forward_list));																			\
 	}
 
 /**
-- 
2.43.0


From 5609ff692f12bf12bcfe7e54c03e9941bca96787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 08/14] fix: arrays of non-character types are no strings

---
 include/mimic++/String.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mimic++/String.hpp b/include/mimic++/String.hpp
index f3af18c..09105d2 100644
--- a/include/mimic++/String.hpp
+++ b/include/mimic++/String.hpp
@@ -284,6 +284,7 @@ namespace mimicpp
 	 */
 	template <typename T>
 		requires std::is_array_v<T>
+				&& is_character_v<std::remove_const_t<std::remove_extent_t<T>>>
 	struct string_traits<T>
 		: public string_traits<std::remove_extent_t<T>*>
 	{
-- 
2.43.0


From 53e2ba9e406cc2d1cc1c52daa7452d4a4dc6bf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:01 +0000
Subject: [PATCH 09/14] fix: tuple-like types without std::get overloads are
 printable

---
 include/mimic++/Printer.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/mimic++/Printer.hpp b/include/mimic++/Printer.hpp
index fb21304..c1f421b 100644
--- a/include/mimic++/Printer.hpp
+++ b/include/mimic++/Printer.hpp
@@ -425,12 +425,21 @@ namespace mimicpp::detail
 			std::get<index>(std::forward<Tuple>(tuple)));
 	}
 
+	// Users may provide std::tuple_size specializations without std::get overloads (e.g. for structured-bindings).
+	template <typename T, std::size_t... indices>
+	[[nodiscard]]
+	consteval bool std_gettable([[maybe_unused]] const std::index_sequence<indices...>) noexcept
+	{
+		return (... && requires(const T& tuple) { std::get<indices>(tuple); });
+	}
+
 	template <typename T>
 		requires requires
 		{
 			typename std::tuple_size<T>::type;
 			requires std::convertible_to<typename std::tuple_size<T>::type, std::size_t>;
 			requires 0u <= std::tuple_size_v<T>;
+			requires std_gettable<T>(std::make_index_sequence<std::tuple_size_v<T>>{});
 		}
 	class Printer<T>
 	{
-- 
2.43.0


From 81aa4146b261c41d60425156deaac64b8805d6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 10/14] fix: ranges, which yield themselves as elements, are
 not printed element-wise

---
 include/mimic++/Printer.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Printer.hpp b/include/mimic++/Printer.hpp
index c1f421b..54bf49a 100644
--- a/include/mimic++/Printer.hpp
+++ b/include/mimic++/Printer.hpp
@@ -266,7 +266,14 @@ namespace mimicpp::detail
 			std::forward<T>(value));
 	}
 
-	template <print_iterator OutIter, std::ranges::forward_range Range>
+	// Ranges, which yield themselves as elements (e.g. std::filesystem::path), would never come to an end.
+	template <typename T>
+	concept printable_range = std::ranges::forward_range<T>
+							&& !std::same_as<
+								std::remove_cvref_t<T>,
+								std::remove_cvref_t<std::ranges::range_reference_t<T>>>;
+
+	template <print_iterator OutIter, printable_range Range>
 	OutIter print(
 		OutIter out,
 		Range&& range,
@@ -332,7 +339,7 @@ namespace mimicpp::detail
 		}
 	};
 
-	template <print_iterator OutIter, std::ranges::forward_range Range>
+	template <print_iterator OutIter, printable_range Range>
 	OutIter print(
 		OutIter out,
 		Range&& range,  // NOLINT(cppcoreguidelines-missing-std-forward)
-- 
2.43.0


From 740aa31d1d89ebac02cf13d8600755c508477296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:26 +0000
Subject: [PATCH 11/14] fix: printing null character pointers is no undefined
 behaviour

---
 include/mimic++/Printer.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/mimic++/Printer.hpp b/include/mimic++/Printer.hpp
index 54bf49a..db925ef 100644
--- a/include/mimic++/Printer.hpp
+++ b/include/mimic++/Printer.hpp
@@ -494,6 +494,16 @@ namespace mimicpp::detail
 		template <std::common_reference_with<String> T, print_iterator OutIter>
 		static OutIter print(OutIter out, T&& str)
 		{
+			if constexpr (std::is_pointer_v<String>)
+			{
+				if (!str)
+				{
+					return format::format_to(
+						std::move(out),
+						"nullptr");
+				}
+			}
+
 			if constexpr (constexpr auto prefix = string_literal_prefix<string_char_t<String>>;
 				!std::ranges::empty(prefix))
 			{
-- 
2.43.0


From b6b3cfd1c28ba33a1e55cf8c11161ac40af40415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:37 +0000
Subject: [PATCH 12/14] fix: mocks support parameters of type
 std::reference_wrapper

std::ref unwraps reference wrappers, thus the argument list didn't match the
expected list of references and the mock failed to compile.
---
 include/mimic++/Mock.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/mimic++/Mock.hpp b/include/mimic++/Mock.hpp
index 7f8a049..c4449f0 100644
--- a/include/mimic++/Mock.hpp
+++ b/include/mimic++/Mock.hpp
@@ -85,7 +85,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current())
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -122,7 +122,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) const
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -159,7 +159,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) &
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -196,7 +196,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) const &
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -233,7 +233,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) &&
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -270,7 +270,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) const &&
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -307,7 +307,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -347,7 +347,7 @@ namespace mimicpp::detail
 		) const noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -384,7 +384,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) & noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -424,7 +424,7 @@ namespace mimicpp::detail
 		) const & noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -461,7 +461,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) && noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
@@ -501,7 +501,7 @@ namespace mimicpp::detail
 		) const && noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				{std::reference_wrapper<std::remove_reference_t<Params>>{params}...},
 				from);
 		}
 
-- 
2.43.0


From 82f624329e2ee0714b68e7facde320406429b38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:06 +0000
Subject: [PATCH 13/14] fix: Catch2 adapter includes what its matcher
 integration specializes

---
 include/mimic++/adapters/Catch2.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mimic++/adapters/Catch2.hpp b/include/mimic++/adapters/Catch2.hpp
index 3479425..6e28808 100644
--- a/include/mimic++/adapters/Catch2.hpp
+++ b/include/mimic++/adapters/Catch2.hpp
@@ -81,8 +81,12 @@ namespace mimicpp::detail::catch2
 
 #ifdef MIMICPP_CONFIG_EXPERIMENTAL_CATCH2_MATCHER_INTEGRATION
 
+#include "mimic++/Matcher.hpp"
+
 #include <catch2/matchers/catch_matchers_templated.hpp>
 
+#include <concepts>
+
 template <typename Matcher>
 	requires std::derived_from<Matcher, Catch::Matchers::MatcherGenericBase>   // new style
 			|| std::derived_from<Matcher, Catch::Matchers::MatcherUntypedBase> // old style
-- 
2.43.0


From cec8e5be41df80e1786b714ee409a53961fe570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:08 +0000
Subject: [PATCH 14/14] fix: exceptions thrown by side effects terminate the
 program instead of reaching the caller

---
 include/mimic++/Expectation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mimic++/Expectation.hpp b/include/mimic++/Expectation.hpp
index c7c7f4c..afda5e9 100644
--- a/include/mimic++/Expectation.hpp
+++ b/include/mimic++/Expectation.hpp
@@ -527,7 +527,7 @@ namespace mimicpp
 		{
 			m_ControlPolicy.consume();
 			std::apply(
-				[&](auto&... policies) noexcept
+				[&](auto&... policies)
 				{
 					(..., policies.consume(call));
 				},
-- 
2.43.0


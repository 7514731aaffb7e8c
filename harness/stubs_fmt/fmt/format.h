// A formatting backend which hands literal characters and arguments to the harness instead of producing text.
#pragma once
#include <concepts>
#include <limits>
#include <cstddef>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
namespace fmt
{
	void on_char(char c);
	void on_integer(long value, const char* spec, long length);
	void on_text(const char* data, std::size_t size, const char* spec, long length);
	void on_object(const void* object);
#ifdef VF_STRINGS
	void on_string(const std::string& s);           // a string object given as argument
#endif
	template <typename T, typename Char = char>
	struct formatter;
	struct text_formatter
	{
		constexpr auto parse(auto& ctx) { return ctx.begin(); }
		auto format(std::string_view v, auto& ctx) const { on_text(v.data(), v.size(), nullptr, 0); return ctx.out(); }
	};
	template <> struct formatter<std::string_view, char> : text_formatter {};
	template <> struct formatter<std::string, char> : text_formatter {};
	template <> struct formatter<const char*, char> : text_formatter {};
	template <> struct formatter<char*, char> : text_formatter {};
	template <std::integral T> struct formatter<T, char> { constexpr auto parse(auto& ctx) { return ctx.begin(); } };
	template <typename T, typename Char>
	struct is_formattable : std::bool_constant<requires { sizeof(formatter<std::remove_cvref_t<T>, Char>); }> {};

	template <typename Out>
	struct context { Out m_out; Out out() const { return m_out; } };

	template <typename Out, typename T>
	Out emit(Out out, const T& value, const char* spec, long length)
	{
		if constexpr (std::integral<T>)
			on_integer(static_cast<long>(value), spec, length);
#ifdef VF_STRINGS
		else if constexpr (std::same_as<T, std::string>)
			on_string(value);
#endif
		else if constexpr (std::convertible_to<const T&, std::string_view>)
		{
			std::string_view v = value;
			on_text(v.data(), v.size(), spec, length);
		}
		else
		{
			context<Out> ctx{out};
			formatter<T, char>{}.format(value, ctx);
		}
		return out;
	}
	template <typename Out>
	Out nth(Out out, int, const char*, long) { return out; }
	template <typename Out, typename First, typename... Rest>
	Out nth(Out out, int n, const char* spec, long length, const First& first, const Rest&... rest)
	{
		if (n == 0)
			return emit(out, first, spec, length);
		return nth(out, n - 1, spec, length, rest...);
	}
	template <typename Out, typename... Args>
	Out format_to(Out out, const char* f, const Args&... args)
	{
		int n = 0;
		while (*f)
		{
			if (f[0] == '{' && f[1] != '{')
			{
				const char* spec = ++f;
				while (*f != '}')
					++f;
				// arguments may be referred to by position
				int at = n;
				if ('0' <= *spec && *spec <= '9')
				{
					at = 0;
					while ('0' <= *spec && *spec <= '9')
						at = 10 * at + (*spec++ - '0');
				}
				else
					++n;
				out = nth(out, at, spec, f - spec, args...);
				++f;
			}
			else
			{
				if (f[0] == '{' || f[0] == '}')
					++f;
				on_char(*f++);
			}
		}
		return out;
	}
#ifdef VF_STRINGS
	struct nowhere {};
	// text made into a string of its own
	void begin_made();
	std::string end_made();
	template <typename... Args>
	std::string format(const char* f, const Args&... args) { begin_made(); format_to(nowhere{}, f, args...); return end_made(); }
	template <typename... Args>
	struct format_args { std::tuple<const Args&...> args; };
	template <typename... Args>
	format_args<Args...> make_format_args(const Args&... args) { return {{args...}}; }
	const char* literal_of(const std::string& f);
	template <typename... Args>
	std::string vformat(const std::string& f, format_args<Args...> a)
	{
		begin_made();
		std::apply([&](const auto&... args) { format_to(nowhere{}, literal_of(f), args...); }, a.args);
		return end_made();
	}
	// a view of a string object refers to the object itself
	template <typename... Args>
	std::string vformat(std::string_view f, format_args<Args...> a)
	{
		begin_made();
		const char* l = f.size() == ~std::size_t{} ? literal_of(*reinterpret_cast<const std::string*>(f.data())) : f.data();
		std::apply([&](const auto&... args) { format_to(nowhere{}, l, args...); }, a.args);
		return end_made();
	}
	template <typename... Args>
	std::string vformat(const char* f, format_args<Args...> a)
	{
		begin_made();
		std::apply([&](const auto&... args) { format_to(nowhere{}, f, args...); }, a.args);
		return end_made();
	}
	template <typename Out>
	Out vformat_to(Out out, std::string_view, const auto&) { return out; }
#else
	template <typename... Args>
	std::string format(const char*, const Args&...) { return {}; }
	struct format_args {};
	template <typename... Args>
	format_args make_format_args(const Args&...) { return {}; }
	inline std::string vformat(std::string_view, format_args) { return {}; }
	template <typename Out>
	Out vformat_to(Out out, std::string_view, format_args) { return out; }
#endif
}

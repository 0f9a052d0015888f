// What the witnesses share. Everything here is spelled with plain types, without the library's own
// constructors of arrays, so that an expected type does not depend on what is being judged.
#pragma once
#include <k3/tok3n.h>
#include <compare>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <variant>
#include <vector>
#include "foreign.h"

namespace w {
namespace tk = k3::tok3n::detail;
namespace t3 = k3::tok3n;

struct St { int v; friend constexpr auto operator<=>(const St&, const St&) = default; };
enum class En { a, b, c, d, e, f, g, h };
struct Rev // ordered the other way round
{
	int v;
	friend constexpr bool operator==(const Rev&, const Rev&) = default;
	friend constexpr std::strong_ordering operator<=>(const Rev& a, const Rev& b) { return b.v <=> a.v; }
};

template <class E, auto... v>
inline constexpr auto arr = [] {
	tk::static_array<E, sizeof...(v)> a{};
	[[maybe_unused]] std::size_t i = 0;
	((*(a.begin() + i++) = E(v)), ...);
	return a;
}();

template <class A, class B> concept same = std::is_same_v<A, B>;
template <auto a, auto b> concept identical = std::is_same_v<std::integral_constant<decltype(a), a>, std::integral_constant<decltype(b), b>>;

// user functions
template <int I> struct F { constexpr int operator()(auto&&...) const { return I; } };
template <int I> struct B { constexpr bool operator()(auto&&...) const { return I != 0; } };
template <int I> struct Vo { constexpr void operator()(auto&&...) const {} };
template <int I> struct Any { constexpr Any(auto&&...) {} friend constexpr bool operator==(const Any&, const Any&) = default; };

// user-defined parsers
template <class P>
struct Cu : tk::custom_parser<Cu<P>, typename P::value_type>
{
	static consteval auto get_parser() { return P{}; }
};
template <class P, class Q>
struct Cu2 : tk::custom_parser<Cu2<P, Q>, typename P::value_type>
{
	static consteval auto get_parser() { return tk::sequence_parser<P, Q>{}; }
};
template <class P, int N> // not a template of types alone
struct CuN : tk::custom_parser<CuN<P, N>, typename P::value_type>
{
	static consteval auto get_parser() { return P{}; }
};
struct Cu0 : tk::custom_parser<Cu0, char>
{
	static consteval auto get_parser() { return tk::any_of_parser<arr<char, 'q'>>{}; }
};

// parsers with a value of a given type
template <int I> struct Val { int x = 0; friend constexpr bool operator==(const Val&, const Val&) = default; };
template <int I> struct Mov { int x = 0; constexpr Mov() = default; constexpr Mov(Mov&&) = default; constexpr Mov& operator=(Mov&&) = default; };
struct NoDef { int x; constexpr explicit NoDef(int i) : x(i) {} };
struct Tok { short v; friend constexpr bool operator==(const Tok& a, const Tok& b) { return a.v == b.v; } friend constexpr bool operator==(const Tok& a, char b) { return a.v == b; } };
template <class T, class E = char, int I = 0>
struct P
{
	using value_type = E;
	template <tk::equality_comparable_with<value_type> V>
	using result_for = std::conditional_t<std::is_same_v<V, void>, V, T>;
	static constexpr tk::parser_family family = tk::custom_family;
	template <tk::input_constructible_for<value_type> R>
	static constexpr auto parse(R&& r)
	{
		tk::input_span input{ std::forward<R>(r) };
		using V = tk::input_value_t<R>;
		using X = tk::result<T, V>;
		if (input.empty() or not (*input.begin() == E())) return X{ tk::failure_tag, input };
		tk::input_span<V> rest{ input.data() + 1, input.size() - 1 };
		if constexpr (std::is_void_v<T>) return X{ tk::success_tag, rest };
		else if constexpr (std::is_constructible_v<T, int> and not std::is_arithmetic_v<T>) return X{ tk::success_tag, T(1), rest };
		else return X{ tk::success_tag, T{}, rest };
	}
	template <tk::input_constructible_for<value_type> R>
	static constexpr auto lookahead(R&& r)
	{
		tk::input_span input{ std::forward<R>(r) };
		using V = tk::input_value_t<R>;
		using X = tk::result<void, V>;
		if (input.empty() or not (*input.begin() == E())) return X{ tk::failure_tag, input };
		return X{ tk::success_tag, tk::input_span<V>{ input.data() + 1, input.size() - 1 } };
	}
};
template <class Q, class T>
struct CuT : tk::custom_parser<CuT<Q, T>, typename Q::value_type>
{
	using result_type = T;
	static consteval auto get_parser() { return Q{}; }
};
template <class... Ts> struct Box { int n = 0; friend constexpr bool operator==(const Box&, const Box&) = default; };
struct BoxOf { template <class... Ts> constexpr auto operator()(Ts&&...) const { return Box<Ts&&...>{}; } };
template <class T> struct To { template <class... Ts> constexpr T operator()(Ts&&...) const { if constexpr (not std::is_void_v<T>) return T(); } };

// a function is a constant of the parser's type: only what a constant can call counts
struct FnC { template <class... T> constexpr int operator()(T&&...) { return 1; } template <class... T> constexpr Val<3> operator()(T&&...) const { return {}; } };
struct FnV { template <class... T> constexpr void operator()(T&&...) {} template <class... T> constexpr Val<4> operator()(T&&...) const { return {}; } };
struct FnL { template <class... T> constexpr Val<5> operator()(T&&...) const& { return {}; } template <class... T> constexpr int operator()(T&&...) && { return 1; } };
struct FnN { template <class... T> constexpr int operator()(T&&...) { return 1; } };
struct FnR { template <class... T> constexpr bool operator()(T&&...) && { return 1; } };

// an announced result type and the delivered ones
template <class X, class E, class R>
inline constexpr bool announces = std::is_same_v<typename X::template result_for<E>, R>;
template <class X, class E, class R>
inline constexpr bool delivers = announces<X, E, R>
	and std::is_same_v<decltype(X::parse(std::declval<tk::input_span<E>>())), tk::result<R, E>>
	and std::is_same_v<decltype(X{}.parse(std::declval<const tk::input_span<E>&>())), tk::result<R, E>>
	and std::is_same_v<decltype(X::lookahead(std::declval<tk::input_span<E>>())), tk::result<void, E>>
	and std::is_same_v<typename decltype(X::parse(std::declval<tk::input_span<E>>()))::value_type, R>
	and tk::parser<X> and tk::parser_for<X, E>;
template <class X, class E, class In, class R>
inline constexpr bool delivers_for = std::is_same_v<decltype(X::parse(std::declval<In>())), tk::result<R, E>> and std::is_same_v<decltype(X::lookahead(std::declval<In>())), tk::result<void, E>>;

// what may be written
template <class A, class B> concept can_seq = requires (A a, B b) { a >> b; };
template <class A, class B> concept can_cho = requires (A a, B b) { a | b; };
template <class A> concept can_not = requires (A a) { !a; };
template <class A> concept can_maybe = requires (A a) { ~a; };
template <class A> concept can_plus = requires (A a) { +a; };
template <class A> concept can_star = requires (A a) { *a; };
template <class A, class B> concept can_mod = requires (A a, B b) { a % b; };
template <class A, class... B> concept can_call = requires (A a, B... b) { a(b...); };
template <class A, class B> concept can_assign = requires (A a, B b) { a = b; };
template <class A, class In> concept can_parse = requires (A a, In&& i) { a.parse(static_cast<In&&>(i)); };
template <class A, class In> concept can_look = requires (A a, In&& i) { a.lookahead(static_cast<In&&>(i)); };
template <class A, class E> concept has_result = requires { typename A::template result_for<E>; };
template <auto a> concept can_any = requires { typename tk::any_of_parser<a>; };
template <auto a> concept can_none = requires { typename tk::none_of_parser<a>; };
template <class... Ps> concept can_sequence = requires { typename tk::sequence_parser<Ps...>; };
template <class... Ps> concept can_choice = requires { typename tk::choice_parser<Ps...>; };
template <class A, class D> concept can_delimit = requires { typename tk::delimit_parser<A, D>; };
template <class A, class N> concept can_exactly = requires { typename tk::exactly_parser<A, N>; };
template <class A, class T> concept can_default = requires { typename tk::defaulted_parser<A, T>; };
template <class A> concept can_wrap = requires { typename tk::maybe_parser<A>; } or requires { typename tk::one_or_more_parser<A>; } or requires { typename tk::zero_or_more_parser<A>; } or requires { typename tk::ignore_parser<A>; } or requires { typename tk::complete_parser<A>; } or requires { typename tk::join_parser<A>; };
template <class... Ts> struct Only { constexpr int operator()(Ts...) const { return 1; } };
template <class... Ts> struct OnlyB { constexpr bool operator()(Ts...) const { return true; } };
struct NotAParser {};

template <class T> inline constexpr bool copyable = std::is_copy_constructible_v<T>;
template <class T> inline constexpr bool copyable<std::vector<T>> = copyable<T>;
template <class T> inline constexpr bool copyable<std::optional<T>> = copyable<T>;
template <class T, std::size_t N> inline constexpr bool copyable<std::array<T, N>> = copyable<T>;
template <class... T> inline constexpr bool copyable<std::tuple<T...>> = (... and copyable<T>);
template <class... T> inline constexpr bool copyable<std::variant<T...>> = (... and copyable<T>);
template <class T, class U> inline constexpr bool copyable<std::pair<T, U>> = copyable<T> and copyable<U>;
// usable in constant evaluation: parsing and looking ahead, and everything that can be asked of the results
template <class T, class V>
constexpr bool ask(tk::result<T, V> r)
{
	bool ok = r.has_value() == static_cast<bool>(r);
	auto rest = std::as_const(r).remaining();
	ok = ok and rest.size() == r.remaining().size() and rest.data() == r.remaining().data() and rest.empty() == (rest.size() == 0);
	for (const auto& x : rest) ok = ok and (x == x);
	tk::result<T, V> d;
	ok = ok and not d and not d.has_value();
	if constexpr (std::is_move_assignable_v<tk::result<T, V>>) { d = std::move(r); ok = ok and d.has_value() == static_cast<bool>(d); r = std::move(d); }
	if constexpr (not std::is_void_v<T>)
		if (r.has_value())
		{
			ok = ok and &*r == &r.value() and &*std::as_const(r) == &std::as_const(r).value();
			if constexpr (copyable<T>) { auto c = r; ok = ok and c.has_value(); auto e = *std::as_const(r); static_cast<void>(e); }
			auto m = *std::move(r);
			static_cast<void>(m);
		}
	return ok;
}
template <class X, class E, auto in>
constexpr bool evaluates = [] {
	tk::input_span<E> s{ std::span<const E>{ &*in.begin(), in.size() } };
	bool ok = ask(X::parse(s)) and ask(X::lookahead(s)) and ask(X{}.parse(std::span<const E>{ &*in.begin(), in.size() })) and ask(X{}.lookahead(std::as_const(s)));
	return ok and X::parse(s).has_value() + 1 > 0;
}();
template <class X, class E>
constexpr bool evaluates_empty = [] {
	std::array<E, 0> none{};
	tk::input_span<E> s;
	return ask(X::parse(s)) and ask(X::lookahead(s)) and ask(X{}.parse(none)) and ask(X::lookahead(std::span<const E>{}));
}();
template <class E, auto in, template <class> class Span>
constexpr bool views_evaluate = [] {
	std::span<const E> raw{ &*in.begin(), in.size() };
	Span<E> a{ raw }, b{ a }, c;
	bool ok = a == b and not (a != b) and a == raw and raw == a and a.size() == in.size() and a.data() == raw.data() and a.empty() == (in.size() == 0);
	c = b;
	ok = ok and c == a and (in.size() == 0 or c.front() == *in.begin()) and static_cast<std::size_t>(a.end() - a.begin()) == a.size();
	ok = ok and a.first(in.size() / 2).size() == in.size() / 2 and a.subspan(in.size() / 2).size() == in.size() - in.size() / 2 and a.subspan(0, in.size() / 2).size() == in.size() / 2;
	std::vector<E> v(raw.begin(), raw.end());
	ok = ok and Span<E>(v) == a and a == v and v == a and Span<E>(v.data(), v.size()) == a;
	std::equal_to<Span<E>> eq;
	return ok and eq(a, b);
}();

// parsers, modifiers and operators are values without state
template <class X>
concept stateless = std::is_empty_v<X> and std::is_trivially_default_constructible_v<X> and std::is_trivially_copyable_v<X> and std::is_trivially_destructible_v<X> and sizeof(X) == 1 and not std::is_polymorphic_v<X>;
template <class X, class E>
concept static_parse = stateless<X> and requires (const X x, const volatile E* p, tk::input_span<E> s) { X::parse(s); X::lookahead(s); x.parse(s); x.lookahead(s); }
	and std::is_function_v<std::remove_pointer_t<decltype(&X::template parse<tk::input_span<E>&>)>> and std::is_function_v<std::remove_pointer_t<decltype(&X::template lookahead<tk::input_span<E>&>)>>;
// what is seen of an input is seen as constant
template <class E, template <class> class Span>
concept read_only = std::is_same_v<decltype(std::declval<Span<E>&>().data()), const E*> and std::is_same_v<decltype(*std::declval<Span<E>&>().begin()), const E&> and std::is_same_v<decltype(std::declval<Span<E>&>().front()), const E&>
	and not std::is_convertible_v<Span<E>&, std::span<E>> and not std::is_constructible_v<std::span<E>, Span<E>&>;
struct NotEmpty { int state; using value_type = char; template <class V> using result_for = int; static constexpr tk::parser_family family = tk::custom_family; };
struct NoGet : tk::custom_parser<NoGet> {};
struct OtherElem : tk::custom_parser<OtherElem, wchar_t> { static consteval auto get_parser() { return tk::any_of_parser<arr<char, 'a'>>{}; } };
} // namespace w

// Types of other people, with and without operators of their own, unrelated to the library or holding its types.
#pragma once
#include <array>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>

namespace foreign {

template <int I> struct Tag {};

// no operators at all
struct Plain {};
struct Inc;
template <class... T> struct PlainOf {};
template <class... T> struct Holds : T... {}; // derived from what it is given
struct NoDefault { explicit NoDefault(int) {} };
struct NoCopy { NoCopy() = default; NoCopy(const NoCopy&) = delete; };
struct Abstract { virtual void f() = 0; };
union Un { int i; };
enum class Scoped { a };
struct WithFamily { static constexpr int family = 3; using value_type = char; };
template <class... T> struct WithFamilyOf { static constexpr int family = 3; using value_type = char; };
struct WithValueType { using value_type = char; static constexpr int name = 0; template <class> using result_for = int; };

// operators of their own: members, friends, templates over their own types, templates over everything
#define FOREIGN_BINARY(X) X(|, 1) X(>>, 2) X(%, 3) X(<<, 4) X(&, 5) X(+, 6) X(*, 7) X(-, 8) X(/, 9) X(^, 10) X(&&, 11) X(||, 12)
#define FOREIGN_UNARY(X) X(!, 21) X(~, 22) X(+, 23) X(*, 24) X(-, 25)
struct Member
{
#define X(op, i) constexpr Tag<i> operator op(const Member&) const { return {}; }
	FOREIGN_BINARY(X)
#undef X
#define X(op, i) constexpr Tag<i> operator op() const { return {}; }
	FOREIGN_UNARY(X)
#undef X
	constexpr bool operator==(const Member&) const = default;
};
template <class... T> struct FriendOf
{
#define X(op, i) friend constexpr Tag<i> operator op(const FriendOf&, const FriendOf&) { return {}; }
	FOREIGN_BINARY(X)
#undef X
#define X(op, i) friend constexpr Tag<i> operator op(const FriendOf&) { return {}; }
	FOREIGN_UNARY(X)
#undef X
	friend constexpr bool operator==(const FriendOf&, const FriendOf&) { return true; }
};
template <class... T> struct DeducedOf {};
#define X(op, i) template <class... T, class... U> constexpr Tag<i> operator op(DeducedOf<T...>, DeducedOf<U...>) { return {}; }
FOREIGN_BINARY(X)
#undef X
#define X(op, i) template <class... T> constexpr Tag<i> operator op(DeducedOf<T...>) { return {}; }
FOREIGN_UNARY(X)
#undef X
template <class... T, class... U> constexpr bool operator==(const DeducedOf<T...>&, const DeducedOf<U...>&) { return true; }

namespace greedy {
template <class... T> struct GreedyOf {};
#define X(op, i) template <class A, class B> constexpr Tag<i> operator op(A&&, B&&) { return {}; }
FOREIGN_BINARY(X)
#undef X
#define X(op, i) template <class A> constexpr Tag<i> operator op(A&&) { return {}; }
FOREIGN_UNARY(X)
#undef X
} // namespace greedy
using greedy::GreedyOf;

// mixed with the library's own types on one side
struct Mixes
{
#define X(op, i) template <class T> friend constexpr Tag<i> operator op(const Mixes&, const T&) { return {}; } template <class T> friend constexpr Tag<i + 100> operator op(const T&, const Mixes&) { return {}; } friend constexpr Tag<i + 200> operator op(const Mixes&, const Mixes&) { return {}; }
	FOREIGN_BINARY(X)
#undef X
};

// what builtin operators are for
template <class... T> struct IntOf { constexpr operator int() const { return 6; } };

// converts to everything, including the library's types
template <class T> struct Becomes { constexpr operator T() const { return T{}; } };

} // namespace foreign

namespace use {
using namespace k3::tok3n; // as users do

#define X(op, i) \
	template <class A, class B> struct bin##i { template <class C, class D> static auto f(int) -> decltype(std::declval<C>() op std::declval<D>()); template <class, class> static foreign::Tag<-1> f(...); using type = decltype(f<A, B>(0)); };
FOREIGN_BINARY(X)
#undef X
#define X(op, i) \
	template <class A> struct un##i { template <class C> static auto f(int) -> decltype(op std::declval<C>()); template <class> static foreign::Tag<-1> f(...); using type = decltype(f<A>(0)); };
FOREIGN_UNARY(X)
#undef X
template <class A, class B> struct eq { template <class C, class D> static auto f(int) -> decltype(std::declval<C>() == std::declval<D>()); template <class, class> static foreign::Tag<-1> f(...); using type = decltype(f<A, B>(0)); };

template <class T> inline constexpr bool is_none = std::is_same_v<T, foreign::Tag<-1>>;
// every binary operator between A and B, in every category, is the I-th of its own, or there is none
template <class A, class B, int base> inline constexpr bool own_binary = true
#define X(op, i) and std::is_same_v<typename bin##i<A, B>::type, foreign::Tag<base < 0 ? -1 : base + i>>
	FOREIGN_BINARY(X)
#undef X
	;
template <class A, int base> inline constexpr bool own_unary = true
#define X(op, i) and std::is_same_v<typename un##i<A>::type, foreign::Tag<base < 0 ? -1 : base + i>>
	FOREIGN_UNARY(X)
#undef X
	;
// only the operators that the library gives its parsers and modifiers
template <class A, class B, int base> inline constexpr bool own_lib_binary = std::is_same_v<typename bin1<A, B>::type, foreign::Tag<base < 0 ? -1 : base + 1>> and std::is_same_v<typename bin2<A, B>::type, foreign::Tag<base < 0 ? -1 : base + 2>> and std::is_same_v<typename bin3<A, B>::type, foreign::Tag<base < 0 ? -1 : base + 3>>;
} // namespace use

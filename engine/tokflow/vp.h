// Harness side of the abstract interpreter: opaque operands ("archetypes") for the combinators of
// tok3n, and the specification of every combinator. Nothing here is ever executed: it is translated
// to LLVM IR and interpreted abstractly together with the library. The vp_* functions are declared
// only; the interpreter gives them their abstract meaning.
#pragma once
#include <algorithm>
#include <array>
#include <bit>
#include <compare>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <numeric>
#include <optional>
#include <ranges>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

extern "C" {
void vp_declare(int which, long esz, int zterm, int sgn, const long* seeds, long nseeds, int exact);
void* vp_input(int which);
std::size_t vp_len(int which);
void vp_fixlen(int which, long n);
void vp_maxlen(int which, long n);
int vp_query(int id, int flags, const void* data, std::size_t size, std::size_t* consumed);
void vp_query_span(int id, int flags, const void* data, std::size_t size, const void** b, std::size_t* n);
void* vp_tok(int id, const void* at);
void* vp_t0(int kind);
void* vp_t1(int kind, void* a);
void* vp_t2(int kind, void* a, void* b);
void* vp_int(long v);
void* vp_bool(bool b);
void* vp_spread(void* t); // the elements of a tuple, pair or array, as a list of arguments
void* vp_ptr_term(const void* p);
void* vp_span_term(const void* p, std::size_t n);
void* vp_list_term(void* h);
void vp_trace(void* term);
void vp_note_queries();
void vp_trace_off(); // the calls of user functions are not compared
bool vp_pred(int id, void* term);
bool vp_choice(int id);
int vp_pick(int n); // any number below n
void vp_same(int tag, void* got, void* expected);
bool vp_ce();
bool vp_known(long);
void vp_out(int tag, void* term);
void vp_out_bool(int tag, bool b);
void vp_fail(int tag);
void vp_violation_copy();
void vp_prune();
void vp_may_throw(bool); // from here on a throw ends the path quietly
}

#ifdef VP_CE
// the analysed library sees an unknown answer to "is this being constant evaluated?"
namespace std { constexpr bool vp_is_constant_evaluated() { return __builtin_is_constant_evaluated() || vp_ce(); } }
namespace std { template <class T> constexpr bool vp_constant_p(T x) { return __builtin_is_constant_evaluated() || vp_known((long)x); } }
#define is_constant_evaluated vp_is_constant_evaluated
#define __builtin_constant_p(...) std::vp_constant_p(__VA_ARGS__)
#endif

#include <k3/tok3n.h>

namespace vp {

namespace tk = k3::tok3n::detail;
using namespace k3::tok3n;

enum Kind { K_DEF = 1, K_MOVED, K_CONS, K_NIL, K_OPT, K_NONE, K_VAR, K_PAIR, K_APP, K_MAKE, K_ARR, K_UNIT };
enum Tag { SUCCESS, REM_DATA, REM_SIZE, VALUE, FREM_DATA, FREM_SIZE, CALLS, OTHER };

// moves and copies of values: in the call-graph analyses they may throw
#ifdef VP_THROWING
#define VP_NOEXCEPT
#define VP_MAY_THROW vp_throw();
#else
#define VP_NOEXCEPT noexcept
#define VP_MAY_THROW
#endif

// ------------------------------------------------------------------ opaque values
// V<I>: copyable and movable. Its provenance is an uninterpreted term.
template <int I>
struct V
{
	void* h;
	V() : h(vp_t1(K_DEF, vp_int(I))) {}
	explicit V(void* t, int) : h(t) {}
	V(const V& o) : h(o.h) { VP_MAY_THROW }
	V(V&& o) VP_NOEXCEPT : h(o.h) { VP_MAY_THROW o.h = vp_t0(K_MOVED); }
	V& operator=(const V& o) { VP_MAY_THROW h = o.h; return *this; }
	V& operator=(V&& o) VP_NOEXCEPT { VP_MAY_THROW if (this != &o) { h = o.h; o.h = vp_t0(K_MOVED); } return *this; }
};
// G<I>: what accepts anything; made of anything but itself it is another value
template <int I>
struct G
{
	void* h;
	G() : h(vp_t1(K_DEF, vp_int(I))) {}
	explicit G(void* t, int) : h(t) {}
	template <class T>
	requires (not std::is_same_v<G, std::remove_cvref_t<T>>)
	G(T&&) : h(vp_t2(K_MAKE, vp_int(I + 500000), vp_t0(K_NIL))) { VP_MAY_THROW vp_trace(h); }
	G(const G& o) : h(o.h) { VP_MAY_THROW }
	G(G&& o) VP_NOEXCEPT : h(o.h) { VP_MAY_THROW o.h = vp_t0(K_MOVED); }
	G& operator=(const G& o) { VP_MAY_THROW h = o.h; return *this; }
	G& operator=(G&& o) VP_NOEXCEPT { VP_MAY_THROW if (this != &o) { h = o.h; o.h = vp_t0(K_MOVED); } return *this; }
};
// N<I>: like V, but a copy is an alarm: the library is expected to move its values
template <int I>
struct N
{
	void* h;
	N() : h(vp_t1(K_DEF, vp_int(I))) {}
	explicit N(void* t, int) : h(t) {}
	N(const N& o) : h(o.h) { vp_violation_copy(); }
	N(N&& o) VP_NOEXCEPT : h(o.h) { VP_MAY_THROW o.h = vp_t0(K_MOVED); }
	N& operator=(const N& o) { vp_violation_copy(); h = o.h; return *this; }
	N& operator=(N&& o) VP_NOEXCEPT { VP_MAY_THROW if (this != &o) { h = o.h; o.h = vp_t0(K_MOVED); } return *this; }
};
// M<I>: move-only
template <int I>
struct M
{
	void* h;
	M() : h(vp_t1(K_DEF, vp_int(I))) {}
	explicit M(void* t, int) : h(t) {}
	M(const M&) = delete;
	M(M&& o) VP_NOEXCEPT : h(o.h) { VP_MAY_THROW o.h = vp_t0(K_MOVED); }
	M& operator=(const M&) = delete;
	M& operator=(M&& o) VP_NOEXCEPT { VP_MAY_THROW if (this != &o) { h = o.h; o.h = vp_t0(K_MOVED); } return *this; }
};
// X<I>: no default constructor
template <int I>
struct X
{
	void* h;
	X() = delete;
	explicit X(void* t, int) : h(t) {}
	X(const X& o) : h(o.h) { VP_MAY_THROW }
	X(X&& o) VP_NOEXCEPT : h(o.h) { VP_MAY_THROW o.h = vp_t0(K_MOVED); }
	X& operator=(const X& o) { VP_MAY_THROW h = o.h; return *this; }
	X& operator=(X&& o) VP_NOEXCEPT { VP_MAY_THROW if (this != &o) { h = o.h; o.h = vp_t0(K_MOVED); } return *this; }
};
// O<I>: constructed from anything (for into / apply_into)
template <int I>
struct O;

template <class T> struct is_tok : std::false_type {};
template <int I> struct is_tok<V<I>> : std::true_type {};
template <int I> struct is_tok<G<I>> : std::true_type {};
template <int I> struct is_tok<N<I>> : std::true_type {};
template <int I> struct is_tok<M<I>> : std::true_type {};
template <int I> struct is_tok<X<I>> : std::true_type {};
template <int I> struct is_tok<O<I>> : std::true_type {};

// ------------------------------------------------------------------ results as terms
template <class T> struct ser;
template <class T> void* term_of(const T& t) { return ser<std::remove_cvref_t<T>>::of(t); }
template <class T> requires is_tok<T>::value
struct ser<T> { static void* of(const T& t) { return t.h; } };
template <class T> requires (std::is_integral_v<T>)
struct ser<T> { static void* of(const T& t) { return vp_int((long)t); } };
template <class T> requires (std::is_enum_v<T>)
struct ser<T> { static void* of(const T& t) { return vp_int((long)t); } };
template <class T>
struct ser<std::optional<T>> { static void* of(const std::optional<T>& t) { return t.has_value() ? vp_t1(K_OPT, term_of(*t)) : vp_t0(K_NONE); } };
template <class T>
struct ser<std::vector<T>>
{
	static void* of(const std::vector<T>& t)
	{
		void* l = vp_list_new();
		std::size_t n = t.size();
		for (std::size_t i = 0; i < n; ++i) vp_list_push(l, term_of(t[i]));
		return vp_list_term(l);
	}
};
template <class T, std::size_t N_>
struct ser<std::array<T, N_>>
{
	static void* of(const std::array<T, N_>& t)
	{
		void* l = vp_list_new();
		for (std::size_t i = 0; i < N_; ++i) vp_list_push(l, term_of(t[i]));
		return vp_t1(K_ARR, vp_list_term(l));
	}
};
template <class... Ts>
struct ser<std::tuple<Ts...>>
{
	template <std::size_t I>
	static void* from(const std::tuple<Ts...>& t)
	{
		if constexpr (I == sizeof...(Ts)) return vp_t0(K_NIL);
		else return vp_t2(K_CONS, term_of(std::get<I>(t)), from<I + 1>(t));
	}
	static void* of(const std::tuple<Ts...>& t) { return from<0>(t); }
};
template <class A, class B>
struct ser<std::pair<A, B>> { static void* of(const std::pair<A, B>& t) { return vp_t2(K_PAIR, term_of(t.first), term_of(t.second)); } };
template <class... Ts>
struct ser<std::variant<Ts...>>
{
	template <std::size_t I>
	static void* from(const std::variant<Ts...>& t)
	{
		if constexpr (I == sizeof...(Ts)) { vp_fail(OTHER); return vp_t0(K_NIL); }
		else if (t.index() == I) return vp_t2(K_VAR, vp_int((long)I), term_of(*std::get_if<I>(&t)));
		else return from<I + 1>(t);
	}
	static void* of(const std::variant<Ts...>& t) { return from<0>(t); }
};
template <>
struct ser<std::monostate> { static void* of(const std::monostate&) { return vp_t0(K_UNIT); } };
template <class T>
struct ser<tk::output_span<T>> { static void* of(const tk::output_span<T>& t) { return vp_span_term(t.data(), t.size()); } };
template <class T>
struct ser<tk::input_span<T>> { static void* of(const tk::input_span<T>& t) { return vp_span_term(t.data(), t.size()); } };

// the term of a value-initialised object (what a void alternative leaves in a choice)
template <class T> struct dflt { static void* of() { return term_of(T()); } };
template <class T> struct dflt<tk::output_span<T>> { static void* of() { return vp_span_term(nullptr, 0); } };

inline void* args() { return vp_t0(K_NIL); }
template <class T, class... Ts>
void* args(const T& t, const Ts&... ts) { void* a = term_of(t); return vp_t2(K_CONS, a, args(ts...)); }

// a function parameter that was given its argument to take, or one that costs nothing to copy
template <class T> inline constexpr bool moved_along = std::is_trivially_copyable_v<std::remove_cvref_t<T>> or (not std::is_lvalue_reference_v<T> and not std::is_const_v<T>);

struct Anything { template <class T> Anything(T&&) {} };
template <int I>
struct O
{
	void* h;
	// construction by braces would choose this one
	O(std::initializer_list<Anything>) : h(vp_t2(K_MAKE, vp_int(I + 100000), args())) { vp_trace(h); }
	O() : h(vp_t1(K_DEF, vp_int(I))) {}
	explicit O(void* t, int) : h(t) {}
	O(const O& o) : h(o.h) { VP_MAY_THROW }
	O(O&& o) VP_NOEXCEPT : h(o.h) { VP_MAY_THROW o.h = vp_t0(K_MOVED); }
	O& operator=(const O& o) { VP_MAY_THROW h = o.h; return *this; }
	O& operator=(O&& o) VP_NOEXCEPT { VP_MAY_THROW if (this != &o) { h = o.h; o.h = vp_t0(K_MOVED); } return *this; }
	template <class... Ts>
	requires (sizeof...(Ts) > 0 and not (sizeof...(Ts) == 1 and (... and std::is_same_v<O, std::remove_cvref_t<Ts>>)))
	explicit O(Ts&&... ts) : h(vp_t2(K_MAKE, vp_int(I), args(ts...)))
	{
		if constexpr (not (... and moved_along<Ts>))
			vp_violation_copy();
		vp_trace(h);
	}
};

// ------------------------------------------------------------------ opaque functions
template <int F, class Res>
struct Fn
{
	template <class... Ts>
	constexpr Res operator()(Ts&&... ts) const
	{
		if constexpr (not (... and moved_along<Ts>))
			vp_violation_copy();
		void* t = vp_t2(K_APP, vp_int(F), args(ts...));
		vp_trace(t);
		if constexpr (not std::is_void_v<Res>)
			return Res(t, 0);
	}
};
template <int F>
struct Pred
{
	// a predicate looks at the value: one that is given it to change counts as another call
	template <class... Ts>
	constexpr bool operator()(Ts&&... ts) const
	{
		constexpr bool looks = (... and std::is_const_v<std::remove_reference_t<Ts>>);
		void* t = vp_t2(K_APP, vp_int(looks ? F : F + 100000), args(ts...));
		vp_trace(t);
		return vp_pred(F, t);
	}
};
// the same functions in their other shapes
template <int F, class Res, class... Ts> Res by_value(Ts... ts) { return Fn<F, Res>{}(std::move(ts)...); }
template <int F, class Res, class... Ts> Res by_rvalue(Ts&&... ts) { return Fn<F, Res>{}(std::move(ts)...); }
template <int F, class... Ts> bool looks_at(const Ts&... ts) { return Pred<F>{}(ts...); }
// called as what it is: a constant
template <int F, class Res>
struct FnCon : Fn<F, Res>
{
	using Fn<F, Res>::operator();
	template <class... Ts> constexpr Res operator()(Ts&&... ts) { return Fn<F + 100000, Res>{}(std::forward<Ts>(ts)...); }
};

// ------------------------------------------------------------------ opaque parsers
enum { NULLABLE = 1, DIVERGENT = 2, NEVERFAIL = 4, SPAN = 8, LEN1 = 16, WHOLE = 32 };

template <int Id, class Val, int Flags = 0, class Elem = char>
struct A
{
	using value_type = Elem;
	template <class W>
	requires requires (W w, value_type v) { { w == v } -> std::convertible_to<bool>; }
	using result_for = std::conditional_t<std::is_same_v<W, void>, void, Val>;
	static constexpr tk::parser_family family = tk::custom_family;

	template <class R>
	static constexpr auto parse(R&& r)
	{
		tk::input_span input{ std::forward<R>(r) };
		using W = typename decltype(input)::value_type;
		std::size_t c = 0;
		int k = vp_query(Id, Flags, input.data(), input.size(), &c);
		if (k != 1)
			return tk::result<Val, W>{ tk::failure_tag, input };
		tk::input_span<W> rem{ input.data() + c, input.size() - c };
		if constexpr (std::is_void_v<Val>)
			return tk::result<Val, W>{ tk::success_tag, rem };
		else if constexpr ((Flags & SPAN) != 0)
		{
			const void* b; std::size_t n;
			vp_query_span(Id, Flags, input.data(), input.size(), &b, &n);
			return tk::result<Val, W>{ tk::success_tag, Val{ (const W*)b, n }, rem };
		}
		else
			return tk::result<Val, W>{ tk::success_tag, Val(vp_tok(Id, input.data()), 0), rem };
	}
	template <class R>
	static constexpr auto lookahead(R&& r)
	{
		tk::input_span input{ std::forward<R>(r) };
		using W = typename decltype(input)::value_type;
		std::size_t c = 0;
		int k = vp_query(Id, Flags, input.data(), input.size(), &c);
		if (k == 0)
			return tk::result<void, W>{ tk::failure_tag, input };
		return tk::result<void, W>{ tk::success_tag, tk::input_span<W>{ input.data() + c, input.size() - c } };
	}
};

// user-derived parsers
template <class P>
struct Custom : tk::custom_parser<Custom<P>, typename P::value_type>
{
	static constexpr auto get_parser() { return P{}; }
};
template <class P, class T>
struct CustomT : tk::custom_parser<CustomT<P, T>, typename P::value_type>
{
	using result_type = T;
	static constexpr auto get_parser() { return P{}; }
};

// ------------------------------------------------------------------ element types
enum class En : unsigned char { a, b, c, d };
struct St
{
	short v;
	friend constexpr bool operator==(const St&, const St&) = default;
	friend constexpr auto operator<=>(const St&, const St&) = default;
};
// a token that compares with char
struct Tk
{
	short v;
	friend constexpr bool operator==(const Tk& a, const Tk& b) { return a.v == b.v; }
	friend constexpr bool operator==(const Tk& a, char b) { return a.v == b; }
};

// ================================================================== the specification
namespace ref {

template <class E>
struct Cur { const E* p; std::size_t n; };

// the views produced so far, as far as a join is concerned: the contiguous range they cover, if any
struct Spans
{
	bool have = false, broken = false;
	bool novalue = false; // only the covered range matters, the value itself is thrown away
	const void* b = nullptr;
	const void* e = nullptr;
	void add(const void* from, std::size_t n, const void* to)
	{
		if (n == 0) return;
		if (not have) { have = true; b = from; e = to; }
		else if (from == e) e = to;
		else broken = true;
	}
};

// Every node: `T` (the type of its value, or void), go(cur, val, spans) and look(cur).
// On failure `cur` is unchanged.
template <int Id, class Val, int Flags = 0>
struct Arch
{
	using T = Val;
	template <class E>
	static bool go(Cur<E>& c, void*& v, Spans& s)
	{
		std::size_t k = 0;
		if (vp_query(Id, Flags, c.p, c.n, &k) != 1) return false;
		if constexpr ((Flags & SPAN) != 0)
		{
			const void* b; std::size_t n;
			vp_query_span(Id, Flags, c.p, c.n, &b, &n);
			v = vp_span_term(b, n);
			s.add(b, n, (const E*)b + n);
		}
		else if constexpr (not std::is_void_v<Val>)
			v = vp_tok(Id, c.p);
		c = Cur<E>{ c.p + k, c.n - k };
		return true;
	}
	template <class E>
	static bool look(Cur<E>& c)
	{
		std::size_t k = 0;
		if (vp_query(Id, Flags, c.p, c.n, &k) == 0) return false;
		c = Cur<E>{ c.p + k, c.n - k };
		return true;
	}
};

// ------------------------------------------------------------------ matching single elements
template <class E, class W> struct span_of { using type = tk::output_span<W>; };

template <bool Positive, auto... Vs>
struct OneOf
{
	using T = tk::output_span<char>;
	template <class E>
	static bool look(Cur<E>& c)
	{
		if (c.n == 0) return false;
		const E e = *c.p;
		bool in = false;
		((in = in | bool(e == Vs)), ...);
		if (in != Positive) return false;
		c = Cur<E>{ c.p + 1, c.n - 1 };
		return true;
	}
	template <class E>
	static bool go(Cur<E>& c, void*& v, Spans& s)
	{
		auto b = c;
		if (not look(c)) return false;
		v = vp_span_term(b.p, 1);
		s.add(b.p, 1, b.p + 1);
		return true;
	}
};
template <auto... Vs> using Any = OneOf<true, Vs...>;
template <auto... Vs> using None = OneOf<false, Vs...>;

template <auto... Vs>
struct All
{
	using T = tk::output_span<char>;
	template <class E>
	static bool look(Cur<E>& c)
	{
		if (c.n < sizeof...(Vs)) return false;
		std::size_t i = 0;
		bool ok = (true and ... and bool(c.p[i++] == Vs));
		if (not ok) return false;
		c = Cur<E>{ c.p + sizeof...(Vs), c.n - sizeof...(Vs) };
		return true;
	}
	template <class E>
	static bool go(Cur<E>& c, void*& v, Spans& s)
	{
		auto b = c;
		if (not look(c)) return false;
		v = vp_span_term(b.p, sizeof...(Vs));
		s.add(b.p, sizeof...(Vs), b.p + sizeof...(Vs));
		return true;
	}
};
struct Anything
{
	using T = tk::output_span<char>;
	template <class E>
	static bool look(Cur<E>& c)
	{
		if (c.n == 0) return false;
		c = Cur<E>{ c.p + 1, c.n - 1 };
		return true;
	}
	template <class E>
	static bool go(Cur<E>& c, void*& v, Spans& s)
	{
		auto b = c;
		if (not look(c)) return false;
		v = vp_span_term(b.p, 1);
		s.add(b.p, 1, b.p + 1);
		return true;
	}
};
struct Eps
{
	using T = void;
	template <class E> static bool look(Cur<E>&) { return true; }
	template <class E> static bool go(Cur<E>&, void*&, Spans&) { return true; }
};

// ------------------------------------------------------------------ sequence
template <class... Ts> struct tl {};
template <class L, class T> struct tl_add;
template <class... Ts, class T> struct tl_add<tl<Ts...>, T> { using type = tl<Ts..., T>; };
template <class... Ts> struct tl_add<tl<Ts...>, void> { using type = tl<Ts...>; };
template <class L, class... Rs> struct tl_fold { using type = L; };
template <class L, class R, class... Rs> struct tl_fold<L, R, Rs...> : tl_fold<typename tl_add<L, typename R::T>::type, Rs...> {};
template <class L> struct seq_type;
template <> struct seq_type<tl<>> { using type = void; };
template <class T_> struct seq_type<tl<T_>> { using type = T_; };
template <class T1, class T2, class... Ts> struct seq_type<tl<T1, T2, Ts...>> { using type = std::tuple<T1, T2, Ts...>; };

template <class... Rs>
struct Seq
{
	using T = typename seq_type<typename tl_fold<tl<>, Rs...>::type>::type;
	static constexpr std::size_t count = (0 + ... + (std::is_void_v<typename Rs::T> ? 0 : 1));
	template <class E, class R, class... More>
	static bool each(Cur<E>& c, Spans& s, void** vals, std::size_t k)
	{
		void* v = nullptr;
		if (not R::go(c, v, s)) return false;
		if constexpr (not std::is_void_v<typename R::T>) { vals[k] = v; ++k; }
		if constexpr (sizeof...(More) > 0) return each<E, More...>(c, s, vals, k);
		else return true;
	}
	template <class E>
	static bool go(Cur<E>& c, void*& v, Spans& s)
	{
		auto at = c;
		const Spans before_ = s;
		void* vals[count + 1];
		if (not each<E, Rs...>(at, s, vals, 0)) { s = before_; return false; }
		c = at;
		if constexpr (count == 1) v = vals[0];
		else if constexpr (count > 1)
		{
			v = vp_t0(K_NIL);
			for (std::size_t i = count; i-- > 0;) v = vp_t2(K_CONS, vals[i], v);
		}
		return true;
	}
	template <class E>
	static bool look(Cur<E>& c)
	{
		auto at = c;
		if (not (Rs::look(at) and ...)) return false;
		c = at;
		return true;
	}
};

// ------------------------------------------------------------------ choice
template <class L, class T> struct tl_has;
template <class... Ts, class T> struct tl_has<tl<Ts...>, T> : std::bool_constant<(false or ... or std::is_same_v<Ts, T>)> {};
template <class L, class T> struct tl_addu { using type = std::conditional_t<tl_has<L, T>::value, L, typename tl_add<L, T>::type>; };
template <class L> struct tl_addu<L, void> { using type = L; };
template <class L, class... Rs> struct tl_foldu { using type = L; };
template <class L, class R, class... Rs> struct tl_foldu<L, R, Rs...> : tl_foldu<typename tl_addu<L, typename R::T>::type, Rs...> {};
template <class L, class T> struct tl_pos;
template <class T, class... Ts> struct tl_pos<tl<T, Ts...>, T> { static constexpr long value = 0; };
template <class H, class... Ts, class T> struct tl_pos<tl<H, Ts...>, T> { static constexpr long value = 1 + tl_pos<tl<Ts...>, T>::value; };
template <class L> struct choice_type;
template <> struct choice_type<tl<>> { using type = void; };
template <class T_> struct choice_type<tl<T_>> { using type = T_; };
template <class T1, class T2, class... Ts> struct choice_type<tl<T1, T2, Ts...>> { using type = std::variant<T1, T2, Ts...>; };

template <class... Rs>
struct Choice
{
	using L = typename tl_foldu<tl<>, Rs...>::type;
	using T = typename choice_type<L>::type;
	static constexpr bool wrapped = not std::is_same_v<L, tl<>> and not std::is_same_v<tl<T>, L>;
	template <class E, class R, class... More>
	static bool each(Cur<E>& c, void*& v, Spans& s)
	{
		void* w = nullptr;
		if (R::go(c, w, s))
		{
			if constexpr (not std::is_void_v<T>)
			{
				if constexpr (std::is_void_v<typename R::T>) v = dflt<T>::of();
				else if constexpr (wrapped) v = vp_t2(K_VAR, vp_int(tl_pos<L, typename R::T>::value), w);
				else v = w;
			}
			return true;
		}
		if constexpr (sizeof...(More) > 0) return each<E, More...>(c, v, s);
		else return false;
	}
	template <class E>
	static bool go(Cur<E>& c, void*& v, Spans& s) { return each<E, Rs...>(c, v, s); }
	template <class E>
	static bool look(Cur<E>& c) { return (Rs::look(c) or ...); }
};

// ------------------------------------------------------------------ repetition
template <class R>
struct Maybe
{
	using T = typename std::conditional_t<std::is_void_v<typename R::T>, std::type_identity<void>, std::type_identity<std::optional<typename std::conditional_t<std::is_void_v<typename R::T>, std::type_identity<int>, std::type_identity<typename R::T>>::type>>>::type;
	template <class E>
	static bool go(Cur<E>& c, void*& v, Spans& s)
	{
		void* w = nullptr;
		bool ok = R::go(c, w, s);
		if constexpr (not std::is_void_v<T>) v = ok ? vp_t1(K_OPT, w) : vp_t0(K_NONE);
		return true;
	}
	template <class E>
	static bool look(Cur<E>& c) { R::look(c); return true; }
};
template <class T_> struct vec_type { using type = std::vector<T_>; };
template <> struct vec_type<void> { using type = void; };

template <class R, bool AtLeastOne>
struct Rep
{
	using T = typename vec_type<typename R::T>::type;
	template <class E>
	static bool go(Cur<E>& c, void*& v, Spans& s)
	{
		void* l = vp_list_new();
		bool any = false;
		while (true)
		{
			void* w = nullptr;
			auto before = c.n;
			if (not R::go(c, w, s)) break;
			any = true;
			if constexpr (not std::is_void_v<T>) if (not s.novalue) vp_list_push(l, w);
			if (c.n == before) break; // an empty match is kept once, and ends the repetition
		}
		if (AtLeastOne and not any) return false;
		if constexpr (not std::is_void_v<T>) v = vp_list_term(l);
		return true;
	}
	template <class E>
	static bool look(Cur<E>& c)
	{
		bool any = false;
		while (true)
		{
			auto before = c.n;
			if (not R::look(c)) break;
			any = true;
			if (c.n == before) break;
		}
		return any or not AtLeastOne;
	}
};
template <class R> using Plus = Rep<R, true>;
template <class R> using Star = Rep<R, false>;

template <class T_, std::size_t N_> struct arr_type { using type = std::array<T_, N_>; };
template <std::size_t N_> struct arr_type<void, N_> { using type = void; };

template <class R, std::size_t N_>
struct Exactly
{
	using T = typename arr_type<typename R::T, N_>::type;
	template <class E>
	static bool go(Cur<E>& c, void*& v, Spans& s)
	{
		auto at = c;
		const Spans before_ = s;
		void* l = vp_list_new();
		for (std::size_t i = 0; i < N_; ++i)
		{
			void* w = nullptr;
			if (not R::go(at, w, s)) { s = before_; return false; }
			if constexpr (not std::is_void_v<T>) if (not s.novalue) vp_list_push(l, w);
		}
		c = at;
		if constexpr (not std::is_void_v<T>) v = vp_t1(K_ARR, vp_list_term(l));
		return true;
	}
	template <class E>
	static bool look(Cur<E>& c)
	{
		auto at = c;
		for (std::size_t i = 0; i < N_; ++i)
			if (not R::look(at)) return false;
		c = at;
		return true;
	}
};

template <class P, class D> struct delim_type { using type = std::pair<std::vector<P>, std::vector<D>>; };
template <class P> struct delim_type<P, void> { using type = std::vector<P>; };
template <class D> struct delim_type<void, D> { using type = std::vector<D>; };
template <> struct delim_type<void, void> { using type = void; };

template <class P, class D>
struct Delim
{
	using T = typename delim_type<typename P::T, typename D::T>::type;
	template <class E>
	static bool go(Cur<E>& c, void*& v, Spans& s)
	{
		void* lp = vp_list_new();
		void* ld = vp_list_new();
		void* w = nullptr;
		if (not P::go(c, w, s)) return false;
		if constexpr (not std::is_void_v<typename P::T>) vp_list_push(lp, w);
		while (true)
		{
			auto at = c;
			const Spans before_ = s;
			void* d = nullptr;
			void* p = nullptr;
			if (not D::go(at, d, s)) break;
			if (not P::go(at, p, s)) { s = before_; break; }
			if constexpr (not std::is_void_v<typename D::T>) vp_list_push(ld, d);
			if constexpr (not std::is_void_v<typename P::T>) vp_list_push(lp, p);
			bool moved = at.n != c.n;
			c = at;
			if (not moved) break;
		}
		if constexpr (not std::is_void_v<typename P::T> and not std::is_void_v<typename D::T>) v = vp_t2(K_PAIR, vp_list_term(lp), vp_list_term(ld));
		else if constexpr (not std::is_void_v<typename P::T>) v = vp_list_term(lp);
		else if constexpr (not std::is_void_v<typename D::T>) v = vp_list_term(ld);
		return true;
	}
	template <class E>
	static bool look(Cur<E>& c)
	{
		if (not P::look(c)) return false;
		while (true)
		{
			auto at = c;
			if (not D::look(at)) break;
			if (not P::look(at)) break;
			bool moved = at.n != c.n;
			c = at;
			if (not moved) break;
		}
		return true;
	}
};

// ------------------------------------------------------------------ adaptors
template <class R>
struct Ignore
{
	using T = void;
	template <class E> static bool go(Cur<E>& c, void*&, Spans&) { return R::look(c); }
	template <class E> static bool look(Cur<E>& c) { return R::look(c); }
};
template <class R>
struct Complete
{
	using T = typename R::T;
	template <class E>
	static bool go(Cur<E>& c, void*& v, Spans& s)
	{
		auto at = c;
		const Spans before_ = s;
		if (not R::go(at, v, s) or at.n != 0) { s = before_; return false; }
		c = at;
		return true;
	}
	template <class E>
	static bool look(Cur<E>& c)
	{
		auto at = c;
		if (not R::look(at) or at.n != 0) return false;
		c = at;
		return true;
	}
};
template <class R>
struct Join
{
	using T = tk::output_span<char>;
	template <class E>
	static bool go(Cur<E>& c, void*& v, Spans& outer)
	{
		auto at = c;
		void* w = nullptr;
		Spans s;
		s.novalue = true;
		if (not R::go(at, w, s)) return false;
		if (s.broken) return false;
		if (not s.have) s.b = s.e = at.p;
		std::size_t len = (std::size_t)((const E*)s.e - (const E*)s.b);
		v = vp_span_term(s.b, len);
		outer.add(s.b, len, s.e);
		c = at;
		return true;
	}
	template <class E> static bool look(Cur<E>& c) { return R::look(c); }
};
// F: the function's number, Res: its result type; Spread: the elements of a tuple/pair/array are passed one by one
template <class R, int F, class Res, int Kind_ = K_APP, bool Spread = false>
struct Map
{
	using T = Res;
	template <class E>
	static bool go(Cur<E>& c, void*& v, Spans& s)
	{
		void* w = nullptr;
		Spans mine;
		if (not R::go(c, w, mine)) return false;
		void* a;
		if constexpr (std::is_void_v<typename R::T>) a = vp_t0(K_NIL);
		else if constexpr (Spread) a = vp_spread(w);
		else a = vp_t2(K_CONS, w, vp_t0(K_NIL));
		void* t = vp_t2(Kind_, vp_int(F), a);
		vp_trace(t);
		if constexpr (not std::is_void_v<Res>) v = t;
		return true;
	}
	template <class E> static bool look(Cur<E>& c) { return R::look(c); }
};
// the value is replaced by a fixed term, whatever was parsed
template <class R, class Res, int Value, bool Default = false>
struct Const
{
	using T = Res;
	template <class E>
	static bool go(Cur<E>& c, void*& v, Spans&)
	{
		void* w = nullptr;
		Spans mine;
		if (not R::go(c, w, mine)) return false;
		if constexpr (Default) v = vp_t1(K_DEF, vp_int(Value));
		else v = vp_int(Value);
		return true;
	}
	template <class E> static bool look(Cur<E>& c) { return R::look(c); }
};
template <class R, int F, bool Spread = false>
struct Filter
{
	using T = typename R::T;
	template <class E>
	static bool go(Cur<E>& c, void*& v, Spans& s)
	{
		auto at = c;
		const Spans before_ = s;
		if (not R::go(at, v, s)) return false;
		void* a;
		if constexpr (std::is_void_v<typename R::T>) a = vp_t0(K_NIL);
		else if constexpr (Spread) a = vp_spread(v);
		else a = vp_t2(K_CONS, v, vp_t0(K_NIL));
		void* t = vp_t2(K_APP, vp_int(F), a);
		vp_trace(t);
		if (not vp_pred(F, t)) { s = before_; return false; }
		c = at;
		return true;
	}
	template <class E> static bool look(Cur<E>& c) { return R::look(c); }
};

} // namespace ref

// ================================================================== entries
template <class E>
void declare(const long* seeds, long n, bool exact = false)
{
	vp_declare(0, sizeof(E), 0, std::is_signed_v<E>, seeds, n, exact);
}
template <class E, class Res>
void emit(const Res& r)
{
	bool ok = r.has_value();
	vp_out_bool(SUCCESS, ok);
	auto rem = r.remaining();
	vp_out(ok ? REM_DATA : FREM_DATA, vp_ptr_term(rem.data()));
	vp_out(ok ? REM_SIZE : FREM_SIZE, vp_int((long)rem.size()));
	if constexpr (not std::is_void_v<typename Res::value_type>)
		if (ok) vp_out(VALUE, term_of(*r));
}
template <class P, class E, bool LA>
void run_lib()
{
	tk::input_span<E> in{ (const E*)vp_input(0), vp_len(0) };
	if constexpr (LA) { auto r = P::lookahead(in); emit<E>(r); }
	else { auto r = P::parse(in); emit<E>(r); }
}
template <class R, class E, bool LA>
void run_ref()
{
	ref::Cur<E> c{ (const E*)vp_input(0), vp_len(0) };
	const auto start = c;
	bool ok;
	void* v = nullptr;
	if constexpr (LA) ok = R::look(c);
	else { ref::Spans s; ok = R::go(c, v, s); }
	vp_out_bool(SUCCESS, ok);
	vp_out(ok ? REM_DATA : FREM_DATA, vp_ptr_term(ok ? c.p : start.p));
	vp_out(ok ? REM_SIZE : FREM_SIZE, vp_int((long)(ok ? c.n : start.n)));
	if constexpr (not LA and not std::is_void_v<typename R::T>)
		if (ok) vp_out(VALUE, v);
}


// parse against lookahead: the same verdict, and the same rest
template <class P, class E, bool LA>
void run_verdict()
{
	vp_trace_off();
	tk::input_span<E> in{ (const E*)vp_input(0), vp_len(0) };
	auto out = [](const auto& r)
	{
		bool ok = r.has_value();
		vp_out_bool(SUCCESS, ok);
		auto rem = r.remaining();
		vp_out(ok ? REM_DATA : FREM_DATA, vp_ptr_term(rem.data()));
		vp_out(ok ? REM_SIZE : FREM_SIZE, vp_int((long)rem.size()));
	};
	if constexpr (LA) { auto r = P::lookahead(in); out(r); }
	else { auto r = P::parse(in); out(r); }
}

// A generated harness writes, per case, a struct with E (element type), L (library parser), R
// (specification), seeds (the element values of interest) and exact (only those values exist).
template <class C>
void declare_for()
{
	declare<typename C::E>(C::seeds, (long)(sizeof(C::seeds) / sizeof(long)), C::exact);
	if constexpr (requires { C::maxlen; }) vp_maxlen(0, C::maxlen);
}
} // namespace vp
#define VP_CASE_P(name) \
	extern "C" void lib_##name##__p() { vp::declare_for<name>(); vp::run_lib<name::L, name::E, false>(); } \
	extern "C" void ref_##name##__p() { vp::declare_for<name>(); vp::run_ref<name::R, name::E, false>(); }
#define VP_CASE_L(name) \
	extern "C" void lib_##name##__l() { vp::declare_for<name>(); vp::run_lib<name::L, name::E, true>(); } \
	extern "C" void ref_##name##__l() { vp::declare_for<name>(); vp::run_ref<name::R, name::E, true>(); }

#define VP_CASE_A(name) \
	extern "C" void lib_##name##__a() { vp::declare_for<name>(); vp::run_verdict<name::L, name::E, false>(); } \
	extern "C" void ref_##name##__a() { vp::declare_for<name>(); vp::run_verdict<name::L, name::E, true>(); }
#define VP_CASE_Q(name) \
	extern "C" void lib_##name##__q() { vp_note_queries(); vp::declare_for<name>(); vp::run_lib<name::L, name::E, false>(); } \
	extern "C" void ref_##name##__q() { vp_note_queries(); vp::declare_for<name>(); vp::run_ref<name::R, name::E, false>(); } \
	extern "C" void lib_##name##__k() { vp_note_queries(); vp::declare_for<name>(); vp::run_lib<name::L, name::E, true>(); } \
	extern "C" void ref_##name##__k() { vp_note_queries(); vp::declare_for<name>(); vp::run_ref<name::R, name::E, true>(); }
#define VP_CASE_U(name) \
	extern "C" void lib_##name##__u() { vp::declare_for<name>(); vp::run_verdict<name::L, name::E, true>(); } \
	extern "C" void ref_##name##__u() { vp::declare_for<name>(); vp::run_verdict<name::Under, name::E, true>(); }

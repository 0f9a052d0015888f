// How an input is given (C25): the same elements as a view, range, array, pointer ..., and the
// equality of views.
#pragma once
namespace vp {

template <class E>
struct Rng // a user's contiguous container
{
	E* p;
	std::size_t n;
	E* begin() { return p; }
	E* end() { return p + n; }
	const E* begin() const { return p; }
	const E* end() const { return p + n; }
	E* data() { return p; }
	const E* data() const { return p; }
	std::size_t size() const { return n; }
};
enum Cat { STD_SPAN, STD_SPAN_MUT, STD_SPAN_TEMP, STD_SPAN_FIXED, STRING_VIEW, RANGE, RANGE_CONST, RANGE_TEMP, ARRAY, ARRAY_MUT, STD_ARRAY, STD_ARRAY_MUT, POINTER, INPUT_SPAN, OUTPUT_SPAN };
constexpr int FIXED = 4;
constexpr bool fixed(int c) { return c == STD_SPAN_FIXED or c == ARRAY or c == ARRAY_MUT or c == STD_ARRAY or c == STD_ARRAY_MUT; }
template <class E> constexpr bool charlike = std::is_same_v<E, char> or std::is_same_v<E, wchar_t> or std::is_same_v<E, char8_t> or std::is_same_v<E, char16_t> or std::is_same_v<E, char32_t> or std::is_same_v<E, signed char> or std::is_same_v<E, unsigned char>;
template <class E, int C>
std::size_t visible(std::size_t n)
{
	if constexpr (C == ARRAY and charlike<E>) return n - 1; // a literal: all but the terminator
	else return n;
}
template <class E, int C>
void declare_cat(int which, const long* seeds, long n, bool exact, long max = -1)
{
	vp_declare(which, sizeof(E), C == POINTER, std::is_signed_v<E>, seeds, n, exact);
	if constexpr (fixed(C)) vp_fixlen(which, FIXED);
	else if (max >= 0) vp_maxlen(which, max);
}
template <class C>
constexpr long most()
{
	if constexpr (requires { C::maxlen; }) return C::maxlen;
	else return -1;
}
template <class E, int C, class F>
auto feed(int which, F f)
{
	const E* p = (const E*)vp_input(which);
	const std::size_t n = vp_len(which);
	E* q = const_cast<E*>(p);
	if constexpr (C == STD_SPAN) { const std::span<const E> s(p, n); return f(s); }
	else if constexpr (C == STD_SPAN_MUT) { std::span<E> s(q, n); return f(s); }
	else if constexpr (C == STD_SPAN_TEMP) return f(std::span<E>(q, n));
	else if constexpr (C == STD_SPAN_FIXED) return f(std::span<const E, FIXED>(p, FIXED));
	else if constexpr (C == STRING_VIEW) return f(std::basic_string_view<E>(p, n));
	else if constexpr (C == RANGE) { Rng<E> r{ q, n }; return f(r); }
	else if constexpr (C == RANGE_CONST) { const Rng<E> r{ q, n }; return f(r); }
	else if constexpr (C == RANGE_TEMP) return f(Rng<E>{ q, n });
	else if constexpr (C == ARRAY) return f(*(const E(*)[FIXED])p);
	else if constexpr (C == ARRAY_MUT) return f(*(E(*)[FIXED])q);
	else if constexpr (C == STD_ARRAY) return f(*(const std::array<E, FIXED>*)p);
	else if constexpr (C == STD_ARRAY_MUT) return f(*(std::array<E, FIXED>*)q);
	else if constexpr (C == POINTER) return f(p);
	else if constexpr (C == INPUT_SPAN) { const tk::input_span<E> s(p, n); return f(s); }
	else if constexpr (C == OUTPUT_SPAN) return f(tk::output_span<E>(p, n));
}

// parsing a range given in category C sees exactly its elements
template <class P, class E, int C, bool LA>
void run_cat_lib()
{
	feed<E, C>(0, []<class R>(R&& r) {
		if constexpr (LA) { auto res = P::lookahead(std::forward<R>(r)); emit<E>(res); }
		else { auto res = P::parse(std::forward<R>(r)); emit<E>(res); }
	});
}
template <class R, class E, int C, bool LA>
void run_cat_ref()
{
	ref::Cur<E> c{ (const E*)vp_input(0), visible<E, C>(vp_len(0)) };
	const auto start = c;
	bool ok;
	void* v = nullptr;
	if constexpr (LA) ok = R::look(c);
	else { ref::Spans s; ok = R::go(c, v, s); }
	vp_out_bool(SUCCESS, ok);
	vp_out(ok ? REM_DATA : FREM_DATA, vp_ptr_term(ok ? c.p : start.p));
	vp_out(ok ? REM_SIZE : FREM_SIZE, vp_int((long)(ok ? c.n : start.n)));
	if constexpr (not LA and not std::is_void_v<typename R::T>)
		if (ok) vp_out(VALUE, v);
}

// the view itself
template <class S, class E>
void same_view(const S& s, const E* p, std::size_t n)
{
	vp_same(REM_DATA, vp_ptr_term(s.data()), vp_ptr_term(p));
	vp_same(REM_SIZE, vp_int((long)s.size()), vp_int((long)n));
	vp_same(OTHER, vp_bool(s.empty()), vp_bool(n == 0));
	vp_same(OTHER, vp_int((long)(s.end() - s.begin())), vp_int((long)n));
	if (n > 0)
	{
		vp_same(OTHER, vp_ptr_term(&s.front()), vp_ptr_term(p));
		vp_same(OTHER, vp_ptr_term(&*s.begin()), vp_ptr_term(p));
	}
	for (std::size_t k = 0; k <= 3 and k <= n; ++k)
	{
		auto f = s.first(k);
		vp_same(REM_DATA, vp_ptr_term(f.data()), vp_ptr_term(p));
		vp_same(REM_SIZE, vp_int((long)f.size()), vp_int((long)k));
		auto t = s.subspan(k);
		vp_same(REM_DATA, vp_ptr_term(t.data()), vp_ptr_term(p + k));
		vp_same(REM_SIZE, vp_int((long)t.size()), vp_int((long)(n - k)));
		if (k > 0)
		{
			auto u = s.subspan(k - 1, 1);
			vp_same(REM_DATA, vp_ptr_term(u.data()), vp_ptr_term(p + k - 1));
			vp_same(REM_SIZE, vp_int((long)u.size()), vp_int(1));
		}
	}
}
template <class E, int C, template <class> class Span>
void run_view()
{
	static const long seeds[] = { 'a', 'b' };
	declare_cat<E, C>(0, seeds, 2, false);
	const E* p = (const E*)vp_input(0);
	const std::size_t n = visible<E, C>(vp_len(0));
	feed<E, C>(0, [&]<class R>(R&& r) {
		Span<E> s{ std::forward<R>(r) };
		same_view(s, p, n);
		Span<E> t(s), u;
		same_view(t, p, n);
		vp_same(REM_SIZE, vp_int((long)u.size()), vp_int(0));
		u = t;
		same_view(u, p, n);
		if constexpr (charlike<E>)
		{
			std::basic_string_view<E> sv = s;
			vp_same(REM_DATA, vp_ptr_term(sv.data()), vp_ptr_term(p));
			vp_same(REM_SIZE, vp_int((long)sv.size()), vp_int((long)n));
		}
		Span<E> w{ s.data(), s.size() };
		same_view(w, p, n);
	});
	feed<E, C>(0, [&]<class R>(R&& r) {
		if constexpr (requires { tk::input_span{ std::forward<R>(r) }; } and std::is_same_v<Span<E>, tk::input_span<E>>)
		{
			tk::input_span s{ std::forward<R>(r) };
			static_assert(std::is_same_v<decltype(s), tk::input_span<E>>);
			same_view(s, p, n);
		}
	});
}

// equality: same length, equal elements
template <class E1, class E2, int C, template <class> class Span>
void run_eq(bool lib, bool swap, bool negate)
{
	// of different types: values whose representations agree where the values do not
	static const long same[] = { 'a', 'b' };
	static const long other[] = { 'a', -23, 233, 255, -1, 65513, 0x61006100 };
	constexpr bool mixed = not std::is_same_v<E1, E2>;
	declare<E1>(mixed ? other : same, mixed ? 7 : 2, true);
	declare_cat<E2, C>(1, mixed ? other : same, mixed ? 7 : 2, true);
	const E1* p = (const E1*)vp_input(0);
	const E2* q = (const E2*)vp_input(1);
	const std::size_t n = vp_len(0), m = visible<E2, C>(vp_len(1));
	bool r;
	if (lib)
	{
		const Span<E1> s(p, n);
		r = feed<E2, C>(1, [&]<class R>(R&& x) {
			if (swap) return negate ? bool(std::forward<R>(x) != s) : bool(std::forward<R>(x) == s);
			return negate ? bool(s != std::forward<R>(x)) : bool(s == std::forward<R>(x));
		});
	}
	else
	{
		r = n == m;
		for (std::size_t i = 0; r and i != n; ++i)
			r = p[i] == q[i];
		if (negate) r = not r;
	}
	vp_out_bool(SUCCESS, r);
}
} // namespace vp
#define VP_CAT(name, cat) \
	extern "C" void lib_##name##__p() { vp::declare_cat<name::E, vp::cat>(0, name::seeds, sizeof(name::seeds) / sizeof(long), false, vp::most<name>()); vp::run_cat_lib<name::L, name::E, vp::cat, false>(); } \
	extern "C" void ref_##name##__p() { vp::declare_cat<name::E, vp::cat>(0, name::seeds, sizeof(name::seeds) / sizeof(long), false, vp::most<name>()); vp::run_cat_ref<name::R, name::E, vp::cat, false>(); } \
	extern "C" void lib_##name##__l() { vp::declare_cat<name::E, vp::cat>(0, name::seeds, sizeof(name::seeds) / sizeof(long), false, vp::most<name>()); vp::run_cat_lib<name::L, name::E, vp::cat, true>(); } \
	extern "C" void ref_##name##__l() { vp::declare_cat<name::E, vp::cat>(0, name::seeds, sizeof(name::seeds) / sizeof(long), false, vp::most<name>()); vp::run_cat_ref<name::R, name::E, vp::cat, true>(); }
#define VP_VIEW(name, elem, cat, sp) \
	extern "C" void lib_##name() { vp::run_view<elem, vp::cat, vp::tk::sp>(); } \
	extern "C" void ref_##name() {}
#define VP_EQ(name, e1, e2, cat, sp, swap, neg) \
	extern "C" void lib_##name() { vp::run_eq<e1, e2, vp::cat, vp::tk::sp>(true, swap, neg); } \
	extern "C" void ref_##name() { vp::run_eq<e1, e2, vp::cat, vp::tk::sp>(false, swap, neg); }

// Histories of result objects (C24): two results and a source of conversions, driven by an unknown,
// unbounded sequence of operations; a model is updated alongside and compared after every step.
#pragma once
namespace vp {

struct Model
{
	bool known = true; // false: moved from, must be overwritten before it is looked at
	bool ok = false;
	void* v = nullptr;
	const void* d = nullptr;
	std::size_t n = 0;
};
template <class T> T fresh(int i)
{
	if constexpr (is_tok<T>::value) return T(vp_t1(K_DEF, vp_int(100 + i)), 0);
	else if constexpr (std::is_same_v<T, std::optional<V<1>>>) return i ? T(V<1>(vp_t1(K_DEF, vp_int(100 + i)), 0)) : T();
	else if constexpr (std::is_same_v<T, std::optional<M<1>>>) return i ? T(M<1>(vp_t1(K_DEF, vp_int(100 + i)), 0)) : T();
	else if constexpr (std::is_same_v<T, std::variant<V<1>, V<2>>>) { if (i) return T(std::in_place_index<1>, vp_t1(K_DEF, vp_int(100)), 0); return T(std::in_place_index<0>, vp_t1(K_DEF, vp_int(101)), 0); }
	else if constexpr (std::is_same_v<T, std::vector<V<1>>>) { T t; if (i) t.emplace_back(vp_t1(K_DEF, vp_int(100 + i)), 0); return t; }
	else return T(i + 5);
}

template <class R>
void agree(const R& r, const Model& m)
{
	vp_same(SUCCESS, vp_bool(r.has_value()), vp_bool(static_cast<bool>(r)));
	if (not m.known) return;
	vp_same(SUCCESS, vp_bool(r.has_value()), vp_bool(m.ok));
	auto rem = r.remaining();
	vp_same(REM_DATA, vp_ptr_term(rem.data()), vp_ptr_term(m.d));
	vp_same(REM_SIZE, vp_int((long)rem.size()), vp_int((long)m.n));
	if constexpr (not std::is_void_v<typename R::value_type>)
	{
		if (m.ok)
		{
			vp_same(VALUE, term_of(*r), m.v);
			vp_same(VALUE, term_of(r.value()), m.v);
			vp_same(VALUE, term_of(const_cast<R&>(r).value()), m.v);
			vp_same(VALUE, term_of(*const_cast<R&>(r)), m.v);
			vp_same(VALUE, term_of(*std::move(r)), m.v);
			vp_same(VALUE, term_of(std::move(r).value()), m.v);
		}
	}
}

template <class T, class T2, class E>
struct history
{
	using R = tk::result<T, E>;
	using R2 = tk::result<T2, E>;
	static constexpr bool copyable = std::is_void_v<T> or std::is_copy_constructible_v<std::conditional_t<std::is_void_v<T>, int, T>>;
	static constexpr bool copyable2 = std::is_void_v<T2> or std::is_copy_constructible_v<std::conditional_t<std::is_void_v<T2>, int, T2>>;

	static tk::input_span<E> rest(Model& m, bool end)
	{
		const E* p = (const E*)vp_input(0);
		std::size_t n = vp_len(0);
		if (end) { p += n; n = 0; }
		m.d = p; m.n = n;
		return { p, n };
	}
	template <class X>
	static tk::result<X, E> failure(Model& m, bool end)
	{
		m = Model{};
		auto r = rest(m, end);
		return { tk::failure_tag, r };
	}
	template <class X>
	static tk::result<X, E> success(Model& m, int kind)
	{
		m = Model{};
		m.ok = true;
		auto r = rest(m, kind & 1);
		if constexpr (std::is_void_v<X>) return { tk::success_tag, r };
		else
		{
			X x = fresh<X>(kind & 1);
			m.v = term_of(x);
			if constexpr (std::is_copy_constructible_v<X>)
			{
				if (kind & 2) { const X& c = x; return { tk::success_tag, c, r }; }
			}
			return { tk::success_tag, std::move(x), r };
		}
	}
	// what a value of T2 becomes when it is converted
	static void* converted(const Model& m)
	{
		if constexpr (std::is_same_v<T, T2>) return m.v;
		else if constexpr (std::is_same_v<T, std::optional<T2>>) return vp_t1(K_OPT, m.v);
		else if constexpr (std::is_same_v<T2, V<2>>) return vp_t2(K_VAR, vp_int(1), m.v);
		else if constexpr (is_tok<T2>::value) return vp_t2(K_VAR, vp_int(0), m.v);
		else return m.v;
	}
	// any state a result can be in
	static void any(R& b, Model& mb)
	{
		const int k = vp_pick(6);
		if (k == 1) b = failure<T>(mb, false);
		if (k == 2) b = failure<T>(mb, true);
		if (k == 3) b = success<T>(mb, 0);
		if (k == 4) b = success<T>(mb, 3);
		if (k == 5) { b = success<T>(mb, 1); R gone(std::move(b)); agree(gone, mb); mb.known = false; }
	}
	// asked for the value it does not have, it throws
	static void refuses(R& a)
	{
		if constexpr (not std::is_void_v<T>)
		{
			const int how = vp_pick(4);
			vp_may_throw(true);
			if (how == 0) (void)a.value();
			if (how == 1) (void)std::as_const(a).value();
			if (how == 2) (void)std::move(a).value();
			if (how == 3) (void)std::move(std::as_const(a)).value();
			vp_may_throw(false);
			vp_fail(VALUE);
		}
	}
	static void run()
	{
		static const long seeds[] = { 'a' };
		declare<E>(seeds, 1);
		R a;
		Model ma;
		agree(a, ma);
		while (vp_pick(2))
		{
			const int op = vp_pick(21);
			switch (op)
			{
			case 0: case 1: a = failure<T>(ma, op & 1); break;
			case 2: case 3: case 4: case 5: a = success<T>(ma, op - 2); break;
			case 6: { R t; a = std::move(t); ma = Model{}; break; }
			case 7: if constexpr (copyable) { R b; Model mb; any(b, mb); if (mb.known) { a = b; ma = mb; agree(b, mb); } } break;
			case 8: { R b; Model mb; any(b, mb); if (mb.known) { a = std::move(b); ma = mb; } } break;
			case 9: if constexpr (copyable) { R b; Model mb; any(b, mb); if (ma.known) { b = a; mb = ma; agree(b, mb); } } break;
			case 10: { R b; Model mb; any(b, mb); if (ma.known) { b = std::move(a); mb = ma; agree(b, mb); a = std::move(b); } } break;
			case 11: case 12: // a converted copy
				if constexpr (copyable2 and not std::is_void_v<T2>)
				{
					Model mc;
					const R2 c = op == 11 ? success<T2>(mc, 1) : failure<T2>(mc, 1);
					R t(c);
					ma = mc;
					if (mc.ok) ma.v = converted(mc);
					agree(t, ma);
					agree(c, mc);
					a = c;
				}
				break;
			case 13: case 14: case 15: // converted by moving
				if constexpr (not std::is_void_v<T2>)
				{
					Model mc;
					R2 c;
					if (op != 15) c = op == 13 ? success<T2>(mc, 0) : failure<T2>(mc, 0);
					R t(std::move(c));
					ma = mc;
					if (mc.ok) ma.v = converted(mc);
					agree(t, ma);
					a = std::move(t);
				}
				break;
			case 16: // copies of copies, and assignment to itself
				if constexpr (copyable)
					if (ma.known) { R t(a); agree(t, ma); const R u(t); agree(u, ma); agree(t, ma); auto& s = a; a = s; }
				break;
			case 18: case 19: // the value is changed in place
				if constexpr (not std::is_void_v<T>)
					if (ma.known and ma.ok)
					{
						T t = fresh<T>(0);
						ma.v = term_of(t);
						if (op == 18) *a = std::move(t); else a.value() = std::move(t);
					}
				break;
			case 20:
				if (ma.known and not ma.ok) { refuses(a); vp_prune(); }
				break;
			case 17: // the value is taken out
				if constexpr (not std::is_void_v<T>)
					if (ma.known and ma.ok)
					{
						if (vp_pick(2)) { T t = *std::move(a); vp_same(VALUE, term_of(t), ma.v); }
						else { T t = std::move(a).value(); vp_same(VALUE, term_of(t), ma.v); }
						vp_same(SUCCESS, vp_bool(a.has_value()), vp_bool(true));
						vp_same(REM_DATA, vp_ptr_term(a.remaining().data()), vp_ptr_term(ma.d));
						ma.known = false;
					}
				break;
			}
			agree(a, ma);
		}
	}
};
} // namespace vp
#define VP_T(...) __VA_ARGS__
#define VP_HISTORY(name, ...) \
	extern "C" void lib_##name() { vp::history<__VA_ARGS__>::run(); } \
	extern "C" void ref_##name() {}

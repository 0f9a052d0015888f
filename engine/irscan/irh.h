// Harness of the call-graph analyses (C30, C31, C32): the operands of the abstract interpreter (vp.h), with the
// real standard library, exceptions, and values whose moves and copies may throw (VP_THROWING).
#pragma once
extern "C" {
void* vp_list_new();
void vp_list_push(void*, void*);
void vp_throw();
}
#include "vp.h"
namespace vp {
// recursive rules of the user's: I says which grammar
template <int I, class Val = void>
struct Rec : tk::custom_parser<Rec<I, Val>, char>
{
	using result_type = Val;
	static constexpr auto get_parser()
	{
		constexpr Rec<I, Val> self{};
		if constexpr (I == 0) return A<1, Val>{} | (ign<"("> >> self >> ign<")">);
		if constexpr (I == 1) return A<1, void>{} | (ign<"["> >> *self >> ign<"]">);
		if constexpr (I == 2) return A<1, void>{} | (ign<"["> >> +self >> ~self);
		if constexpr (I == 3) return A<1, V<1>>{} | map<Fn<1, V<1>>{}>(ign<"("> >> self >> ign<",">);
	}
};
// elements whose comparison may throw
struct Te
{
	short v;
	friend constexpr bool operator==(const Te& a, const Te& b) { if (not std::is_constant_evaluated()) vp_throw(); return a.v == b.v; }
	friend constexpr auto operator<=>(const Te&, const Te&) = default;
};

template <class P, class E, bool Look>
void entry()
{
	const E* p = (const E*)vp_input(0);
	std::size_t n = vp_len(0);
	if constexpr (Look) { auto r = P::lookahead(tk::input_span<E>{ p, n }); vp_out(0, vp_ptr_term(&r)); }
	else { auto r = P::parse(tk::input_span<E>{ p, n }); vp_out(0, vp_ptr_term(&r)); }
}
} // namespace vp
#define VP_ENT(name, elem, ...) \
	extern "C" void ent_##name##__p() { vp::entry<__VA_ARGS__, elem, false>(); } \
	extern "C" void ent_##name##__l() { vp::entry<__VA_ARGS__, elem, true>(); }

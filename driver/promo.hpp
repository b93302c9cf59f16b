// Mixed-type and integral arguments of the math functions: every operand is promoted to double
#pragma once
#include "common.hpp"
#ifdef F_PROMO
template<class U, class A> auto promo_ld(const std::vector<u8> &x)
{
	dpm::simd<U, A> r;
	std::vector<U> b(dpm::simd<U, A>::size());
	std::memcpy(b.data(), x.data(), b.size() * sizeof(U));
	r.copy_from(b.data(), dpm::element_aligned);
	return r;
}
template<class MC, class W> void promo_fpc(const W &q)
{
	int b[W::size()];
	q.copy_to(b, dpm::element_aligned);
	fputs(" b", g_out);
	for (int z : b) fputc(z == FP_NAN ? '0' : z == FP_INFINITE ? '1' : z == FP_ZERO ? '2' : z == FP_SUBNORMAL ? '3' : z == FP_NORMAL ? '4' : '9', g_out);
}
#define PV(n, e) OP(n) DO(auto y_ = promo_ld<U, A>(I.x); auto r_ = e(v[I.a], y_); mc.out(r_))
#define PS(n, e) OP(n) DO(auto y_ = Mach<U, A>::sc(I.x); auto r_ = e(v[I.a], y_); mc.out(r_))
#define PM(n) OP(#n) DO(auto y_ = promo_ld<U, A>(I.x); auto r_ = dpm::n(v[I.a], y_); mc.outm(r_))
#define PT(n, e) OP(n) DO(auto y_ = promo_ld<U, A>(I.x); auto r_ = e(v[I.a], y_, v[I.c]); mc.out(r_))
// same call on operands converted by hand
#define PQ(n, e) OP(n) DO(auto y_ = promo_ld<U, A>(I.x); auto r_ = e(v[I.a], y_); mc.out(r_); auto s_ = e(PD(v[I.a]), dpm::rebind_simd_t<double, decltype(y_)>(y_)); mc.out(s_))
#define PQS(n, e) OP(n) DO(auto y_ = Mach<U, A>::sc(I.x); auto r_ = e(v[I.a], y_); mc.out(r_); auto s_ = e(PD(v[I.a]), static_cast<double>(y_)); mc.out(s_))
template<class U, class T, class A> NOINL bool promo_vec(Mach<T, A> &mc, const Ins &I, const std::string &fn)
{
	PRE
	using PD = dpm::rebind_simd_t<double, V>;
	constexpr bool same = std::is_same_v<T, U>;
	switch (H(fn.c_str()))
	{
	PV("remainder", dpm::remainder) PV("fmax", dpm::fmax) PV("fmin", dpm::fmin) PV("fdim", dpm::fdim) PV("fmod", dpm::fmod)
	OP("remquo") DO(auto y_ = promo_ld<U, A>(I.x); dpm::simd<int, A> q; auto r_ = dpm::remquo(v[I.a], y_, &q); mc.out(r_); mc.out(q))
	PT("fmadd", dpm::ext::fmadd) PT("fmsub", dpm::ext::fmsub) PT("fnmadd", dpm::ext::fnmadd) PT("fnmsub", dpm::ext::fnmsub)
	}
	if constexpr (!same || std::is_integral_v<T>)
		switch (H(fn.c_str()))
		{
		PV("copysign", dpm::copysign) PV("nextafter", dpm::nextafter) PQ("hypot", dpm::hypot) PQ("pow", dpm::pow) PQ("atan2", dpm::atan2)
		PM(isgreater) PM(isgreaterequal) PM(isless) PM(islessequal) PM(islessgreater) PM(isunordered)
		}
	if constexpr (!same)
		switch (H(fn.c_str()))
		{
		PT("fma", dpm::fma) PT("lerp", dpm::lerp)
		OP("remquor") DO(auto y_ = promo_ld<U, A>(I.x); dpm::simd<int, A> q; auto r_ = dpm::ext::remquo(v[I.a], y_, q); mc.out(r_); mc.out(q))
		}
	return false;
}
template<class U, class T, class A> NOINL bool promo_sca(Mach<T, A> &mc, const Ins &I, const std::string &fn)
{
	PRE
	using PD = dpm::rebind_simd_t<double, V>;
	switch (H(fn.c_str()))
	{
	PS("remainder", dpm::remainder) PS("fmax", dpm::fmax) PS("fmin", dpm::fmin) PS("fdim", dpm::fdim) PS("fmod", dpm::fmod)
	PQS("pow", dpm::pow)
	}
	if constexpr (!std::is_same_v<T, U> || std::is_integral_v<T>)
		switch (H(fn.c_str()))
		{
		PS("copysign", dpm::copysign)
		OP("lerp") DO(auto y_ = Mach<U, A>::sc(I.x); auto r_ = dpm::lerp(v[I.a], v[I.c], y_); mc.out(r_))
		}
	return false;
}
#define PU(n) OP("pu." #n) DO(auto r_ = dpm::n(v[I.a]); mc.out(r_); auto s_ = dpm::n(PD(v[I.a])); mc.out(s_))
#define PUM(n) OP("pum." #n) DO(auto r_ = dpm::n(v[I.a]); mc.outm(r_))
template<class T, class A> bool promo_step(Mach<T, A> &mc, const Ins &I)
{
	PRE
	using PD = dpm::rebind_simd_t<double, V>;
	using VD = PD;
	using QI = dpm::simd<int, A>;
	if constexpr (std::is_integral_v<T>)
		switch (I.op)
		{
		PU(sqrt) PU(cbrt) PU(ext::rcp) PU(ext::rsqrt) PU(exp) PU(exp2) PU(expm1) PU(log) PU(log10) PU(log2) PU(log1p) PU(sin) PU(cos) PU(tan) PU(asin) PU(acos) PU(atan)
		PU(sinh) PU(cosh) PU(tanh) PU(asinh) PU(acosh) PU(atanh) PU(erf) PU(erfc) PU(tgamma) PU(lgamma) PU(logb)
		PUM(isfinite) PUM(isinf) PUM(isnan) PUM(isnormal) PUM(signbit)
		OP("pfpc") DO(auto q = dpm::fpclassify(v[I.a]); promo_fpc<MC>(q))
		OP("pilogb") DO(auto q = dpm::ilogb(v[I.a]); mc.out(q))
		OP("pfrexp.p") DO(QI q; VD r_ = dpm::frexp(v[I.a], &q); mc.out(r_); mc.out(q))
		OP("pfrexp.r") DO(QI q; VD r_ = dpm::ext::frexp(v[I.a], q); mc.out(r_); mc.out(q))
		OP("pscale.ldexp.v") DO(auto r_ = dpm::ldexp(v[I.a], promo_ld<int, A>(I.x)); mc.out(r_))
		OP("pscale.scalbn.v") DO(auto r_ = dpm::scalbn(v[I.a], promo_ld<int, A>(I.x)); mc.out(r_))
		OP("pscale.scalbln.v") DO(auto r_ = dpm::scalbln(v[I.a], promo_ld<long, A>(I.x)); mc.out(r_))
		OP("pscale.ldexp.s") DO(auto r_ = dpm::ldexp(v[I.a], Mach<int, A>::sc(I.x)); mc.out(r_))
		OP("pscale.scalbn.s") DO(auto r_ = dpm::scalbn(v[I.a], Mach<int, A>::sc(I.x)); mc.out(r_))
		OP("pscale.scalbln.s") DO(auto r_ = dpm::scalbln(v[I.a], Mach<long, A>::sc(I.x)); mc.out(r_))
		}
	const auto p1 = I.name.find('.'), p2 = I.name.find('.', p1 + 1);
	if (p2 == std::string::npos) return false;
	const std::string k = I.name.substr(0, p1), f = I.name.substr(p1 + 1, p2 - p1 - 1), u = I.name.substr(p2 + 1);
	switch (H(u.c_str()))
	{
#define PU_(n, ty) case H(n): return k == "ps" ? promo_sca<ty>(mc, I, f) : k == "pv" ? promo_vec<ty>(mc, I, f) : false;
	PU_("f32", float) PU_("f64", double) PU_("i32", std::int32_t) PU_("u64", std::uint64_t)
	default: return false;
	}
}
#endif

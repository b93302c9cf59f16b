// Floating-point families (included by fam.hpp)
#pragma once
#include "common.hpp"
struct RoundGuard
{
	int old;
	explicit RoundGuard(const std::string &m) : old(fegetround()) { fesetround(m == "u" ? FE_UPWARD : m == "d" ? FE_DOWNWARD : m == "z" ? FE_TOWARDZERO : FE_TONEAREST); }
	~RoundGuard() { fesetround(old); }
};
#ifdef F_FARITH
template<class T, class A> bool farith_step(Mach<T, A> &mc, const Ins &I)
{
	PRE
	if constexpr (std::is_floating_point_v<T>)
		switch (I.op)
		{
		OP("fu.sqrt") DO(v[I.d] = dpm::sqrt(v[I.a]); mc.out(v[I.d]))
		OP("ft.fma.v") DO(v[I.d] = dpm::fma(v[I.a], v[I.b], v[I.c]); mc.out(v[I.d]))
		OP("ft.fmadd.v") DO(v[I.d] = dpm::ext::fmadd(v[I.a], v[I.b], v[I.c]); mc.out(v[I.d]))
		OP("ft.fmsub.v") DO(v[I.d] = dpm::ext::fmsub(v[I.a], v[I.b], v[I.c]); mc.out(v[I.d]))
		OP("ft.fnmadd.v") DO(v[I.d] = dpm::ext::fnmadd(v[I.a], v[I.b], v[I.c]); mc.out(v[I.d]))
		OP("ft.fnmsub.v") DO(v[I.d] = dpm::ext::fnmsub(v[I.a], v[I.b], v[I.c]); mc.out(v[I.d]))
		OP("lerp.-.v") DO(v[I.d] = dpm::lerp(v[I.a], v[I.b], v[I.c]); mc.out(v[I.d]))
		OP("lerp.-.s") DO(v[I.d] = dpm::lerp(v[I.a], v[I.b], mc.sc(I.x)); mc.out(v[I.d]))
		OP("un.abs") DO(v[I.d] = dpm::abs(v[I.a]); mc.out(v[I.d]))
		}
	return false;
}
#endif
#ifdef F_MANIP
template<class I_, class A> auto ints(const std::vector<u8> &x)
{
	dpm::simd<I_, A> r;
	std::vector<I_> b(dpm::simd<I_, A>::size());
	std::memcpy(b.data(), x.data(), b.size() * sizeof(I_));
	r.copy_from(b.data(), dpm::element_aligned);
	return r;
}
template<class T, class A> bool manip_step(Mach<T, A> &mc, const Ins &I)
{
	PRE
	if constexpr (std::is_floating_point_v<T>)
	{
		using QI = dpm::simd<int, A>;
		auto sci = [&](auto z) { decltype(z) t; std::memcpy(&t, I.x.data(), sizeof(t)); return t; };
		switch (I.op)
		{
		OP("frexp.p") DO(QI q; v[I.d] = dpm::frexp(v[I.a], &q); mc.out(v[I.d]); mc.out(q))
		OP("frexp.r") DO(QI q; v[I.d] = dpm::ext::frexp(v[I.a], q); mc.out(v[I.d]); mc.out(q))
		OP("modf.p") DO(V q; V r = dpm::modf(v[I.a], &q); v[I.d] = r; v[I.c] = q; mc.out(v[I.d]); mc.out(v[I.c]))
		OP("modf.r") DO(V q; V r = dpm::ext::modf(v[I.a], q); v[I.d] = r; v[I.c] = q; mc.out(v[I.d]); mc.out(v[I.c]))
		OP("fu.logb") DO(v[I.d] = dpm::logb(v[I.a]); mc.out(v[I.d]))
		OP("ilogb") DO(auto q = dpm::ilogb(v[I.a]); mc.out(q))
		OP("scale.ldexp.v") DO(v[I.d] = dpm::ldexp(v[I.a], ints<int, A>(I.x)); mc.out(v[I.d]))
		OP("scale.scalbn.v") DO(v[I.d] = dpm::scalbn(v[I.a], ints<int, A>(I.x)); mc.out(v[I.d]))
		OP("scale.scalbln.v") DO(v[I.d] = dpm::scalbln(v[I.a], ints<long, A>(I.x)); mc.out(v[I.d]))
		OP("scale.ldexp.s") DO(v[I.d] = dpm::ldexp(v[I.a], sci(0)); mc.out(v[I.d]))
		OP("scale.scalbn.s") DO(v[I.d] = dpm::scalbn(v[I.a], sci(0)); mc.out(v[I.d]))
		OP("scale.scalbln.s") DO(v[I.d] = dpm::scalbln(v[I.a], sci(0l)); mc.out(v[I.d]))
		}
	}
	return false;
}
#endif
#ifdef F_FBIN
// nexttoward a long double one step above or below the second operand
template<class T, class A> void ntl_step(dpm::simd<T, A> &d, const dpm::simd<T, A> &a, const dpm::simd<T, A> &b, bool up)
{
	const auto to = [&](std::size_t i) { return std::nextafter(static_cast<long double>(static_cast<T>(b[i])), up ? std::numeric_limits<long double>::infinity() : -std::numeric_limits<long double>::infinity()); };
	if constexpr (std::is_default_constructible_v<dpm::simd<long double, A>>)
	{
		dpm::simd<long double, A> l;
		for (std::size_t i = 0; i < l.size(); ++i) l[i] = to(i);
		d = dpm::nexttoward(a, l);
	}
	else /* no vectors of long double for this ABI */
		for (std::size_t i = 0; i < d.size(); ++i) d[i] = std::nexttoward(static_cast<T>(a[i]), to(i));
}
#define FBV(n) OP("fb." #n ".v") DO(v[I.d] = dpm::n(v[I.a], v[I.b]); mc.out(v[I.d]))
#define FBS(n) OP("fb." #n ".s") DO(v[I.d] = dpm::n(v[I.a], mc.sc(I.x)); mc.out(v[I.d]))
template<class T, class A> bool fbin_step(Mach<T, A> &mc, const Ins &I)
{
	PRE
	switch (I.op) { OP("un.abs") DO(v[I.d] = dpm::abs(v[I.a]); mc.out(v[I.d])) }
	if constexpr (std::is_floating_point_v<T>)
		switch (I.op)
		{
		FBV(copysign) FBV(nextafter) FBV(fmin) FBV(fmax) FBV(fdim) FBV(fmod) FBV(remainder)
		FBS(copysign) FBS(fmin) FBS(fmax) FBS(fdim) FBS(fmod) FBS(remainder)
		OP("fb.nexttoward.v") DO(if constexpr (requires { dpm::nexttoward(v[I.a], v[I.b]); }) v[I.d] = dpm::nexttoward(v[I.a], v[I.b]); else v[I.d] = dpm::nextafter(v[I.a], v[I.b]); mc.out(v[I.d]))
		OP("ntl.-.u") DO(ntl_step(v[I.d], v[I.a], v[I.b], true); mc.out(v[I.d]))
		OP("ntl.-.d") DO(ntl_step(v[I.d], v[I.a], v[I.b], false); mc.out(v[I.d]))
		OP("fu.fabs") DO(v[I.d] = dpm::fabs(v[I.a]); mc.out(v[I.d]))
		OP("remquo.p") DO(dpm::simd<int, A> q; v[I.d] = dpm::remquo(v[I.a], v[I.b], &q); mc.out(v[I.d]); mc.out(q))
		OP("remquo.r") DO(dpm::simd<int, A> q; v[I.d] = dpm::ext::remquo(v[I.a], v[I.b], q); mc.out(v[I.d]); mc.out(q))
		}
	return false;
}
#endif
#ifdef F_ROUND
#define RNDF(n) OP("fu." #n) DO(v[I.d] = dpm::n(v[I.a]); mc.out(v[I.d]))
#define RNDM(n, m) OP("fu." #n "." m) DO(RoundGuard g(m); asm volatile("" ::: "memory"); V r = dpm::n(v[I.a]); asm volatile("" : "+m"(r) :: "memory"); v[I.d] = r; mc.out(v[I.d]))
#define IRND(n, e) OP("irnd." n) DO(auto r = e(v[I.a]); mc.out(r))
#define IRNM(n, e, m) OP("irnd." n "." m) DO(RoundGuard g(m); asm volatile("" ::: "memory"); auto r = e(v[I.a]); asm volatile("" : "+m"(r) :: "memory"); mc.out(r))
template<class T, class A> bool round_step(Mach<T, A> &mc, const Ins &I)
{
	PRE
	if constexpr (std::is_floating_point_v<T>)
		switch (I.op)
		{
		RNDF(ceil) RNDF(floor) RNDF(trunc) RNDF(round) RNDF(rint) RNDF(nearbyint)
		RNDM(ceil, "u") RNDM(floor, "u") RNDM(trunc, "u") RNDM(round, "u") RNDM(rint, "u") RNDM(nearbyint, "u")
		RNDM(ceil, "d") RNDM(floor, "d") RNDM(trunc, "d") RNDM(round, "d") RNDM(rint, "d") RNDM(nearbyint, "d")
		RNDM(ceil, "z") RNDM(floor, "z") RNDM(trunc, "z") RNDM(round, "z") RNDM(rint, "z") RNDM(nearbyint, "z")
		RNDM(rint, "ne") RNDM(nearbyint, "ne")
		IRND("lrint", dpm::lrint) IRND("llrint", dpm::llrint) IRND("irint_i", dpm::ext::irint<int>) IRND("irint_l", dpm::ext::irint<long>)
		IRND("lround", dpm::lround) IRND("llround", dpm::llround)
		IRND("iround_i", dpm::ext::iround<int>) IRND("iround_l", dpm::ext::iround<long>)
		IRND("itrunc_i", dpm::ext::itrunc<int>) IRND("itrunc_l", dpm::ext::itrunc<long>)
		IRND("ltrunc", dpm::ext::ltrunc) IRND("lltrunc", dpm::ext::lltrunc)
#define IRNMS(m) IRNM("lrint", dpm::lrint, m) IRNM("llrint", dpm::llrint, m) IRNM("irint_i", dpm::ext::irint<int>, m) IRNM("irint_l", dpm::ext::irint<long>, m)
		IRNMS("ne") IRNMS("u") IRNMS("d") IRNMS("z")
		}
	return false;
}
#endif
#ifdef F_CLASS
template<class T, class A> bool class_step(Mach<T, A> &mc, const Ins &I)
{
	PRE
	if constexpr (std::is_floating_point_v<T>)
		switch (I.op)
		{
#define FCLS(n) OP("fcls." #n) DO(m[I.d] = dpm::n(v[I.a]); mc.outm(m[I.d]))
		FCLS(isnan) FCLS(isinf) FCLS(isfinite) FCLS(isnormal) FCLS(signbit)
#define FQC(n) OP("fqc." #n ".v") DO(m[I.d] = dpm::n(v[I.a], v[I.b]); mc.outm(m[I.d])) \
		OP("fqc." #n ".s") DO(if constexpr (requires { M(dpm::n(v[I.a], mc.sc(I.x))); }) m[I.d] = dpm::n(v[I.a], mc.sc(I.x)); else m[I.d] = dpm::n(v[I.a], V(mc.sc(I.x))); mc.outm(m[I.d]))
		FQC(isgreater) FQC(isgreaterequal) FQC(isless) FQC(islessequal) FQC(islessgreater) FQC(isunordered)
		OP("fnan") DO(char s[16]; std::snprintf(s, sizeof(s), "%d", static_cast<int>(I.k)); v[I.d] = dpm::ext::nan<T, A>(s); mc.out(v[I.d]))
		OP("fpclass") DO(auto q = dpm::fpclassify(v[I.a]); int b[N]; q.copy_to(b, dpm::element_aligned); fputs(" b", g_out);
			for (int z : b) fputc(z == FP_NAN ? '0' : z == FP_INFINITE ? '1' : z == FP_ZERO ? '2' : z == FP_SUBNORMAL ? '3' : z == FP_NORMAL ? '4' : '9', g_out))
		}
	return false;
}
#endif

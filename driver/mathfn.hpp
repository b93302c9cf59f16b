// Elementary functions: every operation carries its own arguments
#pragma once
#include "common.hpp"
#ifdef F_MATH
#define EL1(n) OP("el." #n) DO(V x_ = ld_(I.x); V r_ = dpm::n(x_); mc.out(r_))
#define EL1E(n) OP("el." #n) DO(V x_ = ld_(I.x); V r_ = dpm::ext::n(x_); mc.out(r_))
#define EL2(n) OP("el." #n) DO(V x_ = ld_(I.x); V y_ = ld_(I.y); V r_ = dpm::n(x_, y_); mc.out(r_))
template<class T, class A> bool math_step(Mach<T, A> &mc, const Ins &I)
{
	PRE
	auto ld_ = [](const std::vector<u8> &b) { V r; r.copy_from(reinterpret_cast<const T *>(b.data()), dpm::element_aligned); return r; };
	if constexpr (std::is_floating_point_v<T>)
		switch (I.op)
		{
		EL1(sin) EL1(cos) EL1(tan) EL1(asin) EL1(acos) EL1(atan)
		EL1(sinh) EL1(cosh) EL1(tanh) EL1(asinh) EL1(acosh) EL1(atanh)
		EL1(exp) EL1(exp2) EL1(expm1) EL1(log) EL1(log2) EL1(log10) EL1(log1p)
		EL1(cbrt) EL1(sqrt) EL1E(rcp) EL1E(rsqrt) EL1(erf) EL1(erfc) EL1(tgamma) EL1(lgamma)
		EL2(atan2) EL2(hypot) EL2(pow)
		OP("elsc.sin") DO(V x_ = ld_(I.x); V s_, c_; dpm::ext::sincos(x_, s_, c_); mc.out(s_); mc.out(c_))
		}
	return false;
}
#endif

// Operation families.  A translation unit selects families with -DF_xxx.
#pragma once
#include "common.hpp"

#define PRE \
	using MC = Mach<T, A>; using V = typename MC::V; using M = typename MC::M; \
	auto &v = mc.v; auto &m = mc.m; auto fence = [&] { mc.fence(); }; (void)v; (void)m; \
	constexpr std::size_t N = MC::N; (void)N;

#ifdef F_ARITH
#define BINV(nm, op) \
	OP("bin." nm ".v") DO(v[I.d] = v[I.a] op v[I.b]; mc.out(v[I.d])) \
	OP("bin." nm ".s") DO(v[I.d] = v[I.a] op mc.sc(I.x); mc.out(v[I.d])) \
	OP("bin." nm ".vq") DO(v[I.d] op##= v[I.b]; mc.out(v[I.d])) \
	OP("bin." nm ".sq") DO(v[I.d] op##= mc.sc(I.x); mc.out(v[I.d]))
template<class T, class A> bool arith_step(Mach<T, A> &mc, const Ins &I)
{
	PRE
	switch (I.op)
	{
	BINV("add", +) BINV("sub", -) BINV("mul", *) BINV("div", /)
	OP("un.neg") DO(v[I.d] = -v[I.a]; mc.out(v[I.d]))
	OP("un.pos") DO(v[I.d] = +v[I.a]; mc.out(v[I.d]))
	OP("inc.inc.pre") DO(V r = ++v[I.d]; mc.out(v[I.d]); mc.out(r))
	OP("inc.dec.pre") DO(V r = --v[I.d]; mc.out(v[I.d]); mc.out(r))
	OP("inc.inc.post") DO(V r = v[I.d]++; mc.out(v[I.d]); mc.out(r))
	OP("inc.dec.post") DO(V r = v[I.d]--; mc.out(v[I.d]); mc.out(r))
	}
	if constexpr (std::is_integral_v<T>)
		switch (I.op) { BINV("mod", %) }
	return false;
}
#endif
#ifdef F_BITS
#define BITV(nm, op) \
	OP("bin." nm ".v") DO(v[I.d] = v[I.a] op v[I.b]; mc.out(v[I.d])) \
	OP("bin." nm ".vq") DO(v[I.d] op##= v[I.b]; mc.out(v[I.d])) \
	OP("bin." nm ".s") DO(v[I.d] = v[I.a] op mc.sc(I.x); mc.out(v[I.d])) \
	OP("bin." nm ".sq") DO(v[I.d] op##= mc.sc(I.x); mc.out(v[I.d]))
#define SHK(nm, k) OP("shk." nm ".v." #k) DO(v[I.d] = dpm::ext::SHF<k>(v[I.a]); mc.out(v[I.d]))
template<std::size_t K, class T, class A> bool shk_one(Mach<T, A> &mc, const Ins &I)
{
	PRE
	if (static_cast<std::size_t>(I.k) != K) return false;
	if constexpr (K < std::numeric_limits<T>::digits)
	{
		switch (I.op)
		{
		OP("shk.lsl.v") DO(v[I.d] = dpm::ext::lsl<K>(v[I.a]); mc.out(v[I.d]))
		OP("shk.lsr.v") DO(v[I.d] = dpm::ext::lsr<K>(v[I.a]); mc.out(v[I.d]))
		}
		if constexpr (std::is_signed_v<T>)
			switch (I.op)
			{
			OP("shk.asl.v") DO(v[I.d] = dpm::ext::asl<K>(v[I.a]); mc.out(v[I.d]))
			OP("shk.asr.v") DO(v[I.d] = dpm::ext::asr<K>(v[I.a]); mc.out(v[I.d]))
			}
	}
	return false;
}
template<class T, class A, std::size_t... K> bool shk_any(Mach<T, A> &mc, const Ins &I, std::index_sequence<K...>) { return (shk_one<K>(mc, I) || ...); }
template<class T> constexpr auto shk_counts()
{
	if constexpr (sizeof(T) == 1) return std::index_sequence<0, 1, 2, 3, 4, 5, 6, 7>{};
	else if constexpr (sizeof(T) == 2) return std::index_sequence<0, 1, 3, 4, 7, 8, 9, 12, 14, 15>{};
	else if constexpr (sizeof(T) == 4) return std::index_sequence<0, 1, 4, 7, 8, 15, 16, 17, 24, 30, 31>{};
	else return std::index_sequence<0, 1, 8, 16, 24, 31, 32, 33, 40, 47, 48, 62, 63>{};
}
template<class T, class A> bool bits_step(Mach<T, A> &mc, const Ins &I)
{
	PRE
	if constexpr (std::is_integral_v<T>)
	{
		switch (I.op)
		{
		BITV("and", &) BITV("or", |) BITV("xor", ^)
		OP("bin.shl.v") DO(v[I.d] = v[I.a] << v[I.b]; mc.out(v[I.d]))
		OP("bin.shr.v") DO(v[I.d] = v[I.a] >> v[I.b]; mc.out(v[I.d]))
		OP("bin.shl.vq") DO(v[I.d] <<= v[I.b]; mc.out(v[I.d]))
		OP("bin.shr.vq") DO(v[I.d] >>= v[I.b]; mc.out(v[I.d]))
		OP("shk.shli.v") DO(v[I.d] = v[I.a] << static_cast<int>(I.k); mc.out(v[I.d]))
		OP("shk.shri.v") DO(v[I.d] = v[I.a] >> static_cast<int>(I.k); mc.out(v[I.d]))
		OP("shk.shli.vq") DO(v[I.d] <<= static_cast<int>(I.k); mc.out(v[I.d]))
		OP("shk.shri.vq") DO(v[I.d] >>= static_cast<int>(I.k); mc.out(v[I.d]))
		OP("un.not") DO(v[I.d] = ~v[I.a]; mc.out(v[I.d]))
		}
		if (I.name.rfind("shk.", 0) == 0) return shk_any(mc, I, shk_counts<T>());
	}
	return false;
}
#endif
#ifdef F_CMP
#define CMPV(nm, op) OP("cmp." nm ".v") DO(m[I.d] = v[I.a] op v[I.b]; mc.outm(m[I.d]))
template<class T, class A> bool cmp_step(Mach<T, A> &mc, const Ins &I)
{
	PRE
	switch (I.op)
	{
	CMPV("eq", ==) CMPV("ne", !=) CMPV("lt", <) CMPV("le", <=) CMPV("gt", >) CMPV("ge", >=)
	OP("lnot") DO(m[I.d] = !v[I.a]; mc.outm(m[I.d]))
	}
	return false;
}
#endif
#ifdef F_MINMAX
template<class T, class A> bool minmax_step(Mach<T, A> &mc, const Ins &I)
{
	PRE
	switch (I.op)
	{
	OP("bin.min.v") DO(v[I.d] = dpm::min(v[I.a], v[I.b]); mc.out(v[I.d]))
	OP("bin.max.v") DO(v[I.d] = dpm::max(v[I.a], v[I.b]); mc.out(v[I.d]))
	OP("bin.min.s") DO(v[I.d] = dpm::min(v[I.a], mc.sc(I.x)); mc.out(v[I.d]))
	OP("bin.max.s") DO(v[I.d] = dpm::max(v[I.a], mc.sc(I.x)); mc.out(v[I.d]))
	OP("minmax.-.v") DO(auto r = dpm::minmax(v[I.a], v[I.b]); v[I.d] = r.first; v[I.c] = r.second; mc.out(v[I.d]); mc.out(v[I.c]))
	OP("minmax.-.s") DO(auto r = dpm::minmax(v[I.a], mc.sc(I.x)); v[I.d] = r.first; v[I.c] = r.second; mc.out(v[I.d]); mc.out(v[I.c]))
	OP("clamp.-.v") DO(v[I.d] = dpm::clamp(v[I.a], v[I.b], v[I.c]); mc.out(v[I.d]))
	OP("clamp.-.s") DO(v[I.d] = dpm::clamp(v[I.a], mc.sc(I.x), mc.sc(I.y)); mc.out(v[I.d]))
	}
	return false;
}
#endif
#ifdef F_MASK
#define MBINV(nm, op) OP("mbin." nm ".v") DO(m[I.d] = m[I.a] op m[I.b]; mc.outm(m[I.d]))
#define MBINQ(nm, op) OP("mbin." nm ".vq") DO(m[I.d] op m[I.b]; mc.outm(m[I.d]))
template<class T, class A> bool mask_step(Mach<T, A> &mc, const Ins &I)
{
	PRE
	switch (I.op)
	{
	MBINV("mand", &) MBINV("mor", |) MBINV("mxor", ^) MBINV("mland", &&) MBINV("mlor", ||) MBINV("meq", ==) MBINV("mne", !=)
	MBINQ("mand", &=) MBINQ("mor", |=) MBINQ("mxor", ^=)
	OP("mun.not") DO(m[I.d] = !m[I.a]; mc.outm(m[I.d]))
	OP("mun.bnot") DO(m[I.d] = ~m[I.a]; mc.outm(m[I.d]))
	OP("mun.neg") DO(m[I.d] = -m[I.a]; mc.outm(m[I.d]))
	OP("mun.pos") DO(m[I.d] = +m[I.a]; mc.outm(m[I.d]))
	OP("mgen") DO(const u8 *q = I.x.data(); unsigned calls[N] = {}; bool extra = false; m[I.d] = M([&](std::size_t i) { if (i < N) ++calls[i]; else extra = true; return i < N && q[i] != 0; }); for (std::size_t i = 0; i < N; ++i) if (calls[i] != 1) extra = true; if (extra) fputs(" bad", g_out); mc.outm(m[I.d]))
	OP("mlit.-.ctor") DO(m[I.d] = M(reinterpret_cast<const bool *>(I.x.data()), dpm::element_aligned); mc.outm(m[I.d]))
	OP("mlit.-.va") DO(alignas(64) bool b[N + 64]; for (std::size_t i = 0; i < N; ++i) b[i] = I.x[i]; m[I.d].copy_from(b, dpm::vector_aligned); mc.outm(m[I.d]))
	OP("mldm") DO(m[I.d].copy_from(reinterpret_cast<const bool *>(I.x.data()), m[I.c], dpm::element_aligned); mc.outm(m[I.d]))
	OP("mget") DO(const M &k = m[I.a]; mc.outi(k[static_cast<std::size_t>(I.k) % N]))
	OP("mget.-.ref") DO(mc.outi(static_cast<bool>(m[I.a][static_cast<std::size_t>(I.k) % N])))
	// lane to lane: source and destination are references into registers
#define MREF(r, sh) m[r][static_cast<std::size_t>(I.k / (sh)) % N]
	OP("meset.cp") DO(MREF(I.d, 1) = MREF(I.a, 64); mc.outm(m[I.d]))
	OP("meset.and") DO(MREF(I.d, 1) &= MREF(I.a, 64); mc.outm(m[I.d]))
	OP("meset.or") DO(MREF(I.d, 1) |= MREF(I.a, 64); mc.outm(m[I.d]))
	OP("meset.xor") DO(MREF(I.d, 1) ^= MREF(I.a, 64); mc.outm(m[I.d]))
	OP("meset.sw") DO(using std::swap; swap(MREF(I.d, 1), MREF(I.a, 64)); mc.outm(m[I.d]))
	OP("meset.bsw") DO(using std::swap; bool b = I.x[0] != 0; if (I.c) swap(b, MREF(I.d, 1)); else swap(MREF(I.d, 1), b); MREF(I.a, 64) = b; mc.outm(m[I.d]))
	OP("meget.and") DO(mc.outi(static_cast<bool>(MREF(I.a, 1) & MREF(I.b, 64))))
	OP("meget.or") DO(mc.outi(static_cast<bool>(MREF(I.a, 1) | MREF(I.b, 64))))
	OP("meget.xor") DO(mc.outi(static_cast<bool>(MREF(I.a, 1) ^ MREF(I.b, 64))))
	OP("mset.asg") DO(m[I.d][static_cast<std::size_t>(I.k) % N] = (I.x[0] != 0); mc.outm(m[I.d]))
	OP("mset.and") DO(m[I.d][static_cast<std::size_t>(I.k) % N] &= (I.x[0] != 0); mc.outm(m[I.d]))
	OP("mset.or") DO(m[I.d][static_cast<std::size_t>(I.k) % N] |= (I.x[0] != 0); mc.outm(m[I.d]))
	OP("mset.xor") DO(m[I.d][static_cast<std::size_t>(I.k) % N] ^= (I.x[0] != 0); mc.outm(m[I.d]))
	OP("msame.packed") DO(using PM = dpm::simd_mask<T, dpm::simd_abi::ext::packed_buffer<N>>; PM p = static_cast<PM>(m[I.a]); mc.outm(p))
	OP("mmov.packed") DO(using PM = dpm::simd_mask<T, dpm::simd_abi::ext::packed_buffer<N>>; PM p = static_cast<PM>(m[I.a]); m[I.d] = static_cast<M>(p); mc.outm(m[I.d]))
	OP("mmov.fixed") DO(auto p = dpm::to_fixed_size(m[I.a]); m[I.d] = static_cast<M>(p); mc.outm(m[I.d]))
	OP("msame.other") DO(using U = std::conditional_t<sizeof(T) == 1, std::int32_t, std::conditional_t<sizeof(T) == 8, std::int16_t, double>>; using OM = dpm::simd_mask<U, dpm::simd_abi::fixed_size<N>>; OM p; for (std::size_t i = 0; i < N; ++i) p[i] = false; if constexpr (requires { static_cast<OM>(m[I.a]); }) p = static_cast<OM>(m[I.a]); else for (std::size_t i = 0; i < N; ++i) p[i] = static_cast<bool>(m[I.a][i]); mc.outm(p))
	}
	return false;
}
#endif
#ifdef F_MRED
template<class T, class A> bool mred_step(Mach<T, A> &mc, const Ins &I)
{
	PRE
	switch (I.op)
	{
	OP("mred.all") DO(mc.outi(dpm::all_of(m[I.a])))
	OP("mred.any") DO(mc.outi(dpm::any_of(m[I.a])))
	OP("mred.none") DO(mc.outi(dpm::none_of(m[I.a])))
	OP("mred.some") DO(mc.outi(dpm::some_of(m[I.a])))
	OP("mred.count") DO(mc.outi(static_cast<long>(dpm::reduce_count(m[I.a]))))
	// the overloads for a single value
#define ONE_LANE const M cm = m[I.a]; const bool b1 = cm[static_cast<std::size_t>(I.k) % N];
	OP("bred.all") DO(ONE_LANE mc.outi(dpm::all_of(b1)))
	OP("bred.any") DO(ONE_LANE mc.outi(dpm::any_of(b1)))
	OP("bred.none") DO(ONE_LANE mc.outi(dpm::none_of(b1)))
	OP("bred.some") DO(ONE_LANE mc.outi(dpm::some_of(b1)))
	OP("bred.count") DO(ONE_LANE mc.outi(static_cast<long>(dpm::reduce_count(b1))))
	OP("bred.minidx") DO(ONE_LANE mc.outi(b1 ? static_cast<long>(dpm::reduce_min_index(b1)) : 1))
	OP("bred.maxidx") DO(ONE_LANE mc.outi(b1 ? static_cast<long>(dpm::reduce_max_index(b1)) : 1))
	OP("mred.minidx") DO(if (dpm::any_of(m[I.a])) mc.outi(static_cast<long>(dpm::reduce_min_index(m[I.a]))); else mc.outi(N))
	OP("mred.maxidx") DO(if (dpm::any_of(m[I.a])) mc.outi(static_cast<long>(dpm::reduce_max_index(m[I.a]))); else mc.outi(N))
	}
	return false;
}
#endif
#ifdef F_BLEND
template<class T, class A> bool blend_step(Mach<T, A> &mc, const Ins &I)
{
	PRE
	switch (I.op)
	{
	OP("blend") DO(v[I.d] = dpm::blend(m[I.c], v[I.a], v[I.b]); mc.out(v[I.d]))
	OP("bblend") DO(const M cm = m[I.c]; const bool b1 = cm[static_cast<std::size_t>(I.k) % N]; v[I.d] = dpm::blend(b1, v[I.a], v[I.b]); mc.out(v[I.d]))
	OP("sblend") DO(const M cm = m[I.c]; const V ca = v[I.a], cb = v[I.b]; const std::size_t l = static_cast<std::size_t>(I.k) % N; const bool b1 = cm[l]; mc.outs(T(dpm::blend(b1, T(ca[l]), T(cb[l])))))
	OP("mblend") DO(m[I.d] = dpm::blend(m[I.c], m[I.a], m[I.b]); mc.outm(m[I.d]))
	}
	return false;
}
#endif
#ifdef F_RED
template<class T, class A> bool red_step(Mach<T, A> &mc, const Ins &I)
{
	PRE
	switch (I.op)
	{
	OP("red.add") DO(mc.outs(dpm::reduce(v[I.a])))
	OP("red.add.op") DO(mc.outs(dpm::reduce(v[I.a], std::plus<>{})))
	OP("red.add.opt") DO(mc.outs(dpm::reduce(v[I.a], std::plus<T>{})))
	OP("red.add.lam") DO(mc.outs(dpm::reduce(v[I.a], [](auto a, auto b) { return a + b; })))
	OP("red.mul.op") DO(mc.outs(dpm::reduce(v[I.a], std::multiplies<>{})))
	OP("red.add.h") DO(mc.outs(dpm::ext::hadd(v[I.a])))
	OP("red.mul.h") DO(mc.outs(dpm::ext::hmul(v[I.a])))
	OP("red.min.h") DO(mc.outs(dpm::reduce_min(v[I.a])))
	OP("red.max.h") DO(mc.outs(dpm::reduce_max(v[I.a])))
	OP("red.max.lam") DO(mc.outs(dpm::reduce(v[I.a], [](T a, T b) { return a < b ? b : a; })))
	}
	if constexpr (std::is_integral_v<T>)
		switch (I.op)
		{
		OP("red.and.op") DO(mc.outs(dpm::reduce(v[I.a], std::bit_and<>{})))
		OP("red.or.op") DO(mc.outs(dpm::reduce(v[I.a], std::bit_or<>{})))
		OP("red.xor.op") DO(mc.outs(dpm::reduce(v[I.a], std::bit_xor<>{})))
		OP("red.and.h") DO(mc.outs(dpm::ext::hand(v[I.a])))
		OP("red.or.h") DO(mc.outs(dpm::ext::hor(v[I.a])))
		OP("red.xor.h") DO(mc.outs(dpm::ext::hxor(v[I.a])))
		}
	return false;
}
#endif
#ifdef F_ACCESS
template<class T, class A> bool access_step(Mach<T, A> &mc, const Ins &I)
{
	PRE
	const std::size_t k = static_cast<std::size_t>(I.k) % N;
	switch (I.op)
	{
	OP("get") DO(const V &c = v[I.a]; mc.outs(c[k]))
	OP("get.-.ref") DO(T t = v[I.a][k]; mc.outs(t))
#define VREF(r, sh) v[r][static_cast<std::size_t>(I.k / (sh)) % N]
	OP("eset.cp") DO(VREF(I.d, 1) = VREF(I.a, 64); mc.out(v[I.d]))
	OP("eset.sw") DO(using std::swap; swap(VREF(I.d, 1), VREF(I.a, 64)); mc.out(v[I.d]))
	OP("mov.nfill") DO(auto s = dpm::ext::to_native_data(std::as_const(v[I.a])); V x = v[I.a]; if constexpr (requires { V(s[0]); }) x = V(s[0]); auto q = dpm::ext::to_native_data(x); if constexpr (requires { V(s[0]); }) for (std::size_t i = 0; i < q.size(); ++i) if (std::memcmp(&q[i], &s[0], sizeof(s[0]))) fputs(" bad", g_out); for (std::size_t i = 1; i < q.size(); ++i) q[i] = s[i]; v[I.d] = x; mc.out(v[I.d]))
	OP("mmov.nfill") DO(auto s = dpm::ext::to_native_data(std::as_const(m[I.a])); M x = m[I.a]; if constexpr (requires { M(s[0]); }) x = M(s[0]); auto q = dpm::ext::to_native_data(x); if constexpr (requires { M(s[0]); }) for (std::size_t i = 0; i < q.size(); ++i) if (std::memcmp(&q[i], &s[0], sizeof(s[0]))) fputs(" bad", g_out); for (std::size_t i = 1; i < q.size(); ++i) q[i] = s[i]; m[I.d] = x; mc.outm(m[I.d]))
	OP("set.asg") DO(v[I.d][k] = mc.sc(I.x); mc.out(v[I.d]))
	OP("set.add") DO(v[I.d][k] += mc.sc(I.x); mc.out(v[I.d]))
	OP("set.sub") DO(v[I.d][k] -= mc.sc(I.x); mc.out(v[I.d]))
	// a generator is called once for every lane and for nothing else
#define CALLS unsigned calls[N] = {}; bool extra = false; auto called = [&](std::size_t i) { if (i < N) ++calls[i]; else extra = true; return i < N ? i : 0; };
#define CALLED for (std::size_t i = 0; i < N; ++i) if (calls[i] != 1) extra = true; if (extra) fputs(" bad", g_out);
	OP("gen") DO(CALLS const u8 *q = I.x.data(); v[I.d] = V([&](std::size_t j) { const std::size_t i = called(j); T t; std::memcpy(&t, q + i * sizeof(T), sizeof(T)); return t; }); CALLED mc.out(v[I.d]))
	OP("gen.-.ic") DO(const u8 *q = I.x.data(); CALLS v[I.d] = V([&](auto j) { const std::size_t i = called(j); T t; std::memcpy(&t, q + i * sizeof(T), sizeof(T)); return t; }); CALLED mc.out(v[I.d]))
	OP("lit.-.ctor") DO(v[I.d] = V(reinterpret_cast<const T *>(I.x.data()), dpm::element_aligned); mc.out(v[I.d]))
	// the native data view: lanes in order, as bytes
	OP("same.native") DO(auto s = dpm::ext::to_native_data(std::as_const(v[I.a])); T b[N]; std::memcpy(b, s.data(), sizeof(b)); mc.outp(b, sizeof(T), N))
	OP("same.nsize") DO(auto s = dpm::ext::to_native_data(v[I.a]); if (s.size() != dpm::ext::native_data_size_v<V> || s.size() * sizeof(s[0]) < N * sizeof(T)) fputs(" bad", g_out); mc.out(v[I.a]))
	OP("mov.native") DO(auto s = dpm::ext::to_native_data(std::as_const(v[I.a])); if constexpr (requires { V(s); }) v[I.d] = V(s); else v[I.d] = v[I.a]; mc.out(v[I.d]))
	OP("mov.nwrite") DO(auto s = dpm::ext::to_native_data(v[I.d]); auto q = dpm::ext::to_native_data(std::as_const(v[I.a])); for (std::size_t i = 0; i < s.size(); ++i) s[i] = q[i]; mc.out(v[I.d]))
	OP("mmov.native") DO(auto s = dpm::ext::to_native_data(std::as_const(m[I.a])); if constexpr (requires { M(s); }) m[I.d] = M(s); else m[I.d] = m[I.a]; mc.outm(m[I.d]))
	OP("mmov.nwrite") DO(auto s = dpm::ext::to_native_data(m[I.d]); auto q = dpm::ext::to_native_data(std::as_const(m[I.a])); for (std::size_t i = 0; i < s.size(); ++i) s[i] = q[i]; mc.outm(m[I.d]))
	}
	return false;
}
#endif

#ifdef F_MEM
// setmem: a bytes in front, then N - c elements of b bytes; k = placement (see Arena)
template<class T, class A> bool arena_step(Mach<T, A> &mc, const Ins &I)
{
	PRE
	switch (I.op)
	{
	OP("setmem") { const long c = I.c > static_cast<long>(N) ? static_cast<long>(N) : I.c;
		std::vector<u8> x(I.x.begin(), I.x.begin() + (I.a + (static_cast<long>(N) - c) * I.b)); mc.ar.set(x, static_cast<int>(I.k)); mc.outmem(mc.ar); return true; }
	// mask literal whose last c lanes are false
	OP("mlit.-.tail") DO(bool b[N]; for (std::size_t i = 0; i < N; ++i) b[i] = I.x[i] && i + static_cast<std::size_t>(I.c) < N; m[I.d].copy_from(b, dpm::element_aligned); mc.outm(m[I.d]))
	}
	return false;
}
template<class U, class T, class A> NOINL bool mem_one(Mach<T, A> &mc, const Ins &I, const std::string &form, bool st)
{
	PRE
	U *p = reinterpret_cast<U *>(mc.ar.mem + I.k);
	const U *q = p;
	constexpr auto OA = dpm::overaligned<64>;
	if (!st)
	{
		switch (H(form.c_str()))
		{
		OP("e") DO(v[I.d].copy_from(q, dpm::element_aligned); mc.out(v[I.d]))
		OP("c") DO(v[I.d] = V(q, dpm::element_aligned); mc.out(v[I.d]))
		OP("v") DO(v[I.d].copy_from(q, dpm::vector_aligned); mc.out(v[I.d]))
		OP("o") DO(v[I.d] = V(q, OA); mc.out(v[I.d]))
		OP("me") DO(v[I.d].copy_from(q, m[I.c], dpm::element_aligned); mc.out(v[I.d]))
		// the lanes that were not selected have no specified value
		OP("mc") DO(v[I.d] = V(q, m[I.c], dpm::element_aligned); for (std::size_t i = 0; i < N; ++i) if (!m[I.c][i]) v[I.d][i] = T{}; mc.out(v[I.d]))
		OP("mv") DO(v[I.d].copy_from(q, m[I.c], dpm::vector_aligned); mc.out(v[I.d]))
		}
	}
	else
		switch (H(form.c_str()))
		{
		OP("e") DO(v[I.a].copy_to(p, dpm::element_aligned); mc.outmem(mc.ar))
		OP("v") DO(v[I.a].copy_to(p, dpm::vector_aligned); mc.outmem(mc.ar))
		OP("o") DO(v[I.a].copy_to(p, OA); mc.outmem(mc.ar))
		OP("me") DO(v[I.a].copy_to(p, m[I.c], dpm::element_aligned); mc.outmem(mc.ar))
		OP("mv") DO(v[I.a].copy_to(p, m[I.c], dpm::vector_aligned); mc.outmem(mc.ar))
		}
	return false;
}
template<class U, class T, class A> NOINL bool mmem_one(Mach<T, A> &mc, const Ins &I, const std::string &form, bool st)
{
	PRE
	U *p = reinterpret_cast<U *>(mc.ar.mem + I.k);
	const U *q = p;
	if (!st)
		switch (H(form.c_str()))
		{
		OP("e") DO(m[I.d].copy_from(q, dpm::element_aligned); mc.outm(m[I.d]))
		OP("c") DO(m[I.d] = M(q, dpm::element_aligned); mc.outm(m[I.d]))
		OP("v") DO(m[I.d].copy_from(q, dpm::vector_aligned); mc.outm(m[I.d]))
		OP("me") DO(m[I.d].copy_from(q, m[I.c], dpm::element_aligned); mc.outm(m[I.d]))
		OP("mc") DO(m[I.d] = M(q, m[I.c], dpm::element_aligned); for (std::size_t i = 0; i < N; ++i) if (!m[I.c][i]) m[I.d][i] = false; mc.outm(m[I.d]))
		OP("mv") DO(m[I.d].copy_from(q, m[I.c], dpm::vector_aligned); mc.outm(m[I.d]))
		}
	else
		switch (H(form.c_str()))
		{
		OP("e") DO(m[I.a].copy_to(p, dpm::element_aligned); mc.outmem(mc.ar))
		OP("v") DO(m[I.a].copy_to(p, dpm::vector_aligned); mc.outmem(mc.ar))
		OP("me") DO(m[I.a].copy_to(p, m[I.c], dpm::element_aligned); mc.outmem(mc.ar))
		OP("mv") DO(m[I.a].copy_to(p, m[I.c], dpm::vector_aligned); mc.outmem(mc.ar))
		}
	return false;
}
template<class T, class A> bool mem_step(Mach<T, A> &mc, const Ins &I)
{
	if (arena_step(mc, I)) return true;
	const auto p1 = I.name.find('.'), p2 = I.name.find('.', p1 + 1);
	if (p2 == std::string::npos) return false;
	const std::string o = I.name.substr(0, p1), u = I.name.substr(p1 + 1, p2 - p1 - 1), f = I.name.substr(p2 + 1);
	if (o == "mld" || o == "mst")
	{
		if (u == "i32") return mmem_one<int>(mc, I, f, o == "mst");
#ifdef F_MEM_SELF
		if (u == "u8") return mmem_one<std::uint8_t>(mc, I, f, o == "mst");
		if (u == "f64") return mmem_one<double>(mc, I, f, o == "mst");
#endif
		return mmem_one<bool>(mc, I, f, o == "mst");
	}
	if (o != "ld" && o != "st") return false;
	const bool st = o == "st";
	switch (H(u.c_str()))
	{
#define MU(n, ty) case H(n): return mem_one<ty>(mc, I, f, st);
#ifndef F_MEM_SELF
	MU("i8", std::int8_t) MU("u16", std::uint16_t) MU("i32", std::int32_t) MU("u64", std::uint64_t) MU("f32", float) MU("f64", double)
#endif
#ifdef F_MEM_ALL
	MU("u8", std::uint8_t) MU("i16", std::int16_t) MU("u32", std::uint32_t) MU("i64", std::int64_t)
#endif
	}
	if (u == tyname<T>::v) return mem_one<T>(mc, I, f, st);
	return false;
}
#endif

#ifdef F_SHUF
#ifndef SHUF_SEED
#define SHUF_SEED 1
#endif
#ifndef SHUF_LISTS
#define SHUF_LISTS 20
#endif
// index list number L for a source of n lanes (mirrored by tools/families.py)
constexpr std::size_t shuf_len(std::size_t L, std::size_t n)
{
	switch (L)
	{
	case 7: return 1; case 8: return n > 1 ? n - 1 : 1; case 9: return n + 1; case 10: return 2; case 11: return 2 * n; case 12: return n / 2 + 1; case 13: return 3;
	case 14: return 4; case 15: return 8; case 16: return n + 3;
	default: return n;
	}
}
constexpr std::size_t shuf_idx(std::size_t L, std::size_t i, std::size_t n)
{
	switch (L)
	{
	case 0: return i;
	case 1: return n - 1 - i;
	case 2: return n - 1;
	case 3: return (i + 1) % n;
	case 4: return i / 2;
	case 5: return i % 2 ? (n / 2 + i / 2) % n : i / 2;
	case 6: return (i + n / 2) % n;
	case 8: return i;
	case 9: return i % n;
	case 11: return i % n;
	case 17: return i == n - 1 ? 0 : i;
	case 18: return i ^ 1 ? (i ^ 1) % n : 0;
	default: {
		std::uint32_t h = 2166136261u;
		for (std::uint32_t x : {static_cast<std::uint32_t>(SHUF_SEED), static_cast<std::uint32_t>(L), static_cast<std::uint32_t>(i), static_cast<std::uint32_t>(n)})
			h = ((h ^ x) * 16777619u) ^ (h >> 15);
		return (h >> 8) % n; }
	}
}
template<std::size_t L, class T, class A, std::size_t... I> auto shuf_v(const dpm::simd<T, A> &x, std::index_sequence<I...>) { return dpm::ext::shuffle<shuf_idx(L, I, dpm::simd<T, A>::size())...>(x); }
template<std::size_t L, class T, class A, std::size_t... I> auto shuf_m(const dpm::simd_mask<T, A> &x, std::index_sequence<I...>) { return dpm::ext::shuffle<shuf_idx(L, I, dpm::simd<T, A>::size())...>(x); }
template<std::size_t L, class T, class A> bool shuf_one(Mach<T, A> &mc, const Ins &I)
{
	PRE
	if (static_cast<std::size_t>(I.k) != L) return false;
	using S = std::make_index_sequence<shuf_len(L, N)>;
	switch (I.op)
	{
	OP("shuf") DO(auto r = shuf_v<L>(v[I.a], S{}); mc.out(r))
	OP("mshuf") DO(auto r = shuf_m<L>(m[I.a], S{}); mc.outm(r))
	// a shuffle of the full length can be put back
	OP("shufd") DO(if constexpr (shuf_len(L, N) == N) { auto r = shuf_v<L>(v[I.a], S{}); v[I.d] = V(r); } else v[I.d] = v[I.a]; mc.out(v[I.d]))
	}
	return false;
}
template<class T, class A, std::size_t... L> bool shuf_any(Mach<T, A> &mc, const Ins &I, std::index_sequence<L...>) { return (shuf_one<L>(mc, I) || ...); }
template<class T, class A> bool shuf_step(Mach<T, A> &mc, const Ins &I)
{
	if (I.name == "sshuf")
	{
		PRE
		const V ca = v[I.a];
		auto r = dpm::ext::shuffle<0, 0, 0, 0>(T(ca[static_cast<std::size_t>(I.k) % N]));
		mc.out(r);
		return true;
	}
	if (I.name[0] != 's' && I.name[0] != 'm') return false;
	return shuf_any(mc, I, std::make_index_sequence<SHUF_LISTS>{});
}
#endif

#ifdef F_CVT
template<class U, class T, class A> NOINL bool cvt_one(Mach<T, A> &mc, const Ins &I, const std::string &form)
{
	PRE
	namespace sa = dpm::simd_abi;
	switch (H(form.c_str()))
	{
	OP("same") DO(dpm::simd<U, A> r(v[I.a]); mc.out(r))
	OP("cast") DO(auto r = static_cast<dpm::simd<U, A>>(v[I.a]); mc.out(r))
	OP("packed") DO(dpm::simd<U, sa::ext::packed_buffer<N>> r(v[I.a]); mc.out(r))
	OP("fixed") DO(dpm::simd<U, sa::fixed_size<N>> r(v[I.a]); mc.out(r))
	OP("a16") DO(dpm::simd<U, sa::ext::aligned_vector<N, 16>> r(v[I.a]); mc.out(r))
	OP("a32") DO(dpm::simd<U, sa::ext::aligned_vector<N, 32>> r(v[I.a]); mc.out(r))
	OP("ssc") DO(auto r = dpm::static_simd_cast<U>(v[I.a]); mc.out(r))
	OP("ssv") DO(auto r = dpm::static_simd_cast<dpm::simd<U, sa::fixed_size<N>>>(v[I.a]); mc.out(r))
	OP("sc") DO(if constexpr (requires { dpm::simd_cast<U>(v[I.a]); }) { auto r = dpm::simd_cast<U>(v[I.a]); mc.out(r); } else { auto r = dpm::static_simd_cast<U>(v[I.a]); mc.out(r); })
	}
	return false;
}
template<class T, class A> bool cvt_step(Mach<T, A> &mc, const Ins &I)
{
	PRE
	namespace sa = dpm::simd_abi;
#define RT(n, ...) OP("mov.rt." n) DO(using W = dpm::simd<T, __VA_ARGS__>; W w = static_cast<W>(v[I.a]); v[I.d] = static_cast<V>(w); mc.out(v[I.d])) \
	OP("mmov.rt." n) DO(using W = dpm::simd_mask<T, __VA_ARGS__>; W w = static_cast<W>(m[I.a]); m[I.d] = static_cast<M>(w); mc.outm(m[I.d]))
	switch (I.op)
	{
	RT("packed", sa::ext::packed_buffer<N>) RT("fixed", sa::fixed_size<N>) RT("a16", sa::ext::aligned_vector<N, 16>) RT("a32", sa::ext::aligned_vector<N, 32>) RT("a64", sa::ext::aligned_vector<N, 64>)
	OP("same.fixed") DO(auto w = dpm::to_fixed_size(v[I.a]); mc.out(w))
	OP("same.native") DO(if constexpr (dpm::native_simd<T>::size() == N) { auto w = dpm::to_native(v[I.a]); mc.out(w); } else mc.out(v[I.a]))
	OP("same.compat") DO(if constexpr (dpm::simd<T>::size() == N) { auto w = dpm::to_compatible(v[I.a]); mc.out(w); } else mc.out(v[I.a]))
	OP("msame.fixed") DO(auto w = dpm::to_fixed_size(m[I.a]); mc.outm(w))
	OP("msame.native") DO(if constexpr (dpm::native_simd<T>::size() == N) { auto w = dpm::to_native(m[I.a]); mc.outm(w); } else mc.outm(m[I.a]))
	OP("msame.compat") DO(if constexpr (dpm::simd<T>::size() == N) { auto w = dpm::to_compatible(m[I.a]); mc.outm(w); } else mc.outm(m[I.a]))
	}
	const auto p1 = I.name.find('.'), p2 = I.name.find('.', p1 + 1);
	if (p2 == std::string::npos || I.name.substr(0, p1) != "cvt") return false;
	const std::string u = I.name.substr(p1 + 1, p2 - p1 - 1), f = I.name.substr(p2 + 1);
	switch (H(u.c_str()))
	{
#define CU(n, ty) case H(n): return cvt_one<ty>(mc, I, f);
	CU("i8", std::int8_t) CU("u16", std::uint16_t) CU("i32", std::int32_t) CU("u64", std::uint64_t) CU("f32", float) CU("f64", double)
	CU("u8", std::uint8_t) CU("i16", std::int16_t) CU("u32", std::uint32_t) CU("i64", std::int64_t)
	}
	return false;
}
#endif

#include "fp.hpp"
#include "mathfn.hpp"
#include "promo.hpp"

template<class T, class A> bool fam_step(Mach<T, A> &mc, const Ins &I)
{
#ifdef F_ARITH
	if (arith_step(mc, I)) return true;
#endif
#ifdef F_BITS
	if (bits_step(mc, I)) return true;
#endif
#ifdef F_CMP
	if (cmp_step(mc, I)) return true;
#endif
#ifdef F_MINMAX
	if (minmax_step(mc, I)) return true;
#endif
#ifdef F_MASK
	if (mask_step(mc, I)) return true;
#endif
#ifdef F_MRED
	if (mred_step(mc, I)) return true;
#endif
#ifdef F_BLEND
	if (blend_step(mc, I)) return true;
#endif
#ifdef F_RED
	if (red_step(mc, I)) return true;
#endif
#ifdef F_ACCESS
	if (access_step(mc, I)) return true;
#endif
#ifdef F_MEM
	if (mem_step(mc, I)) return true;
#endif
#ifdef F_SHUF
	if (shuf_step(mc, I)) return true;
#endif
#ifdef F_CVT
	if (cvt_step(mc, I)) return true;
#endif
#ifdef F_FARITH
	if (farith_step(mc, I)) return true;
#endif
#ifdef F_MANIP
	if (manip_step(mc, I)) return true;
#endif
#ifdef F_FBIN
	if (fbin_step(mc, I)) return true;
#endif
#ifdef F_ROUND
	if (round_step(mc, I)) return true;
#endif
#ifdef F_CLASS
	if (class_step(mc, I)) return true;
#endif
#ifdef F_PROMO
	if (promo_step(mc, I)) return true;
#endif
#ifdef F_MATH
	if (math_step(mc, I)) return true;
#endif
#ifdef F_EXTRA
	if (extra_step(mc, I)) return true;
#endif
	return false;
}

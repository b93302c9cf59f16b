// The operations of fam.hpp that may appear in constant expressions, as a constexpr interpreter:
// the same program tables are executed by the compiler and at run time.
#pragma once
#include <dpm/simd.hpp>
#include <dpm/math.hpp>
#include <algorithm>
#include <array>
#include <bit>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <limits>
using u8 = unsigned char;
constexpr std::uint64_t H(const char *s)
{
	std::uint64_t h = 1469598103934665603ull;
	while (*s) h = (h ^ static_cast<u8>(*s++)) * 1099511628211ull;
	return h;
}
#ifndef SHUF_SEED
#define SHUF_SEED 1
#endif
#ifndef CXOUT
#define CXOUT 24576
#endif
template<class T> struct CIns { std::uint64_t op; int d, a, b, c; long k; int x, y; };   // x, y: index of the first datum, -1: none
struct Out
{
	char s[CXOUT] = {};
	std::size_t n = 0;
	constexpr void ch(char c) { s[n++] = c; }
	constexpr void num(unsigned long x) { char t[24] = {}; int k = 0; do { t[k++] = static_cast<char>('0' + x % 10); x /= 10; } while (x); while (k) ch(t[--k]); }
	template<class E> constexpr void val(E e)
	{
		const char *d = "0123456789abcdef";
		for (u8 b : std::bit_cast<std::array<u8, sizeof(E)>>(e)) { ch(d[b >> 4]); ch(d[b & 15]); }
	}
};
template<std::size_t K, class T, class V> constexpr bool cx_shk(std::uint64_t op, V &d, const V &a)
{
	switch (op)
	{
	case H("shk.lsl.v"): d = dpm::ext::lsl<K>(a); return true;
	case H("shk.lsr.v"): d = dpm::ext::lsr<K>(a); return true;
	}
	if constexpr (std::is_signed_v<T>)
		switch (op)
		{
		case H("shk.asl.v"): d = dpm::ext::asl<K>(a); return true;
		case H("shk.asr.v"): d = dpm::ext::asr<K>(a); return true;
		}
	return false;
}
template<class T> constexpr auto cx_counts()
{
	if constexpr (sizeof(T) == 1) return std::index_sequence<0, 1, 3, 6>{};
	else if constexpr (sizeof(T) == 2) return std::index_sequence<0, 1, 7, 8, 14>{};
	else if constexpr (sizeof(T) == 4) return std::index_sequence<0, 1, 15, 16, 30>{};
	else return std::index_sequence<0, 1, 31, 32, 33, 62>{};
}
// same lists as fam.hpp / vp.shuf_list
constexpr std::size_t cx_len(int L, std::size_t n) { return L == 9 ? n + 1 : L == 14 ? 4 : n; }
constexpr std::size_t cx_idx(int L, std::size_t i, std::size_t n)
{
	switch (L) { case 1: return n - 1 - i; case 3: return (i + 1) % n; case 5: return i % 2 ? (n / 2 + i / 2) % n : i / 2; case 9: return i % n; case 17: return i == n - 1 ? 0 : i; case 18: return (i ^ 1) % n; }
	std::uint32_t h = 2166136261u;
	for (std::uint32_t x : {std::uint32_t(SHUF_SEED), std::uint32_t(L), static_cast<std::uint32_t>(i), static_cast<std::uint32_t>(n)}) h = ((h ^ x) * 16777619u) ^ (h >> 15);
	return (h >> 8) % n;
}
template<int L, class W, std::size_t... I> constexpr auto cx_shuf(const W &w, std::index_sequence<I...>) { return dpm::ext::shuffle<cx_idx(L, I, W::size())...>(w); }

template<class T, class A> struct CMach
{
	using V = dpm::simd<T, A>; using M = dpm::simd_mask<T, A>;
	static constexpr std::size_t N = V::size();
	V v[6] = {};
	M m[5] = {};
	Out *o;
	template<class W> constexpr void out(const W &w)
	{
		using E = typename W::value_type;
		o->ch(' '); o->num(sizeof(E)); o->ch(':');
		for (std::size_t i = 0; i < W::size(); ++i) { E e = w[i]; o->val(e); }
	}
	template<class E> constexpr void outs(E e) { o->ch(' '); o->num(sizeof(E)); o->ch(':'); o->val(e); }
	template<class W> constexpr void outm(const W &w) { o->ch(' '); o->ch('b'); for (std::size_t i = 0; i < W::size(); ++i) { bool b = w[i]; o->ch(b ? '1' : '0'); } }
	constexpr void outi(long x) { o->ch(' '); o->ch('i'); if (x < 0) { o->ch('-'); x = -x; } o->num(static_cast<unsigned long>(x)); }
	constexpr bool step(const CIns<T> &I, const T *D, const u8 *B);
	template<class U> constexpr void cvt(const V &a)
	{
		using W = dpm::rebind_simd_t<U, V>;
		W w = dpm::simd_cast<W>(a); out(w);
	}
};
#define OP(n) case H(n):
#define CX(...) { __VA_ARGS__; return true; }
#define CBIN(nm, op) \
	OP("bin." nm ".v") CX(v[I.d] = v[I.a] op v[I.b]; out(v[I.d])) \
	OP("bin." nm ".s") CX(v[I.d] = v[I.a] op D[I.x]; out(v[I.d])) \
	OP("bin." nm ".vq") CX(v[I.d] op##= v[I.b]; out(v[I.d])) \
	OP("bin." nm ".sq") CX(v[I.d] op##= D[I.x]; out(v[I.d]))
#define CCMP(nm, op) OP("cmp." nm ".v") CX(m[I.d] = v[I.a] op v[I.b]; outm(m[I.d]))
#define CMB(nm, op) OP("mbin." nm ".v") CX(m[I.d] = m[I.a] op m[I.b]; outm(m[I.d]))
#define CMQ(nm, op) OP("mbin." nm ".vq") CX(m[I.d] op m[I.b]; outm(m[I.d]))
template<class T, class A> constexpr bool CMach<T, A>::step(const CIns<T> &I, const T *D, const u8 *B)
{
	const std::size_t k = static_cast<std::size_t>(I.k) % N;
	switch (I.op)
	{
	OP("dumpv") CX(out(v[I.a]))
	OP("dumpm") CX(outm(m[I.a]))
	OP("bc") CX(v[I.d] = V(D[I.x]); out(v[I.d]))
	OP("mov") CX(v[I.d] = v[I.a]; out(v[I.d]))
	OP("mmov") CX(m[I.d] = m[I.a]; outm(m[I.d]))
	OP("mbc") CX(m[I.d] = M(B[I.x] != 0); outm(m[I.d]))
	OP("gen") CX(const T *q = D + I.x; v[I.d] = V([q](auto i) { return q[static_cast<std::size_t>(i)]; }); out(v[I.d]))
	OP("mgen") CX(const u8 *q = B + I.x; m[I.d] = M([q](auto i) { return q[static_cast<std::size_t>(i)] != 0; }); outm(m[I.d]))
	OP("mred.all") CX(outi(dpm::all_of(m[I.a])))
	OP("mred.any") CX(outi(dpm::any_of(m[I.a])))
	OP("mred.none") CX(outi(dpm::none_of(m[I.a])))
	OP("mred.some") CX(outi(dpm::some_of(m[I.a])))
	OP("mred.count") CX(outi(static_cast<long>(dpm::reduce_count(m[I.a]))))
	OP("mred.minidx") CX(if (dpm::any_of(m[I.a])) outi(static_cast<long>(dpm::reduce_min_index(m[I.a]))); else outi(N))
	OP("mred.maxidx") CX(if (dpm::any_of(m[I.a])) outi(static_cast<long>(dpm::reduce_max_index(m[I.a]))); else outi(N))
	OP("same.packed") CX(using W = dpm::simd<T, dpm::simd_abi::ext::packed_buffer<N>>; const W w(v[I.a]); out(w))
	OP("msame.packed") CX(using W = dpm::simd_mask<T, dpm::simd_abi::ext::packed_buffer<N>>; const W w(m[I.a]); outm(w))
	OP("lit") CX(v[I.d].copy_from(D + I.x, dpm::element_aligned); out(v[I.d]))
	OP("lit.-.ctor") CX(v[I.d] = V(D + I.x, dpm::element_aligned); out(v[I.d]))
	OP("mlit") CX(bool b[N] = {}; for (std::size_t i = 0; i < N; ++i) b[i] = B[I.x + i] != 0; m[I.d].copy_from(b, dpm::element_aligned); outm(m[I.d]))
	OP("mlit.-.ctor") CX(bool b[N] = {}; for (std::size_t i = 0; i < N; ++i) b[i] = B[I.x + i] != 0; m[I.d] = M(b, dpm::element_aligned); outm(m[I.d]))
	OP("mldm") CX(bool b[N] = {}; for (std::size_t i = 0; i < N; ++i) b[i] = B[I.x + i] != 0; m[I.d].copy_from(b, m[I.c], dpm::element_aligned); outm(m[I.d]))
	OP("same.store") CX(T b[N] = {}; v[I.a].copy_to(b, dpm::element_aligned); o->ch(' '); o->num(sizeof(T)); o->ch(':'); for (T e : b) o->val(e))
	OP("msame.store") CX(bool b[N] = {}; m[I.a].copy_to(b, dpm::element_aligned); o->ch(' '); o->ch('b'); for (bool e : b) o->ch(e ? '1' : '0'))
	OP("get") CX(const V &c = v[I.a]; outs(static_cast<T>(c[k])))
#ifndef CX_NATIVE
	OP("get.-.ref") CX(T t = v[I.a][k]; outs(t))
	OP("set.asg") CX(v[I.d][k] = D[I.x]; out(v[I.d]))
#endif
	OP("mget") CX(const M &c = m[I.a]; outi(static_cast<bool>(c[k])))
#ifndef CX_NATIVE
	OP("mget.-.ref") CX(outi(static_cast<bool>(m[I.a][k])))
	OP("mset.asg") CX(m[I.d][k] = B[I.x] != 0; outm(m[I.d]))
	OP("mset.and") CX(m[I.d][k] &= B[I.x] != 0; outm(m[I.d]))
	OP("mset.or") CX(m[I.d][k] |= B[I.x] != 0; outm(m[I.d]))
	OP("mset.xor") CX(m[I.d][k] ^= B[I.x] != 0; outm(m[I.d]))
#endif
	CBIN("add", +) CBIN("sub", -) CBIN("mul", *) CBIN("div", /)
	OP("un.neg") CX(v[I.d] = -v[I.a]; out(v[I.d]))
	OP("un.pos") CX(v[I.d] = +v[I.a]; out(v[I.d]))
	OP("inc.inc.pre") CX(V r = ++v[I.d]; out(v[I.d]); out(r))
	OP("inc.dec.pre") CX(V r = --v[I.d]; out(v[I.d]); out(r))
	OP("inc.inc.post") CX(V r = v[I.d]++; out(v[I.d]); out(r))
	OP("inc.dec.post") CX(V r = v[I.d]--; out(v[I.d]); out(r))
	CCMP("eq", ==) CCMP("ne", !=) CCMP("lt", <) CCMP("le", <=) CCMP("gt", >) CCMP("ge", >=)
	OP("lnot") CX(m[I.d] = !v[I.a]; outm(m[I.d]))
	CMB("mand", &) CMB("mor", |) CMB("mxor", ^) CMB("mland", &&) CMB("mlor", ||) CMB("meq", ==) CMB("mne", !=)
	CMQ("mand", &=) CMQ("mor", |=) CMQ("mxor", ^=)
	OP("mun.not") CX(m[I.d] = !m[I.a]; outm(m[I.d]))
	OP("mun.bnot") CX(m[I.d] = ~m[I.a]; outm(m[I.d]))
	OP("mun.neg") CX(m[I.d] = -m[I.a]; outm(m[I.d]))
	OP("mun.pos") CX(m[I.d] = +m[I.a]; outm(m[I.d]))
	OP("blend") CX(v[I.d] = dpm::blend(m[I.c], v[I.a], v[I.b]); out(v[I.d]))
	OP("mblend") CX(m[I.d] = dpm::blend(m[I.c], m[I.a], m[I.b]); outm(m[I.d]))
	OP("bin.min.v") CX(v[I.d] = dpm::min(v[I.a], v[I.b]); out(v[I.d]))
	OP("bin.max.v") CX(v[I.d] = dpm::max(v[I.a], v[I.b]); out(v[I.d]))
	OP("bin.min.s") CX(v[I.d] = dpm::min(v[I.a], D[I.x]); out(v[I.d]))
	OP("bin.max.s") CX(v[I.d] = dpm::max(v[I.a], D[I.x]); out(v[I.d]))
	OP("minmax.-.v") CX(auto r = dpm::minmax(v[I.a], v[I.b]); v[I.d] = r.first; v[I.c] = r.second; out(v[I.d]); out(v[I.c]))
	OP("minmax.-.s") CX(auto r = dpm::minmax(v[I.a], D[I.x]); v[I.d] = r.first; v[I.c] = r.second; out(v[I.d]); out(v[I.c]))
	OP("clamp.-.v") CX(v[I.d] = dpm::clamp(v[I.a], v[I.b], v[I.c]); out(v[I.d]))
	OP("clamp.-.s") CX(v[I.d] = dpm::clamp(v[I.a], D[I.x], D[I.y]); out(v[I.d]))
	OP("red.add") CX(outs(dpm::reduce(v[I.a])))
	OP("red.add.op") CX(outs(dpm::reduce(v[I.a], std::plus<>{})))
	OP("red.add.h") CX(outs(dpm::ext::hadd(v[I.a])))
	OP("red.mul.op") CX(outs(dpm::reduce(v[I.a], std::multiplies<>{})))
	OP("red.mul.h") CX(outs(dpm::ext::hmul(v[I.a])))
	OP("red.min.h") CX(outs(dpm::reduce_min(v[I.a])))
	OP("red.max.h") CX(outs(dpm::reduce_max(v[I.a])))
	OP("cvt.i8.cast") CX(cvt<std::int8_t>(v[I.a]))
	OP("cvt.u16.cast") CX(cvt<std::uint16_t>(v[I.a]))
	OP("cvt.i32.cast") CX(cvt<std::int32_t>(v[I.a]))
	OP("cvt.u64.cast") CX(cvt<std::uint64_t>(v[I.a]))
	OP("cvt.f32.cast") CX(cvt<float>(v[I.a]))
	OP("cvt.f64.cast") CX(cvt<double>(v[I.a]))
	OP("mov.rt.packed") CX(if constexpr (N == 1 && !std::is_same_v<A, dpm::simd_abi::ext::packed_buffer<1>>) { dpm::simd<T, dpm::simd_abi::ext::packed_buffer<1>> w(v[I.a]); v[I.d] = V(w); } else v[I.d] = v[I.a]; out(v[I.d]))
	OP("mmov.rt.packed") CX(if constexpr (N == 1 && !std::is_same_v<A, dpm::simd_abi::ext::packed_buffer<1>>) { dpm::simd_mask<T, dpm::simd_abi::ext::packed_buffer<1>> w(m[I.a]); m[I.d] = M(w); } else m[I.d] = m[I.a]; outm(m[I.d]))
	}
	bool ok = false;
	auto sh = [&]<int L>(std::integral_constant<int, L>)
	{
		if (I.k != L) return;
		using S = std::make_index_sequence<cx_len(L, N)>;
		if (I.op == H("shuf")) { out(cx_shuf<L>(v[I.a], S{})); ok = true; }
		if (I.op == H("mshuf")) { outm(cx_shuf<L>(m[I.a], S{})); ok = true; }
		if constexpr (cx_len(L, N) == N) if (I.op == H("shufd")) { v[I.d] = cx_shuf<L>(v[I.a], S{}); out(v[I.d]); ok = true; }
	};
	[&]<int... L>(std::integer_sequence<int, L...>) { (sh(std::integral_constant<int, L>{}), ...); }(std::integer_sequence<int, 1, 3, 5, 9, 14, 17, 18>{});
	if (ok) return true;
	if constexpr (std::is_integral_v<T>)
	{
		switch (I.op)
		{
		CBIN("mod", %) CBIN("and", &) CBIN("or", |) CBIN("xor", ^)
		OP("bin.shl.v") CX(v[I.d] = v[I.a] << v[I.b]; out(v[I.d]))
		OP("bin.shr.v") CX(v[I.d] = v[I.a] >> v[I.b]; out(v[I.d]))
		OP("bin.shl.vq") CX(v[I.d] <<= v[I.b]; out(v[I.d]))
		OP("bin.shr.vq") CX(v[I.d] >>= v[I.b]; out(v[I.d]))
		OP("shk.shli.v") CX(v[I.d] = v[I.a] << static_cast<int>(I.k); out(v[I.d]))
		OP("shk.shri.v") CX(v[I.d] = v[I.a] >> static_cast<int>(I.k); out(v[I.d]))
		OP("shk.shli.vq") CX(v[I.d] <<= static_cast<int>(I.k); out(v[I.d]))
		OP("shk.shri.vq") CX(v[I.d] >>= static_cast<int>(I.k); out(v[I.d]))
		OP("un.not") CX(v[I.d] = ~v[I.a]; out(v[I.d]))
		OP("red.and.op") CX(outs(dpm::reduce(v[I.a], std::bit_and<>{})))
		OP("red.or.h") CX(outs(dpm::ext::hor(v[I.a])))
		OP("red.xor.h") CX(outs(dpm::ext::hxor(v[I.a])))
		}
		[&]<std::size_t... K>(std::index_sequence<K...>) { ((ok = ok || (I.k == static_cast<long>(K) && cx_shk<K, T>(I.op, v[I.d], v[I.a]))), ...); }(cx_counts<T>());
		if (ok) { out(v[I.d]); return true; }
	}
	return false;
}
template<class T, class A> constexpr Out cx_run(const CIns<T> *p, std::size_t n, const T *D, const u8 *B)
{
	Out o;
	CMach<T, A> mc;
	mc.o = &o;
	for (std::size_t i = 0; i < n; ++i)
	{
		o.num(i);
		if (!mc.step(p[i], D, B)) { o.ch(' '); o.ch('?'); }
		o.ch('\n');
	}
	return o;
}
inline void cx_put(const char *id, const char *t, const char *abi, std::size_t n, const Out &o)
{
	std::printf("T %s %s %s %zu\n", id, t, abi, n);
	std::fwrite(o.s, 1, o.n, stdout);
	std::printf("E\n");
}

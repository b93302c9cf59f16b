// Program interpreter over real dpm values: executes scripted programs on a register file of
// simd / simd_mask objects and records every outcome (see spec/VecMachine.tla for the meaning).
#pragma once
#include <dpm/simd.hpp>
#include <dpm/math.hpp>
#include <algorithm>
#include <cfenv>
#include <climits>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <new>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>
#include <immintrin.h>

using u8 = std::uint8_t;
struct Ins
{
	std::uint64_t op;
	std::string name;
	int d, a, b, c;
	long k;
	std::vector<u8> x, y;
};
struct Prog { std::string id, type; std::vector<Ins> ins; };

constexpr std::uint64_t H(const char *s)
{
	std::uint64_t h = 1469598103934665603ull;
	while (*s) h = (h ^ static_cast<u8>(*s++)) * 1099511628211ull;
	return h;
}
extern FILE *g_out;
extern sigjmp_buf g_jmp;
extern volatile int g_armed;
inline void put_hex(const void *p, std::size_t n)
{
	static const char *d = "0123456789abcdef";
	static char buf[1 << 16];
	auto *q = static_cast<const u8 *>(p);
	std::size_t j = 0;
	for (std::size_t i = 0; i < n && j + 2 < sizeof(buf); ++i) { buf[j++] = d[q[i] >> 4]; buf[j++] = d[q[i] & 15]; }
	fwrite(buf, 1, j, g_out);
}
#define NOINL __attribute__((noinline))
template<class T> struct tyname;
#define TN(t, n) template<> struct tyname<t> { static constexpr const char *v = n; };
TN(std::int8_t, "i8") TN(std::uint8_t, "u8") TN(std::int16_t, "i16") TN(std::uint16_t, "u16") TN(std::int32_t, "i32") TN(std::uint32_t, "u32")
TN(char, "i8") TN(char8_t, "u8") TN(char16_t, "u16") TN(wchar_t, "i32") TN(char32_t, "u32") TN(long long, "i64") TN(unsigned long long, "u64")
TN(std::int64_t, "i64") TN(std::uint64_t, "u64") TN(float, "f32") TN(double, "f64")

// memory arena: PROT_NONE | len bytes ... | PROT_NONE, object placed at either end
struct Arena
{
	u8 *base = nullptr; std::size_t pages = 2; std::size_t pg = 4096;
	u8 *mem = nullptr; std::size_t len = 0;
	void init()
	{
		if (base) return;
		base = static_cast<u8 *>(mmap(nullptr, (pages + 2) * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		mprotect(base + pg, pages * pg, PROT_READ | PROT_WRITE);
	}
	// where: 0 = ends at the upper guard, 1 = starts at the lower guard, 2 = middle (64-aligned)
	void set(const std::vector<u8> &x, int where)
	{
		init();
		mprotect(base + pg, pages * pg, PROT_READ | PROT_WRITE);
		std::memset(base + pg, 0x5a, pages * pg);
		len = x.size();
		mem = where == 0 ? base + pg + pages * pg - len : where == 1 ? base + pg : base + pg + pg / 2;
		std::memcpy(mem, x.data(), len);
	}
	// bytes of the arena outside [mem, mem+len) must keep the fill value
	bool outside_ok() const
	{
		for (u8 *p = base + pg; p < base + pg + pages * pg; ++p)
			if ((p < mem || p >= mem + len) && *p != 0x5a) return false;
		return true;
	}
};

template<class T, class A>
struct Mach
{
	using V = dpm::simd<T, A>;
	using M = dpm::simd_mask<T, A>;
	using VI = dpm::simd<int, A>;
	using VL = dpm::simd<long, A>;
	static constexpr std::size_t N = V::size();
	V v[6];
	M m[5];
	Arena ar;

	static T sc(const std::vector<u8> &x, std::size_t i = 0)
	{
		T t;
		std::memcpy(&t, x.data() + i * sizeof(T), sizeof(T));
		return t;
	}
	template<class W> static void out(const W &w)
	{
		using E = typename W::value_type;
		E buf[W::size()];
		for (std::size_t i = 0; i < W::size(); ++i) buf[i] = E{};
		w.copy_to(buf, dpm::element_aligned);
		outp(buf, sizeof(E), W::size());
	}
	static void outp(const void *p, std::size_t s, std::size_t n) { fprintf(g_out, " %zu:", s); put_hex(p, s * n); }
	template<class E> static void outs(E t) { outp(&t, sizeof(E), 1); }
	template<class W> static void outm(const W &w)
	{
		bool buf[W::size()];
		for (auto &b : buf) b = false;
		w.copy_to(buf, dpm::element_aligned);
		fputc(' ', g_out);
		fputc('b', g_out);
		for (bool b : buf) fputc(b ? '1' : '0', g_out);
	}
	static void outi(long x) { fprintf(g_out, " i%ld", x); }
	static void outmem(const Arena &a)
	{
		fputc(' ', g_out);
		fputc(a.outside_ok() ? 'm' : 'x', g_out);
		put_hex(a.mem, a.len);
	}
	void fence() { asm volatile("" : : "r"(this) : "memory"); }
	bool step(const Ins &I);
};
#define OP(n) case H(n):
#define DO(...) { auto fn = [&]() NOINL { __VA_ARGS__; }; fence(); fn(); fence(); return true; }

template<class T, class A>
bool base_step(Mach<T, A> &mc, const Ins &I)
{
	using MC = Mach<T, A>;
	using V = typename MC::V; using M = typename MC::M;
	auto &v = mc.v; auto &m = mc.m;
	auto fence = [&] { mc.fence(); };
	switch (I.op)
	{
	OP("lit") DO(v[I.d].copy_from(reinterpret_cast<const T *>(I.x.data()), dpm::element_aligned); mc.out(v[I.d]))
	OP("mov") DO(v[I.d] = v[I.a]; mc.out(v[I.d]))
	OP("bc") DO(v[I.d] = V(mc.sc(I.x)); mc.out(v[I.d]))
	OP("dumpv") DO(mc.out(v[I.a]))
	OP("dumpm") DO(mc.outm(m[I.a]))
	OP("mlit") DO(m[I.d].copy_from(reinterpret_cast<const bool *>(I.x.data()), dpm::element_aligned); mc.outm(m[I.d]))
	OP("mmov") DO(m[I.d] = m[I.a]; mc.outm(m[I.d]))
	OP("mbc") DO(m[I.d] = M(I.x[0] != 0); mc.outm(m[I.d]))
	}
	return false;
}
// families provide: template<class T,class A> bool fam_step(Mach<T,A>&, const Ins&)
using runner_t = void (*)(const Prog &);
struct Entry { const char *type; const char *abi; std::size_t n; runner_t run; };
std::vector<Entry> &entries();
template<class T, class A> bool fam_step(Mach<T, A> &mc, const Ins &I);

// the floating-point environment: rounding modes are numbered as in MXCSR
inline const int g_modes[4] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
inline const int g_flags[5] = {FE_INVALID, FE_DIVBYZERO, FE_OVERFLOW, FE_UNDERFLOW, FE_INEXACT};
inline unsigned mxcsr() { unsigned r; asm volatile("stmxcsr %0" : "=m"(r) : : "memory"); return r; }
inline unsigned x87cw() { unsigned short r; asm volatile("fnstcw %0" : "=m"(r) : : "memory"); return r; }
inline bool env_step(const Ins &I)
{
	switch (I.op)
	{
	OP("env.rm.ne") fesetround(FE_TONEAREST); return true;
	OP("env.rm.u") fesetround(FE_UPWARD); return true;
	OP("env.rm.d") fesetround(FE_DOWNWARD); return true;
	OP("env.rm.z") fesetround(FE_TOWARDZERO); return true;
	OP("env.raise") for (int j = 0; j < 5; ++j) if (I.k >> j & 1) { fexcept_t f = g_flags[j]; fesetexceptflag(&f, g_flags[j]); } return true;
	OP("env.clear") feclearexcept(FE_ALL_EXCEPT); return true;
	}
	return false;
}
// mode, control bits as at the start, raised flags
inline void env_out(unsigned cs0, unsigned cw0)
{
	unsigned cs = mxcsr(), cw = x87cw();
	bool same = ((cs ^ cs0) & 0x9fc0) == 0 && ((cw ^ cw0) & ~0xc00u) == 0 && (cs >> 13 & 3) == (cw >> 10 & 3);
	fprintf(g_out, " e%u%d", cs >> 13 & 3, same);
	int fl = fetestexcept(FE_ALL_EXCEPT);
	for (int f : g_flags) fputc(fl & f ? '1' : '0', g_out);
}
template<class T, class A>
void run_prog(const Prog &p)
{
	using MC = Mach<T, A>;
	alignas(64) static unsigned char store[sizeof(MC) + 64];
	static Arena arena;
	// storage (and thus padding lanes) starts with junk that depends on the program
	u8 junk = static_cast<u8>((H(p.id.c_str()) % 3) * 0x7f + 1);
	std::memset(store, junk, sizeof(store));
	MC &mc = *reinterpret_cast<MC *>(store);
	new(&mc.ar) Arena(arena);
	bool env = false;
	for (auto &I : p.ins) env |= I.name.compare(0, 4, "env.") == 0;
	fesetenv(FE_DFL_ENV);
	unsigned cs0 = mxcsr(), cw0 = x87cw();
	for (std::size_t i = 0; i < p.ins.size(); ++i)
	{
		const Ins &I = p.ins[i];
		fprintf(g_out, "%zu", i);
		if (sigsetjmp(g_jmp, 1) == 0)
		{
			g_armed = 1;
			bool ok = (env && env_step(I)) || base_step(mc, I) || fam_step(mc, I);
			if (env) env_out(cs0, cw0);
			g_armed = 0;
			if (!ok) fprintf(g_out, " ?");
		}
		else
		{
			fprintf(g_out, " !\n");
			break;
		}
		fputc('\n', g_out);
	}
	fesetenv(FE_DFL_ENV);
	arena = mc.ar;
}
template<class T, class A> struct Reg
{
	explicit Reg(const char *abi) { entries().push_back({tyname<T>::v, abi, dpm::simd<T, A>::size(), &run_prog<T, A>}); }
};

// A virtual processor under the library's feature detection: the cpuid and xgetbv instructions of the compiled
// detail/x86/cpuid.cpp are calls into the handlers below, /proc/cpuinfo is a scratch file.  One process = one processor,
// described by VP_CPU = "vendor max l1c l1d l7b sub junk xcr0" (registers in hex) or "real".  The questions asked
// and the resulting report are printed as ndJson for CpuTrace.tla.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <fcntl.h>
#include <unistd.h>
#include <dlfcn.h>
#include <cpuid.h>
#include <dpm/detail/x86/cpuid.hpp>

static char g_log[1 << 16];
static unsigned g_len;
static void put(const char *fmt, ...)
{
	va_list a; va_start(a, fmt);
	g_len += static_cast<unsigned>(vsnprintf(g_log + g_len, sizeof(g_log) - g_len, fmt, a));
	va_end(a);
}
static void bits(std::uint32_t v)
{
	put("[");
	for (int i = 0, f = 1; i < 32; ++i) if (v >> i & 1) { put(f ? "%d" : ",%d", i); f = 0; }
	put("]");
}
struct proc { char vendor[13]; std::uint32_t max, l1c, l1d, l7b, sub, junk, xcr0; bool real; };
static proc &cpu()
{
	static proc p;
	static bool init;
	if (!init)
	{
		init = true;
		const char *s = getenv("VP_CPU");
		if (!s || !strcmp(s, "real")) p.real = true;
		else if (sscanf(s, "%12s %x %x %x %x %x %x %x", p.vendor, &p.max, &p.l1c, &p.l1d, &p.l7b, &p.sub, &p.junk, &p.xcr0) != 8) _exit(99);
	}
	return p;
}
static void flush() { fwrite(g_log, 1, g_len, stdout); fflush(stdout); }
static void ask(std::uint32_t leaf, std::uint32_t sub, std::uint32_t r[4])
{
	auto &p = cpu();
	if (p.real) { __cpuid_count(leaf, sub, r[0], r[1], r[2], r[3]); return; }
	r[0] = r[1] = r[2] = r[3] = p.junk;
	if (leaf == 0)
	{
		r[0] = p.max;
		memcpy(&r[1], p.vendor, 4); memcpy(&r[3], p.vendor + 4, 4); memcpy(&r[2], p.vendor + 8, 4);
	}
	else if (leaf <= p.max)
	{
		if (leaf == 1) { r[2] = p.l1c; r[3] = p.l1d; }
		if (leaf == 7) r[1] = sub == 0 ? p.l7b : p.sub;
	}
}
extern "C" void vp_cpuid_handler(std::uint64_t *s) // rax rbx rcx rdx
{
	std::uint32_t r[4];
	const std::uint32_t leaf = static_cast<std::uint32_t>(s[0]), sub = static_cast<std::uint32_t>(s[2]);
	ask(leaf, sub, r);
	put("{\"ev\":\"cpuid\",\"leaf\":%u,\"sub\":%d,\"b\":", leaf & 0x7fffffffu, sub == 0 ? 0 : 1);
	bits(r[1]); put(",\"c\":"); bits(r[2]); put(",\"d\":"); bits(r[3]); put("}\n");
	for (int i = 0; i < 4; ++i) s[i] = r[i];
}
extern "C" void vp_xgetbv_handler(std::uint64_t *s)
{
	auto &p = cpu();
	std::uint32_t v = p.xcr0;
	if (p.real) { std::uint32_t d; __asm volatile("xgetbv" : "=a"(v), "=d"(d) : "c"(0)); }
	put("{\"ev\":\"xgetbv\",\"index\":%d,\"bits\":", static_cast<std::uint32_t>(s[2]) ? 1 : 0); bits(v); put("}\n");
	if (!p.real && !(p.max >= 1 && p.l1c >> 27 & 1)) { put("{\"ev\":\"fault\"}\n"); flush(); _exit(0); } // #UD
	s[0] = v; s[3] = 0;
}
// /proc/cpuinfo of the virtual machine
template<typename F> static F next(const char *n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
static const char *redirect(const char *p)
{
	const char *f = getenv("VP_CPUINFO");
	return p && f && !strcmp(p, "/proc/cpuinfo") ? f : p;
}
extern "C" int open(const char *p, int fl, ...)
{ va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return next<int(*)(const char *, int, ...)>("open")(redirect(p), fl, m); }
extern "C" int open64(const char *p, int fl, ...)
{ va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return next<int(*)(const char *, int, ...)>("open64")(redirect(p), fl, m); }
extern "C" FILE *fopen(const char *p, const char *m) { return next<FILE *(*)(const char *, const char *)>("fopen")(redirect(p), m); }
extern "C" FILE *fopen64(const char *p, const char *m) { return next<FILE *(*)(const char *, const char *)>("fopen64")(redirect(p), m); }

int main()
{
#ifdef DPM_INLINE_EXTENSIONS
	using dpm::cpuid;
#else
	using dpm::ext::cpuid;
#endif
	if (cpu().real)
	{   // what the processor itself says
		std::uint32_t r0[4], r1[4] = {}, r7[4] = {};
		ask(0, 0, r0); if (r0[0] >= 1) ask(1, 0, r1); if (r0[0] >= 7) ask(7, 0, r7);
		char v[13] = {}; memcpy(v, &r0[1], 4); memcpy(v + 4, &r0[3], 4); memcpy(v + 8, &r0[2], 4);
		std::uint32_t x = 0, d; if (r1[2] >> 27 & 1) __asm volatile("xgetbv" : "=a"(x), "=d"(d) : "c"(0));
		put("{\"ev\":\"self\",\"vendor\":\"%s\",\"max\":%u,\"l1c\":", v, r0[0] & 0xffff); bits(r1[2]); put(",\"l1d\":"); bits(r1[3]);
		put(",\"l7b\":"); bits(r7[1]); put(",\"xcr0\":"); bits(x); put("}\n");
	}
	put("{\"ev\":\"report\",\"has\":[");
	int f = 1;
	auto q = [&](const char *n, bool b) { if (b) { put(f ? "\"%s\"" : ",\"%s\"", n); f = 0; } };
#define Q(n) q(#n, cpuid::n())
	Q(is_intel); Q(is_amd); Q(has_msr); Q(has_cx8); Q(has_sep); Q(has_cmov); Q(has_clfsh); Q(has_xsave); Q(has_f16c); Q(has_cmpxchg16b);
	Q(has_sse); Q(has_sse2); Q(has_sse3); Q(has_ssse3); Q(has_sse4_1); Q(has_sse4_2); Q(has_avx); Q(has_avx2); Q(has_fma);
	Q(has_avx512f); Q(has_avx512cd); Q(has_avx512bw); Q(has_avx512dq); Q(has_avx512vl);
	put("]}\n");
	flush();
	_exit(0);
}

// Compile-time ABI queries of one element type, one JSON object per line.
#include <dpm/simd.hpp>
#include <cstdio>
#include <cstdint>
#include <complex>
using namespace dpm;
using T = TRAIT_T;
template<std::size_t N, std::size_t A> using av = simd_abi::ext::aligned_vector<N, A>;
template<class A> struct tag;
template<> struct tag<simd_abi::scalar> { static constexpr int n = 1, a = -2; };
template<std::size_t N, std::size_t A> struct tag<av<N, A>> { static constexpr int n = N, a = A == SIZE_MAX ? -1 : int(A); };
template<class A> void ptag() { std::printf("{\"n\":%d,\"a\":%d}", tag<A>::n, tag<A>::a); }
template<class A> void comma() { std::printf(","); ptag<A>(); }
template<class F, class... As> void plist() { ptag<F>(); (comma<As>(), ...); }
template<class... As> void list() { std::printf("["); if constexpr (sizeof...(As) != 0) plist<As...>(); std::printf("]"); }
template<class U> constexpr char kind() { return std::is_floating_point_v<U> ? 'f' : std::is_same_v<U, bool> ? 'b' : std::is_signed_v<U> ? 'i' : 'u'; }
template<class U> void el(const char *k) { std::printf("\"%s\":{\"k\":\"%c\",\"s\":%d}", k, kind<U>(), int(sizeof(U))); }
template<class V> struct abi_of; template<class U, class A> struct abi_of<simd<U, A>> { using type = A; using val = U; };
template<class U, class A> struct abi_of<simd_mask<U, A>> { using type = A; using val = U; };
#define B(x) int(x)
template<class V> void vec_(const char *what)
{
	using M = typename V::mask_type; using A = typename V::abi_type;
	std::printf("{\"q\":\"vec\",\"what\":\"%s\",", what); el<typename V::value_type>("t"); std::printf(",\"tag\":"); ptag<typename abi_of<V>::type>();
	std::printf(",\"n\":%d,\"mn\":%d,\"size\":%d,\"align\":%d,\"msize\":%d,\"malign\":%d,\"ta\":%d", int(V::size()), int(M::size()), int(sizeof(V)), int(alignof(V)), int(sizeof(M)), int(alignof(M)), int(alignof(typename V::value_type)));
	std::printf(",\"szv\":%d", int(simd_size_v<typename V::value_type, A>));
	std::printf(",\"ma\":%d,\"mma\":%d", int(memory_alignment_v<V>), int(memory_alignment_v<M>));
	std::printf(",\"mau\":[{\"a\":%d,\"ma\":%d},{\"a\":%d,\"ma\":%d},{\"a\":%d,\"ma\":%d},{\"a\":%d,\"ma\":%d}]", int(alignof(char)), int(memory_alignment_v<V, signed char>), int(alignof(short)), int(memory_alignment_v<V, short>), int(alignof(float)), int(memory_alignment_v<V, float>), int(alignof(double)), int(memory_alignment_v<V, double>));
	std::printf(",\"nds\":%d,\"ndt\":%d,\"mnds\":%d,\"mndt\":%d", int(ext::native_data_size_v<V>), int(sizeof(ext::native_data_type_t<V>)), int(ext::native_data_size_v<M>), int(sizeof(ext::native_data_type_t<M>)));
	std::printf(",\"same\":[%d,%d,%d,%d,%d,%d]", B((std::is_same_v<typename V::abi_type, typename abi_of<V>::type>)), B((std::is_same_v<typename V::value_type, typename abi_of<V>::val>)),
		B((std::is_same_v<typename M::value_type, bool>)), B((std::is_same_v<typename M::simd_type, V>)), B((std::is_same_v<typename M::abi_type, A>)), B((std::is_same_v<typename abi_of<M>::val, typename V::value_type>)));
	std::printf(",\"is\":[%d,%d,%d,%d,%d,%d,%d,%d,%d,%d]", B(is_simd_v<V>), B(is_simd_mask_v<M>), B(is_abi_tag_v<A>), B(std::is_trivially_copyable_v<V>), B(std::is_default_constructible_v<V>), B(std::is_default_constructible_v<M>),
		B(std::is_copy_constructible_v<V>), B(std::is_copy_assignable_v<M>), B((std::is_constructible_v<V, typename V::value_type>)), B((std::is_constructible_v<M, bool>)));
	std::printf(",\"isnot\":[%d,%d,%d,%d,%d,%d,%d,%d]}\n", B(is_simd_v<M>), B(is_simd_mask_v<V>), B(is_abi_tag_v<V>), B(is_abi_tag_v<M>), B(is_simd_flag_type_v<V>), B(is_simd_flag_type_v<A>), B((std::is_convertible_v<bool, V> && !std::is_same_v<typename V::value_type, bool> && !std::is_convertible_v<bool, typename V::value_type>)), B((std::is_convertible_v<V, M>)));
}
template<class V> void vec(const char *w) { vec_<V>(w); }
template<std::size_t N> void sizes()
{
	vec<simd<T, av<N, 0>>>("av"); vec<simd<T, av<N, 16>>>("av"); vec<simd<T, av<N, 32>>>("av"); vec<simd<T, av<N, 64>>>("av"); vec<simd<T, av<N, SIZE_MAX>>>("av");
	vec<simd<T, simd_abi::deduce_t<T, N>>>("ded"); vec<fixed_size_simd<T, N>>("fix");
}
template<std::size_t N> void more() { vec<simd<T, av<N, 0>>>("av"); vec<simd<T, av<N, 16>>>("av"); vec<simd<T, av<N, 32>>>("av"); vec<simd<T, av<N, SIZE_MAX>>>("av"); }
template<std::size_t N, class... H> void ded()
{
	std::printf("{\"q\":\"ded\","); el<T>("t"); std::printf(",\"n\":%d,\"hints\":", int(N)); list<H...>(); std::printf(",\"r\":");
	ptag<simd_abi::deduce_t<T, N, H...>>(); std::printf(",\"rn\":%d}\n", int(simd<T, simd_abi::deduce_t<T, N, H...>>::size()));
}
template<class... H> void com()
{
	std::printf("{\"q\":\"com\","); el<T>("t"); std::printf(",\"n\":0,\"hints\":"); list<H...>(); std::printf(",\"r\":"); ptag<simd_abi::ext::common_t<H...>>(); std::printf("}\n");
}
template<std::size_t N> void deds()
{
	using S = simd_abi::scalar;
	ded<N>(); ded<N, S>(); ded<N, av<N, 16>>(); ded<N, av<N, 32>>(); ded<N, av<N, SIZE_MAX>>(); ded<N, av<N + 1, 16>>(); ded<N, av<2 * N, 32>>(); ded<N, av<2 * N, SIZE_MAX>>();
	ded<N, S, av<N, 16>>(); ded<N, av<N, 16>, S>(); ded<N, av<N, 0>, av<N, 32>>(); ded<N, av<N + 3, 16>, av<N, 32>>(); ded<N, av<N + 3, 16>, av<N, SIZE_MAX>, av<N, 0>>();
	ded<N, av<1, 16>, av<N, 32>, S>(); ded<N, av<N + 1, 0>, av<N + 2, 16>>(); ded<N, S, S>(); ded<N, S, av<2 * N, 16>>(); ded<N, av<N + 1, 32>, S>();
}
template<class W> void reb1(const char *what, const char *op, int arg)
{
	using A = typename abi_of<W>::type;
	std::printf("{\"q\":\"%s\",\"what\":\"%s\",", op, what); el<typename abi_of<W>::val>("t"); std::printf(",\"n\":%d,\"r\":", arg); ptag<A>();
	std::printf(",\"rn\":%d,\"isv\":%d,\"ism\":%d", int(W::size()), B(is_simd_v<W>), B(is_simd_mask_v<W>));
}
template<class V, class U> void reb()
{
	using R = rebind_simd_t<U, V>; using RM = rebind_simd_t<U, typename V::mask_type>;
	reb1<R>("v", "reb", int(V::size())); std::printf(",\"from\":"); ptag<typename V::abi_type>(); std::printf(","); el<U>("u"); std::printf("}\n");
	reb1<RM>("m", "reb", int(V::size())); std::printf(",\"from\":"); ptag<typename V::abi_type>(); std::printf(","); el<U>("u"); std::printf("}\n");
}
template<class V, std::size_t N> void rsz()
{
	using R = resize_simd_t<N, V>; using RM = resize_simd_t<N, typename V::mask_type>;
	reb1<R>("v", "rsz", int(N)); std::printf(",\"from\":"); ptag<typename V::abi_type>(); std::printf(","); el<typename V::value_type>("u"); std::printf("}\n");
	reb1<RM>("m", "rsz", int(N)); std::printf(",\"from\":"); ptag<typename V::abi_type>(); std::printf(","); el<typename V::value_type>("u"); std::printf("}\n");
}
template<class A> void rebs()
{
	using V = simd<T, A>;
	reb<V, std::int8_t>(); reb<V, std::uint16_t>(); reb<V, float>(); reb<V, double>(); reb<V, std::int64_t>(); reb<V, T>();
	rsz<V, 1>(); rsz<V, 2>(); rsz<V, 3>(); rsz<V, 8>(); rsz<V, 17>(); rsz<V, V::size()>();
}
template<class A> void sel(const char *w) { std::printf("{\"q\":\"sel\",\"what\":\"%s\",", w); el<T>("t"); std::printf(",\"n\":0,\"r\":"); ptag<A>(); std::printf(",\"dn\":%d}\n", int(simd_size_v<T>)); }
struct Own : simd_abi::scalar {};
template<class... Ts> void nothing() { (std::printf("{\"q\":\"not\",\"n\":0,\"isnot\":[%d,%d,%d,%d]}\n", B(is_simd_v<Ts>), B(is_simd_mask_v<Ts>), B(is_abi_tag_v<Ts>), B(is_simd_flag_type_v<Ts>)), ...); }
template<class... Ts> void flags() { (std::printf("{\"q\":\"flag\",\"n\":0,\"is\":[%d],\"isnot\":[%d,%d,%d]}\n", B(is_simd_flag_type_v<Ts>), B(is_simd_v<Ts>), B(is_simd_mask_v<Ts>), B(is_abi_tag_v<Ts>)), ...); }
template<std::size_t... I> void all(std::index_sequence<I...>) { (sizes<I + 1>(), ...); (deds<I + 1>(), ...); }
template<class U> void regs()
{
	if constexpr (sizeof(U) <= 8)
	{
		vec<simd<U, simd_abi::ext::sse<U>>>("sse");
#ifdef DPM_HAS_AVX
		vec<simd<U, simd_abi::ext::avx<U>>>("avx");
#endif
	}
}
int main()
{
	using S = simd_abi::scalar;
	all(std::make_index_sequence<32>());
	more<33>(); more<40>(); more<64>();
	vec<simd<T, S>>("scalar"); vec<simd<T>>("dflt"); vec<native_simd<T>>("nat"); vec<simd<T, simd_abi::compatible<T>>>("compat");
	regs<T>();
#ifdef TRAIT_EXTRA
#include TRAIT_EXTRA
#endif
	sel<simd_abi::native<T>>("native"); sel<simd_abi::compatible<T>>("compat");
	com<S>(); com<S, S>(); com<S, S, S>(); com<av<4, 0>>(); com<av<4, 16>, av<4, 16>>(); com<av<4, 16>, av<4, 32>>(); com<av<4, 32>, av<4, 16>>(); com<av<8, 16>, av<4, 32>>(); com<av<4, 32>, av<8, 16>>();
	com<S, av<4, 16>>(); com<av<4, 16>, S>(); com<S, av<4, 0>, S, av<7, 16>>(); com<av<3, 0>, av<5, 0>, av<2, 64>>(); com<av<5, 64>, av<9, 0>, av<2, 16>, av<9, 32>>(); com<S, S, av<1, 0>>(); com<av<1, 0>, S>(); com<av<2, 16>, av<2, 16>, av<2, 32>>();
	rebs<av<4, 0>>(); rebs<av<4, 16>>(); rebs<av<4, 32>>(); rebs<av<4, SIZE_MAX>>(); rebs<S>(); rebs<simd_abi::native<T>>(); rebs<simd_abi::compatible<T>>(); rebs<av<16, 16>>(); rebs<av<7, 32>>();
	nothing<int, T, void, T *, T[4], std::complex<float>, std::array<T, 4>, Own, const int>();
	flags<element_aligned_tag, vector_aligned_tag, overaligned_tag<1>, overaligned_tag<16>, overaligned_tag<64>>();
}

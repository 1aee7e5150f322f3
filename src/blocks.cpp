// Monitor of C28: the numeric building blocks against exact integer arithmetic.
// Sections can be left out, when the library no longer has the functions they look at (see run.py).
#if __has_include(<floaxie/static_pow.h>)
#include <floaxie/static_pow.h>
#endif
#if __has_include(<floaxie/bit_ops.h>)
#include <floaxie/bit_ops.h>
#endif
#if __has_include(<floaxie/k_comp.h>)
#include <floaxie/k_comp.h>
#endif
#if __has_include(<floaxie/fraction.h>)
#include <floaxie/fraction.h>
#endif
#if __has_include(<floaxie/grisu.h>)
#include <floaxie/grisu.h>
#endif
#if __has_include(<floaxie/prettify.h>)
#include <floaxie/prettify.h>
#endif
#if __has_include(<floaxie/cached_power.h>)
#include <floaxie/cached_power.h>
#endif
#if __has_include(<floaxie/huge_val.h>)
#include <floaxie/huge_val.h>
#endif
#if __has_include(<floaxie/integer_of_size.h>)
#include <floaxie/integer_of_size.h>
#endif
#if __has_include(<floaxie/type_punning_cast.h>)
#include <floaxie/type_punning_cast.h>
#endif
#include "gen.hpp"
#include <utility>

using namespace vk;
u64 ref::oracle_disagreements = 0;
typedef unsigned __int128 u128;
template<typename T> using D = floaxie::diy_fp<T>;

static Shard* g_s;
static void bad(const char* key, const std::string& c, const std::string& m) { g_s->fail(key, c, m); }
static void seen(const char* k, u64 h) { ++g_s->evaluations; g_s->count(k); g_s->distinct(h ^ mix(hash_bytes(k, std::strlen(k)))); }
static u128 ipow(u64 b, unsigned n) { u128 r = 1; while (n--) r *= b; return r; }
static std::string num(u64 v) { return std::to_string(v); }

// ---- powers; every exponent whose power fits the result type
#ifndef NO_STATIC
template<unsigned base, unsigned n> static void static_power()
{
	constexpr unsigned long v = floaxie::static_pow<base, n>();
	static_assert(std::integral_constant<unsigned long, floaxie::static_pow<base, n>()>::value == v, "");
	if (v != ipow(base, n)) bad("static_pow", "", "static_pow<" + num(base) + ", " + num(n) + ">() is " + num(v));
	seen("static_powers", base * 100 + n);
}
template<unsigned base, std::size_t... n> static void static_powers(std::index_sequence<n...>) { int x[] = { (static_power<base, unsigned(n)>(), 0)... }; (void)x; }
#endif

#ifndef NO_SEQUENCE
template<typename T, T base, std::size_t top> static void sequence(const char* name)
{
	for (std::size_t p = 0; p <= top; ++p)
	{
		const T v = floaxie::seq_pow<T, base, top>(p);
		if (u128(v) != ipow(u64(base), unsigned(p))) bad("seq_pow", "", std::string("seq_pow<") + name + ", " + num(u64(base)) + ", " + num(top) + ">(" + num(p) + ") is " + num(u64(v)));
		seen("sequence_powers", u64(base) << 32 | top << 16 | p << 4 | sizeof(T));
	}
}
#endif

// ---- choice of the power: brings the scaled exponent into the range
#ifndef NO_CHOICE
template<typename T> static void choice(int e)
{
	constexpr int alpha = floaxie::grisu_parameters<T>.alpha, gamma = floaxie::grisu_parameters<T>.gamma, W = sizeof(T) * 8;
	const int k = floaxie::k_comp_exp<alpha, gamma>(e);
	const std::string m = "power chosen for exponent " + std::to_string(e) + " of " + ref::tn<T>::name() + " is " + std::to_string(k);
	// scaled value of that exponent (as normalized upper boundaries have) is in the range the digit generation needs
	if (k >= gen::P<T>::min_k && k <= gen::P<T>::max_k)
	{
		for (const auto f : { typename gen::P<T>::U(typename gen::P<T>::U(1) << (W - 1)), typename gen::P<T>::U(~typename gen::P<T>::U(0)) })
		{
			const D<T> p = D<T>(f, e) * floaxie::cached_power<T>(k);
			if (p.exponent() > gamma || p.exponent() < alpha) bad("scaled", "", m + ", scaled exponent " + std::to_string(p.exponent()) + " is out of range");
		}
		seen(sizeof(T) == 8 ? "choices_double" : "choices_float", u64(e + 5000));
	}
	else bad("choice", "", m + ", which is not in the table");
}
#endif

// ---- decimal to binary fractions
#ifndef NO_FRACTION
template<std::size_t dec, std::size_t bin> static void fraction(unsigned stride)
{
	const unsigned top = unsigned(ipow(10, dec)); unsigned last = 0;
	for (unsigned i = 0; i < top; i += stride)
	{
		const unsigned v = floaxie::convert_numerator<dec, bin>(i); const unsigned exact = unsigned(u64(i) * (1u << bin) / top);
		const std::string m = num(i) + "/" + num(top) + " is converted to " + num(v) + "/" + num(1u << bin);
		if (v > exact + 1 || v < exact) bad("fraction", "", m + ", expected " + num(exact));
		if (v < last) bad("fractionorder", "", m + ", less than that of a smaller one");
		last = v; seen("fractions", u64(i) << 16 | dec << 8 | bin);
	}
	// one half and, if there are enough decimal digits for them, all the exactly representable ones
	for (unsigned n = 1; n < (1u << bin); ++n) if (u64(n) * top % (1u << bin) == 0 && (dec >= bin || n == 1u << (bin - 1)))
	{
		const unsigned v = floaxie::convert_numerator<dec, bin>(unsigned(u64(n) * top >> bin));
		if (v != n) bad("fraction", "", num(u64(n) * top >> bin) + "/" + num(top) + " is converted to " + num(v) + "/" + num(1u << bin) + ", though it's exactly " + num(n) + "/" + num(1u << bin));
		seen("exact_fractions", u64(n) << 16 | dec << 8 | bin);
	}
}
#endif

// ---- bits
#ifndef NO_BITS
template<typename N> static void bits()
{
	constexpr unsigned W = sizeof(N) * 8;
	if (floaxie::bit_size<N>() != W) bad("bits", "", "bit_size");
	for (unsigned p = 0; p < W; ++p)
	{
		const N one = floaxie::raised_bit<N>(p);
		if (one != N(u64(1) << p)) bad("bits", "", "raised_bit(" + num(p) + ") is " + num(one));
		for (unsigned q = 0; q < W; ++q) { if (floaxie::nth_bit<N>(one, q) != (p == q)) bad("bits", "", "nth_bit(" + num(one) + ", " + num(q) + ")"); if (floaxie::nth_bit<N>(N(~one), q) != (p != q)) bad("bits", "", "nth_bit(" + num(N(~one)) + ", " + num(q) + ")"); seen("bit_tests", W << 16 | p << 8 | q); }
		if (floaxie::highest_bit<N>(one) != (p == W - 1)) bad("bits", "", "highest_bit(" + num(one) + ")");
	}
	for (unsigned n = 0; n <= W + 3; ++n)
	{
		const N m = floaxie::mask<N>(n);
		if (m != N(n >= W ? ~u128(0) : (u128(1) << n) - 1)) bad("bits", "", "mask<" + num(W) + ">(" + num(n) + ") is " + num(m));
		seen("masks", W << 8 | n);
	}
}
#endif

#ifndef NO_LIMITS
template<typename T> static void limits()
{
	using U = typename gen::P<T>::U;
	static_assert(std::is_same<typename floaxie::integer_of_size<sizeof(T)>::type, U>::value, "");
	if (floaxie::msb_value<T>() != U(1) << (sizeof(U) * 8 - 1)) bad("bits", "", "msb_value");
	if (floaxie::max_integer_value<T>() != U(~U(0))) bad("bits", "", "max_integer_value");
	if (!(floaxie::huge_value<T>() > std::numeric_limits<T>::max())) bad("bits", "", "huge_value");
	seen("limits", sizeof(T));
}
#endif

#ifndef NO_PUNS
template<typename T> static void puns(Rng& r)
{
	using U = typename gen::P<T>::U;
	const U u = U(r()); const T v = floaxie::type_punning_cast<T>(u); U w; std::memcpy(&w, &v, sizeof w);
	if (w != u || floaxie::type_punning_cast<U>(v) != u) bad("pun", "", "type_punning_cast of " + num(u));
	seen("puns", u);
	const int i = r.chance(3) ? r.range(-5, 5) : int(r()) >> r.below(31);
	if (floaxie::positive_part(i) != (i > 0 ? unsigned(i) : 0u)) bad("parts", "", "positive_part(" + std::to_string(i) + ")");
	if (i != std::numeric_limits<int>::min() && floaxie::constexpr_abs(i) != (i < 0 ? -i : i)) bad("parts", "", "constexpr_abs(" + std::to_string(i) + ")");
	seen("parts", u64(u32(i)));
}
#endif

// ---- digits
#ifndef NO_KAPPA
static void kappa(u32 n)
{
	const auto k = floaxie::calculate_kappa_div(n);
	unsigned digits = 1; u64 div = 1; while (div * 10 <= n) { div *= 10; ++digits; }
	if (k.first != digits || k.second != div) bad("kappa", "", "calculate_kappa_div(" + num(n) + ") is " + num(k.first) + ", " + num(k.second));
	seen("kappas", n);
}
#endif

#ifndef NO_EXPONENT
template<typename C> static void exponent(unsigned k)
{
	C b[8], same; std::memset(static_cast<void*>(&same), '#', sizeof same); std::memset(static_cast<void*>(b), '#', sizeof b);
	const std::size_t n = floaxie::fill_exponent(k, b);
	char want[8]; std::snprintf(want, sizeof want, "%02u", k);
	bool ok = n == std::strlen(want); for (std::size_t i = 0; ok && i <= n; ++i) ok = b[i] == C(want[i]);
	if (!ok || b[n + 1] != same) bad("exponent", "", "fill_exponent(" + num(k) + ")");
	seen("exponents", k << 4 | sizeof(C));
}
#endif

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	const bool th = opt().thorough;
	Program p; p.shards = 32;
	p.shard = [=](Shard& s)
	{
		g_s = &s;
		switch (s.index)
		{
#ifndef NO_STATIC
		case 0: static_powers<2>(std::make_index_sequence<64>()); static_powers<3>(std::make_index_sequence<41>()); static_powers<4>(std::make_index_sequence<32>()); break;
		case 1: static_powers<5>(std::make_index_sequence<28>()); static_powers<7>(std::make_index_sequence<23>()); static_powers<10>(std::make_index_sequence<20>()); static_powers<1>(std::make_index_sequence<40>()); static_powers<65535>(std::make_index_sequence<5>()); break;
#endif
#ifndef NO_SEQUENCE
		case 2: sequence<u64, 10, 19>("uint64_t"); sequence<u32, 10, 9>("uint32_t"); sequence<unsigned, 10, 4>("unsigned"); sequence<u64, 2, 63>("uint64_t"); sequence<int, 10, 9>("int"); sequence<std::uint16_t, 10, 4>("uint16_t"); sequence<u64, 10, 1>("uint64_t"); sequence<u64, 7, 22>("uint64_t"); break;
#endif
#ifndef NO_BITS
		case 3: bits<u64>(); bits<u32>(); bits<std::uint16_t>(); bits<unsigned char>(); break;
#endif
#ifndef NO_LIMITS
		case 4: limits<double>(); limits<float>(); break;
#endif
#ifndef NO_FRACTION
		case 5: fraction<4, 7>(1); fraction<1, 3>(1); fraction<1, 1>(1); fraction<2, 2>(1); fraction<3, 3>(1); fraction<4, 4>(1); fraction<5, 5>(1); fraction<2, 4>(1); fraction<2, 5>(1); fraction<3, 4>(1); break;
		case 6: fraction<3, 7>(1); fraction<5, 10>(1); fraction<6, 7>(7); fraction<7, 7>(13); fraction<7, 3>(11); break;
#endif
#ifndef NO_EXPONENT
		case 7: for (unsigned k = 0; k < 1000; ++k) { exponent<char>(k); exponent<wchar_t>(k); exponent<char16_t>(k); exponent<char32_t>(k); } break;
#endif
#ifndef NO_KAPPA
		case 8: for (u64 d = 1; d <= 10000000000ull; d *= 10) for (int i = -3; i <= 3; ++i) if (d + i <= 0xffffffffull) kappa(u32(d + i)); for (u32 n = 0; n < 200000; ++n) kappa(n); kappa(0xffffffff); break;
#endif
		default: break;
		}
#ifndef NO_CHOICE
		// exponents of normalized upper boundaries
		for (int e = -1137 + int(s.index); e <= 960; e += 32) { choice<double>(e); if (e >= -180 && e <= 96) choice<float>(e); s.tick(); }
#endif
#ifndef NO_FORMAT
		for (u64 w = s.index; w < 200; w += 32) { if ((floaxie::choose_format<16>(w) == floaxie::scientific) != (w > 16)) bad("format", "", "choose_format<16>(" + num(w) + ")"); seen("formats", w); }
#endif
		for (int i = 0; i < (th ? 4000000 : 100000); ++i)
		{
			if (!(i & 0xffff)) s.tick();
#ifndef NO_PUNS
			puns<double>(s.rng); puns<float>(s.rng);
#endif
#ifndef NO_KAPPA
			kappa(u32(s.rng()) >> s.rng.below(32));
#endif
		}
		s.sample("k for 2^" + std::to_string(int(s.index) - 16));
	};
	p.one = [](const std::string&, Shard&) { };
	return run(argc, argv, p);
}

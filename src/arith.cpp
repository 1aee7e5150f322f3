// Monitors of the arithmetic layer: C19 (powers of ten), C20 (extended values), C25 (renderings).
#include <floaxie/diy_fp.h>
#if __has_include(<floaxie/cached_power.h>)
#include <floaxie/cached_power.h>
#endif
#include <floaxie/bit_ops.h>
#include <floaxie/print.h>
#include <sstream>
#include <algorithm>
#include "gen.hpp"

using namespace vk;
u64 ref::oracle_disagreements = 0;
static std::string g_check;
static bool is(const char* c) { return g_check == c; }
template<typename T> using U = typename gen::P<T>::U;
template<typename T> using D = floaxie::diy_fp<T>;
typedef unsigned __int128 u128;

// ---- exact unsigned integers
struct Big
{
	std::vector<u32> d; // little endian
	explicit Big(u128 v = 0) { while (v) { d.push_back(u32(v)); v >>= 32; } }
	Big& mul(u32 m) { u64 c = 0; for (auto& x : d) { c += u64(x) * m; x = u32(c); c >>= 32; } if (c) d.push_back(u32(c)); return *this; }
	Big& shl(unsigned n)
	{
		if (d.empty()) return *this;
		if (n % 32) { mul(u32(1) << (n % 32)); }
		d.insert(d.begin(), n / 32, 0u); return *this;
	}
	int cmp(const Big& o) const
	{
		if (d.size() != o.d.size()) return d.size() < o.d.size() ? -1 : 1;
		for (std::size_t i = d.size(); i-- > 0; ) if (d[i] != o.d[i]) return d[i] < o.d[i] ? -1 : 1;
		return 0;
	}
};
static Big pow10(int n) { Big b(1); for (int i = 0; i < n; ++i) b.mul(10); return b; }

// sign of (n * 2^e - 10^k)
static int compare_pow10(const Big& n, int e, int k)
{
	Big l = n, r(1);
	if (k >= 0) r = pow10(k); else for (int i = 0; i < -k; ++i) l.mul(10);
	if (e >= 0) l.shl(unsigned(e)); else r.shl(unsigned(-e));
	return l.cmp(r);
}

// ---- C19
#ifdef NO_POWER
template<typename T> void power(Shard&, int) { }
#else
template<typename T> void power(Shard& s, int k)
{
	char c[32]; std::snprintf(c, sizeof c, "%c%d", sizeof(T) == 8 ? 'd' : 'f', k);
	s.begin(c, std::strlen(c));
	const D<T> p = floaxie::cached_power<T>(k);
	const U<T> f = p.mantissa(); const int e = p.exponent();
	const std::string m = std::string(ref::tn<T>::name()) + " power 10^" + std::to_string(k) + " is " + std::to_string(f) + " * 2^" + std::to_string(e);
	if (!(f >> (sizeof(U<T>) * 8 - 1))) { s.fail("normalized", c, m + ", which isn't normalized"); return; }
	if (e < -4000 || e > 4000) { s.fail("value", c, m); return; }
	// (2f - 1) 2^(e - 1) <= 10^k <= (2f + 1) 2^(e - 1)
	const Big two((u128(f) << 1)), a((u128(f) << 1) - 1), b((u128(f) << 1) + 1);
	const int x = compare_pow10(a, e - 1, k), y = compare_pow10(b, e - 1, k);
	if (x > 0 || y < 0) s.fail("value", c, m + ", farther than a half of the last place from the exact power");
	const D<T> q = floaxie::cached_power<T>(k);
	if (q.mantissa() != f || q.exponent() != e) s.fail("lookup", c, m + ", but looked up differently the second time");
	s.count(compare_pow10(two, e - 1, k) == 0 ? "exact_powers" : "rounded_powers");
	if (s.distinct(hash_bytes(c, std::strlen(c)))) s.count(sizeof(T) == 8 ? "double_entries" : "float_entries");
}
#endif

// ---- C20
template<typename T> std::string enc(char what, U<T> a, int e, U<T> b = 0, int g = 0)
{
	char c[128]; std::snprintf(c, sizeof c, "%c%c %llu %d %llu %d", sizeof(T) == 8 ? 'd' : 'f', what, (unsigned long long)a, e, (unsigned long long)b, g);
	return c;
}
template<typename T> long double num(const D<T>& x) { return std::ldexp((long double)x.mantissa(), x.exponent()); }
template<typename T> std::string dshow(const D<T>& x) { char b[64]; std::snprintf(b, sizeof b, "0x%llx*2^%d", (unsigned long long)x.mantissa(), x.exponent()); return b; }

// value -> parts -> value, boundaries; v > 0 finite
template<typename T> inline void decompose(Shard& s, T v)
{
	const U<T> bits = to_bits(v);
	static thread_local std::string c; 
	auto cs = [&] { return enc<T>('v', bits, 0); };
	const D<T> x(v);
	if (num(x) != (long double)v) { s.fail("split", cs(), ref::vshow(v) + " is split to " + dshow(x)); return; }
	D<T> n = x; n.normalize();
	if (!(n.mantissa() >> (sizeof(U<T>) * 8 - 1)) || num(n) != (long double)v) { s.fail("normalize", cs(), ref::vshow(v) + " is normalized to " + dshow(n)); return; }
	const auto r = n.downsample();
	if (to_bits(r.value) != bits || int(r.status) != 0) s.fail("identity", cs(), ref::vshow(v) + " comes back as " + ref::vshow(r.value) + ", status " + ref::status_name(int(r.status)));
	if (D<T>(-v).mantissa() != x.mantissa() || D<T>(-v).exponent() != x.exponent()) s.fail("splitnegative", cs(), ref::vshow(-v) + " has other parts than its magnitude");
	const auto b = D<T>::boundaries(v);
	const long double mi = num(b.first), pl = num(b.second);
	if (pl != gen::midpoint_above(v)) s.fail("upper", cs(), "upper boundary of " + ref::vshow(v) + " is " + dshow(b.second));
	const T prev = from_bits<T>(U<T>(bits - 1));
	if (!(mi < (long double)v) || mi < ((long double)prev + v) / 2) s.fail("lower", cs(), "lower boundary of " + ref::vshow(v) + " is " + dshow(b.first));
	if (b.first.exponent() != b.second.exponent()) s.fail("boundaryexp", cs(), "boundaries of " + ref::vshow(v) + " have different exponents");
}
template<typename T> void decompose_case(Shard& s, T v)
{
	const std::string c = enc<T>('v', to_bits(v), 0);
	s.begin(c);
	decompose<T>(s, v);
	if (s.distinct(hash_bytes(c.data(), c.size()))) s.count(v < std::numeric_limits<T>::min() ? "subnormals" : "normals");
}

inline double nearest(u64 f, int e, double) { return double(std::ldexp((long double)f, e)); }
inline float nearest(u32 f, int e, float) { return float(std::ldexp(double(f), e)); }

template<typename T> void downsample_case(Shard& s, U<T> f, int e)
{
	const std::string c = enc<T>('s', f, e);
	s.begin(c);
	D<T> x(f, e);
	const auto r = x.downsample();
	const T want = nearest(f, e, T());
	const int st = std::isinf(want) ? 2 : want == 0 ? 1 : 0;
	if (to_bits(r.value) != to_bits(want) || int(r.status) != st)
		s.fail("nearest", c, dshow(D<T>(f, e)) + " gives " + ref::vshow(r.value) + ", " + ref::status_name(int(r.status)) + ", expected " + ref::vshow(want) + ", " + ref::status_name(st));
	if (s.distinct(hash_bytes(c.data(), c.size()))) s.count(st == 2 ? "rounded_to_overflow" : st == 1 ? "rounded_to_underflow" : std::fabs(want) < std::numeric_limits<T>::min() ? "rounded_to_subnormal" : "rounded_to_normal");
}

template<typename T> void product_case(Shard& s, U<T> a, int ea, U<T> b, int eb)
{
	const std::string c = enc<T>('m', a, ea, b, eb);
	s.begin(c);
	constexpr int W = sizeof(U<T>) * 8;
	const D<T> x(a, ea), y(b, eb);
	const D<T> p = x * y;
	const u128 exact = u128(a) * b, got = u128(p.mantissa()) << W;
	const u128 diff = exact > got ? exact - got : got - exact;
	auto m = [&] { return dshow(x) + " * " + dshow(y) + " = " + dshow(p); };
	if (p.exponent() != ea + eb + W) s.fail("productexp", c, m());
	else if (diff > (u128(1) << W)) s.fail("product", c, m() + ", farther than one unit from the exact product");
	if (x.mantissa() != a || x.exponent() != ea || y.mantissa() != b || y.exponent() != eb) s.fail("operand", c, m() + " changed an operand");
	D<T> z = x; z *= y; if (!(z == p) || z != p) s.fail("inplace", c, m() + ", in place " + dshow(z));
	const u64 ulp1000 = u64(diff >> (W - 10)) * 1000 >> 10;
	s.maximum(sizeof(T) == 8 ? "product_error_milliulp_double" : "product_error_milliulp_float", ulp1000);
	s.count("products");
	s.distinct(hash_bytes(c.data(), c.size()));
}

template<typename T> void step_case(Shard& s, U<T> f, int e)
{
	const std::string c = enc<T>('i', f, e);
	s.begin(c);
	const D<T> x(f, e); const U<T> top = std::numeric_limits<U<T>>::max();
	D<T> u = x; const D<T>& up = ++u; if (&up != &u) s.fail("step", c, "prefix increment returns another object");
	// value grows by exactly one unit
	const bool ok_up = f < top ? u.mantissa() == f + 1 && u.exponent() == e : u.mantissa() == (top >> 1) + 1 && u.exponent() == e + 1;
	if (!ok_up) s.fail("increment", c, dshow(x) + " incremented gives " + dshow(u));
	D<T> v = x; const D<T> old = v++; if (!(old == x) || !(v == u)) s.fail("postincrement", c, dshow(x) + "++ gives " + dshow(old) + " and leaves " + dshow(v));
	if (f > 0)
	{
		D<T> d = x; --d;
		const bool ok_down = f > 1 ? d.mantissa() == f - 1 && d.exponent() == e : d.mantissa() == 1 && d.exponent() == e - 1;
		if (!ok_down) s.fail("decrement", c, dshow(x) + " decremented gives " + dshow(d));
		D<T> w = x; const D<T> old2 = w--; if (!(old2 == x) || !(w == d)) s.fail("postdecrement", c, dshow(x) + "-- gives " + dshow(old2) + " and leaves " + dshow(w));
	}
	s.count("steps");
	if (f == top) s.count("carries");
	s.distinct(hash_bytes(c.data(), c.size()));
}
template<typename T> void difference_case(Shard& s, U<T> a, U<T> b, int e)
{
	if (a < b) std::swap(a, b);
	const std::string c = enc<T>('d', a, e, b, e);
	s.begin(c);
	const D<T> x(a, e), y(b, e); const D<T> d = x - y;
	if (d.mantissa() != a - b || d.exponent() != e) s.fail("difference", c, dshow(x) + " - " + dshow(y) + " = " + dshow(d));
	D<T> z = x; z -= y; if (!(z == d)) s.fail("difference", c, dshow(x) + " -= " + dshow(y) + " gives " + dshow(z));
	if ((x == y) != (a == b) || (x != y) != (a != b) || x == D<T>(a, e + 1) || !(x != D<T>(a, e - 1))) s.fail("equality", c, "wrong comparison of " + dshow(x) + " and " + dshow(y));
	s.count("differences");
	s.distinct(hash_bytes(c.data(), c.size()));
}
template<typename N> void round_case(Shard& s, N x, unsigned p)
{
	char c[64]; std::snprintf(c, sizeof c, "r%u %llu %u", unsigned(sizeof(N)), (unsigned long long)x, p);
	s.begin(c, std::strlen(c));
	const auto r = floaxie::round_up(x, p);
	const u128 v = x, tail = v & ((u128(1) << p) - 1), half = u128(1) << (p - 1);
	const bool up = tail > half || (tail == half && (v >> p & 1));
	if (r.value != up) s.fail("round", c, "rounding of " + std::to_string((unsigned long long)x) + " to bit " + std::to_string(p) + " goes " + (r.value ? "up" : "down"));
	if (r.is_accurate != (tail != half)) s.fail("roundtie", c, "rounding of " + std::to_string((unsigned long long)x) + " to bit " + std::to_string(p) + (r.is_accurate ? " isn't" : " is") + " taken for a tie");
	s.count(tail == half ? "ties" : "roundings");
}

template<typename N> N mantissa(Rng& r)
{
	constexpr int W = sizeof(N) * 8; const N all = N(~N(0));
	switch (r.below(10))
	{
	case 0: return N(r()) | N(N(1) << (W - 1));
	case 1: return N(all << r.below(W));
	case 2: return N(all - N(r.below(4)));
	case 3: return N((N(1) << (W - 1)) + N(r.below(4)));
	case 4: { const N h = N(all >> (W / 2)); return N((N(r()) & ~h) | (r.chance(2) ? h : 0)); }
	case 5: return N((N(1) << r.below(W)) | (N(1) << r.below(W)));
	case 6: return N(all ^ (N(1) << r.below(W)) ^ (N(1) << r.below(W)));
	case 7: return N(N(r()) >> r.below(W));
	case 8: { const N h = N(all >> (W / 2)); return N((r.chance(2) ? N(~h) : N(r()) & N(~h)) | (h - N(r.below(3)))); }
	default: return N(r());
	}
}
// normalized mantissas with tails around the rounding point for shift n
template<typename T> U<T> around(Rng& r, int n)
{
	constexpr int W = sizeof(U<T>) * 8;
	U<T> f = mantissa<U<T>>(r) | (U<T>(1) << (W - 1));
	if (n >= 1 && n <= W)
	{
		const U<T> m = n == W ? ~U<T>(0) : (U<T>(1) << n) - 1, half = U<T>(1) << (n - 1);
		U<T> t;
		switch (r.below(6)) { case 0: t = half; break; case 1: t = half - 1; break; case 2: t = half + 1; break; case 3: t = 0; break; case 4: t = m; break; default: t = half + U<T>(r.range(-20, 20)); }
		f = (f & ~m) | (t & m);
		if (r.chance(3) && n < W) f |= ~m; // carry chain
		f |= U<T>(1) << (W - 1);
	}
	return f;
}
template<typename T> void arithmetic(Shard& s, u64 n)
{
	constexpr int W = sizeof(U<T>) * 8, digs = std::numeric_limits<T>::digits;
	constexpr int emin = std::numeric_limits<T>::min_exponent - W - digs - 6, emax = std::numeric_limits<T>::max_exponent - W + 6;
	Rng& r = s.rng;
	for (u64 i = 0; i < n && !s.stopped(); ++i)
	{
		decompose_case<T>(s, [&] { T v; do v = std::fabs(gen::value<T>(r)); while (!(v > 0) || !std::isfinite(v)); return v; }());
		{
			int e = r.chance(3) ? r.range(emin, emin + digs + 12) : r.chance(4) ? r.range(emax - 10, emax) : r.chance(100) ? r.range(-100000, 100000) : r.range(emin, emax);
			const int denorm = std::numeric_limits<T>::min_exponent - digs - e; // shift which leaves units of the least subnormal
			int shift = std::max(denorm, W - digs);
			if (r.chance(16)) shift += r.range(-2, 2);
			const U<T> f = around<T>(r, shift);
			if (e > -3000 && e < 3000) downsample_case<T>(s, f, e);
			else
			{
				const std::string c = enc<T>('s', f, e); s.begin(c);
				D<T> x(f, e); const auto q = x.downsample(); const bool big = e > 0;
				if (big ? !(q.value == std::numeric_limits<T>::infinity() && int(q.status) == 2) : !(q.value == 0 && int(q.status) == 1)) s.fail("nearest", c, dshow(D<T>(f, e)) + " gives " + ref::vshow(q.value) + ", " + ref::status_name(int(q.status)));
				s.count("far_out_of_range");
			}
		}
		product_case<T>(s, mantissa<U<T>>(r), r.range(-1200, 1200), mantissa<U<T>>(r), r.range(-1200, 1200));
		step_case<T>(s, r.chance(8) ? std::numeric_limits<U<T>>::max() - U<T>(r.below(2)) : r.chance(8) ? U<T>(r.below(3)) : mantissa<U<T>>(r), r.range(-1200, 1200));
		difference_case<T>(s, mantissa<U<T>>(r), mantissa<U<T>>(r), r.range(-1200, 1200));
		round_case<U<T>>(s, around<T>(r, int(1 + r.below(W))), unsigned(1 + r.below(W)));
	}
}

// ---- C25
static std::string bits_of(u64 v, int n) { std::string r; for (int i = n; i-- > 0; ) r += char('0' + (v >> i & 1)); return r; }
static void render_double(Shard& s, u64 u)
{
	char c[40]; std::snprintf(c, sizeof c, "D%llu", (unsigned long long)u);
	s.begin(c, std::strlen(c));
	const double v = from_bits<double>(u);
	const std::string b = bits_of(u, 64), want = b.substr(0, 1) + " " + b.substr(1, 11) + " " + b.substr(12);
	const std::string t = floaxie::print_binary(v);
	if (t != want) s.fail("double", c, "rendering of " + ref::vshow(v) + " is " + t + ", expected " + want);
	if (s.distinct(u * 5 + 1)) s.count(std::isnan(v) ? "nans" : std::isinf(v) ? "infs" : "doubles");
}
template<typename To, typename From> To from_any(From f) { To t; std::memset(&t, 0, sizeof t); std::memcpy(&t, &f, std::min(sizeof t, sizeof f)); return t; }
template<typename N> void render_int(Shard& s, N u)
{
	char c[40]; std::snprintf(c, sizeof c, "I%u %llu", unsigned(sizeof(N)), (unsigned long long)u);
	s.begin(c, std::strlen(c));
	const std::string t = floaxie::print_binary(u), want = bits_of(u, sizeof(N) * 8);
	if (t != want) s.fail("integer", c, "rendering of " + std::to_string((unsigned long long)u) + " is " + t + ", expected " + want);
	// the same bits in the other types of this width
	auto same = [&](const char* type, const std::string& got) { if (got != want) s.fail("integertype", c, "rendering of " + std::to_string((unsigned long long)u) + " as " + type + " is " + got + ", expected " + want); s.count("other_types"); };
	typedef typename std::make_signed<N>::type S;
	same("signed", floaxie::print_binary(from_any<S>(u)));
	if (sizeof(N) == 8) { same("long long", floaxie::print_binary(from_any<long long>(u))); same("unsigned long long", floaxie::print_binary(from_any<unsigned long long>(u))); same("long", floaxie::print_binary(from_any<long>(u))); same("unsigned long", floaxie::print_binary(from_any<unsigned long>(u))); }
	if (sizeof(N) == 4) { same("char32_t", floaxie::print_binary(from_any<char32_t>(u))); same("wchar_t", floaxie::print_binary(from_any<wchar_t>(u))); }
	if (sizeof(N) == 2) same("char16_t", floaxie::print_binary(from_any<char16_t>(u)));
	if (sizeof(N) == 1) { same("char", floaxie::print_binary(from_any<char>(u))); same("signed char", floaxie::print_binary(from_any<signed char>(u))); }
	if (s.distinct(hash_bytes(c, std::strlen(c)))) s.count(sizeof(N) == 8 ? "u64" : sizeof(N) == 4 ? "u32" : sizeof(N) == 2 ? "u16" : "u8");
#ifndef NO_PRESENT
	if (sizeof(N) == 8) { const auto q = from_any<std::int64_t>(u); if (floaxie::print_double_presentation(q) != floaxie::print_double_presentation(u)) s.fail("presentation", c, "layout of " + std::to_string((long long)q) + " as double is " + floaxie::print_double_presentation(q)); }
	// highest bit, the 52 bits below it, the rounding bit and the remaining ones
	const std::string b = bits_of(u, 64);
	if (floaxie::print_double_presentation(u) != b.substr(0, 1) + " " + b.substr(1, 52) + " " + b.substr(53, 1) + " " + b.substr(54)) s.fail("presentation", c, "layout of " + std::to_string((unsigned long long)u) + " as double is " + floaxie::print_double_presentation(u));
	s.count("presentations");
#endif
}
template<typename T> void render_diy(Shard& s, U<T> f, int e)
{
	const std::string c = enc<T>('o', f, e);
	s.begin(c);
	const std::string want = "(f = " + bits_of(f, sizeof(U<T>) * 8) + ", e = " + std::to_string(e) + ")";
	std::ostringstream o; o << "a" << D<T>(f, e) << D<T>(f, e) << 5;
	if (o.str() != "a" + want + want + "5") s.fail("stream", c, "stream output of " + dshow(D<T>(f, e)) + " is " + o.str() + ", expected " + want);
	// wide streams; the state of the stream is left alone
	const std::wstring wwant(want.begin(), want.end());
	std::wostringstream w; w << L"a"; (w << D<T>(f, e)) << D<T>(f, e) << 5;
	if (w.str() != L"a" + wwant + wwant + L"5") s.fail("widestream", c, "wide stream output of " + dshow(D<T>(f, e)) + " is wrong, expected " + want);
	// any of the flags may be set
	std::ios::fmtflags flags = s.rng.chance(2) ? std::ios::dec : std::ios::fmtflags();
	for (auto f : { std::ios::left, std::ios::right, std::ios::internal, std::ios::fixed, std::ios::scientific, std::ios::boolalpha, std::ios::uppercase, std::ios::showpoint, std::ios::skipws, std::ios::unitbuf, std::ios::showbase }) if (s.rng.chance(3)) flags |= f;
	const bool plus = s.rng.chance(4), hex = !plus && s.rng.chance(6); if (plus) flags |= std::ios::showpos; if (hex) flags = (flags & ~std::ios::basefield) | (s.rng.chance(2) ? std::ios::hex : std::ios::oct);
	const int precision = int(s.rng.below(30)); const char fill = char('!' + s.rng.below(60));
	std::ostringstream ei; ei.flags(flags); ei << e;
	const std::string swant = "(f = " + bits_of(f, sizeof(U<T>) * 8) + ", e = " + ei.str() + ")"; const std::wstring swwant(swant.begin(), swant.end());
	o.str(""); o.flags(flags); o.precision(precision); o.fill(fill); o << D<T>(f, e) << D<T>(f, e);
	if (o.flags() != flags || o.precision() != precision || o.fill() != fill || o.width() != 0 || !o.good() || o.str() != swant + swant) s.fail("streamstate", c, "stream output of " + dshow(D<T>(f, e)) + " depends on or changes the stream's state: " + o.str() + ", expected twice " + swant);
	w.str(L""); w.flags(flags); w.precision(precision); w.fill(wchar_t(fill)); w << D<T>(f, e) << D<T>(f, e);
	if (w.flags() != flags || w.precision() != precision || w.fill() != wchar_t(fill) || w.width() != 0 || !w.good() || w.str() != swwant + swwant) s.fail("streamstate", c, "wide stream output of " + dshow(D<T>(f, e)) + " depends on or changes the stream's state, expected twice " + swant);
	if (s.distinct(mix(u64(flags)))) s.count("stream_states");
	s.count("streamed_wide");
	if (s.distinct(hash_bytes(c.data(), c.size()))) s.count("streamed");
}

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	g_check = opt().extra["--check"];
	const bool th = opt().thorough;
	auto N = [&](double quick, double thorough) { return u64((th ? thorough : quick) * opt().scale); };
	Program p;
	if (is("C19"))
	{
		p.shards = 64;
		p.shard = [](Shard& s)
		{
			for (int k = gen::P<double>::min_k + int(s.index); k <= gen::P<double>::max_k; k += 64) power<double>(s, k);
			for (int k = gen::P<float>::min_k + int(s.index); k <= gen::P<float>::max_k; k += 64) power<float>(s, k);
			// lookups in arbitrary order
			for (int i = 0; i < 20; ++i) { power<double>(s, s.rng.range(-343, 343)); power<float>(s, s.rng.range(-50, 50)); }
			s.sample("10^" + std::to_string(int(s.index) - 40));
		};
	}
	else if (is("C20"))
	{
		p.shards = 256;
		const bool exhaustive = opt().extra["--floats"] != "no";
		const u64 n = N(25000, 2000000);
		p.shard = [=](Shard& s)
		{
			if (exhaustive)
			{
				const u32 from = u32(0x7f800000u / 256 * s.index), to = u32(0x7f800000u / 256 * (s.index + 1));
				u64 k = 0;
				for (u32 u = from; u < to && !s.stopped(); ++u) if (u) { if (!(++k & 0xffff)) s.tick(); decompose<float>(s, from_bits<float>(u)); }
				s.count("floats_enumerated", k); s.evaluations += k;
			}
			for (u64 u = s.index; u < 65536; u += 256) { for (unsigned q = 1; q <= 16; ++q) round_case<std::uint16_t>(s, std::uint16_t(u), q); if (u < 256) for (unsigned q = 1; q <= 8; ++q) round_case<unsigned char>(s, (unsigned char)u, q); }
			for (int e = int(s.index); e < 2047; e += 256) for (int k = 0; k < 60; ++k)
			{
				const u64 m = k == 0 ? 0 : k == 1 ? (u64(1) << 52) - 1 : k < 54 ? u64(1) << (k - 2) : s.rng() >> 12;
				const double v = from_bits<double>((u64(e) << 52) | m); if (v > 0) decompose_case<double>(s, v);
				s.count("double_exponents_swept", k == 0);
			}
			s.sample(dshow(D<double>(std::fabs(gen::finite_value<double>(s.rng)))));
			arithmetic<double>(s, n); arithmetic<float>(s, n);
		};
	}
	else if (is("C25"))
	{
		p.shards = 128;
		const u64 n = N(20000, 500000);
		p.shard = [=](Shard& s)
		{
			Rng& r = s.rng;
			for (u64 u = s.index; u < 65536; u += 128) { render_int<std::uint16_t>(s, std::uint16_t(u)); if (u < 256) render_int<unsigned char>(s, (unsigned char)u); }
			for (int i = int(s.index); i < 64; i += 128) { render_double(s, u64(1) << i); render_int<u64>(s, u64(1) << i); render_int<u64>(s, ~(u64(1) << i)); render_int<u32>(s, u32(1) << (i & 31)); }
			for (int e = int(s.index); e < 2048; e += 128) for (int k = 0; k < 4; ++k) render_double(s, (u64(k & 1) << 63) | (u64(e) << 52) | (k > 1 ? r() >> 12 : 0));
			for (u64 i = 0; i < n && !s.stopped(); ++i)
			{
				render_double(s, r.chance(4) ? r() : to_bits(gen::value<double>(r, true)));
				render_int<u64>(s, mantissa<u64>(r)); render_int<u32>(s, mantissa<u32>(r));
				render_diy<double>(s, mantissa<u64>(r), r.chance(8) ? int(r()) : r.range(-1200, 1200)); render_diy<float>(s, mantissa<u32>(r), r.range(-200, 200));
			}
			s.sample(floaxie::print_binary(gen::value<double>(r)));
		};
	}
	else return 2;
	p.one = [](const std::string& c, Shard& s)
	{
		if (is("C19")) { const int k = std::atoi(c.c_str() + 1); if (c[0] == 'd') power<double>(s, k); else power<float>(s, k); return; }
		unsigned long long a = 0, b = 0; int e = 0, g = 0; unsigned w = 0;
		if (c[0] == 'D') { render_double(s, std::strtoull(c.c_str() + 1, nullptr, 10)); return; }
		if (c[0] == 'I') { std::sscanf(c.c_str() + 1, "%u %llu", &w, &a); if (w == 8) render_int<u64>(s, a); else if (w == 4) render_int<u32>(s, u32(a)); else if (w == 2) render_int<std::uint16_t>(s, std::uint16_t(a)); else render_int<unsigned char>(s, (unsigned char)a); return; }
		if (c[0] == 'r') { unsigned q = 1; std::sscanf(c.c_str() + 1, "%u %llu %u", &w, &a, &q); if (w == 8) round_case<u64>(s, a, q); else if (w == 4) round_case<u32>(s, u32(a), q); else if (w == 2) round_case<std::uint16_t>(s, std::uint16_t(a), q); else round_case<unsigned char>(s, (unsigned char)a, q); return; }
		std::sscanf(c.c_str() + 2, "%llu %d %llu %d", &a, &e, &b, &g);
		const bool d = c[0] == 'd';
		switch (c[1])
		{
		case 'v': if (d) decompose_case<double>(s, from_bits<double>(a)); else decompose_case<float>(s, from_bits<float>(u32(a))); break;
		case 's': if (d) downsample_case<double>(s, a, e); else downsample_case<float>(s, u32(a), e); break;
		case 'm': if (d) product_case<double>(s, a, e, b, g); else product_case<float>(s, u32(a), e, u32(b), g); break;
		case 'i': if (d) step_case<double>(s, a, e); else step_case<float>(s, u32(a), e); break;
		case 'd': if (d) difference_case<double>(s, a, b, e); else difference_case<float>(s, u32(a), u32(b), e); break;
		case 'o': if (d) render_diy<double>(s, a, e); else render_diy<float>(s, u32(a), e); break;
		}
	};
	return run(argc, argv, p);
}

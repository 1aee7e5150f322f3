// Workload generators: floating point values and number texts.
#pragma once
#include "ref.hpp"

namespace gen
{
using namespace vk;

template<typename T> struct P;
template<> struct P<double>
{
	using U = u64; static constexpr int mbits = 52, ebits = 11, emax = 2047, kappa = 19, digits = 17, min10 = -324, max10 = 308;
	static constexpr int min_k = -343, max_k = 343;
};
template<> struct P<float>
{
	using U = u32; static constexpr int mbits = 23, ebits = 8, emax = 255, kappa = 9, digits = 9, min10 = -45, max10 = 38;
	static constexpr int min_k = -50, max_k = 50;
};

template<typename T> inline T pow10_near(Rng& r)
{
	char b[32]; std::snprintf(b, sizeof b, "1e%d", r.range(P<T>::min10 - 1, P<T>::max10));
	typename P<T>::U u = to_bits(ref::c_strto(b, T()));
	return from_bits<T>(typename P<T>::U(u + typename P<T>::U(r.range(-4, 4))));
}

// Any bit pattern may come out; never NaN/inf unless special is set.
template<typename T> inline T value(Rng& r, bool special = false)
{
	using U = typename P<T>::U; constexpr int mb = P<T>::mbits;
	const U mm = (U(1) << mb) - 1;
	U e = U(r.below(P<T>::emax)), m = U(r()) & mm;
	switch (r.below(16))
	{
	case 0: case 1: case 2: case 3: case 4: break; // uniform bits
	case 5: m = 0; break;
	case 6: m = U(r.below(8)); break;
	case 7: m = mm - U(r.below(8)); break;
	case 8: m = U(U(1) << r.below(mb)) | U(U(1) << r.below(mb)) | U(r.below(2)); break; // few bits
	case 9: m = (mm << r.below(mb + 1)) & mm; break; // run of ones on top
	case 10: e = 0; m = U(r()) & (mm >> r.below(mb)); if (!m) m = 1; break; // subnormal
	case 11: // short decimals
	{
		char b[64];
		std::snprintf(b, sizeof b, "%llue%d", (unsigned long long)(r() % u64(std::pow(10., double(r.range(1, P<T>::digits))))) , r.range(P<T>::min10 - 8, P<T>::max10 - 6));
		T v = ref::c_strto(b, T()); if (!std::isfinite(v)) v = 1; if (r.chance(2)) v = -v; return v;
	}
	case 12: { T v = pow10_near<T>(r); if (!std::isfinite(v)) v = 1; return r.chance(2) ? v : -v; }
	case 13: // integers
	{
		u64 x = r() >> r.below(64); if (r.chance(3)) x = (u64(1) << r.below(64)) + u64(r.range(-3, 3));
		T v = T(x); return r.chance(2) ? v : -v;
	}
	case 14: { T v = T(double(r() >> 11) * 0x1p-53); return r.chance(2) ? v : -v; } // [0, 1)
	case 15: // human scale: up to 6 decimals
	{
		char b[64]; std::snprintf(b, sizeof b, "%llu.%0*llu", (unsigned long long)(r() % 1000000), 1 + int(r.below(6)), (unsigned long long)(r() % 10));
		T v = ref::c_strto(b, T()); return r.chance(2) ? v : -v;
	}
	}
	if (special && r.chance(64)) e = P<T>::emax;
	const U sign = U(r.below(2)) << (sizeof(U) * 8 - 1);
	T v = from_bits<T>(U(sign | (e << mb) | m));
	return v;
}
template<typename T> inline T finite_value(Rng& r) { for (;;) { T v = value<T>(r); if (std::isfinite(v)) return v; } }
// uniform over the bit patterns of finite values
template<typename T> inline T uniform_bits(Rng& r)
{
	for (;;) { T v = from_bits<T>(typename P<T>::U(r())); if (std::isfinite(v)) return v; }
}

inline long double midpoint_above(double v)
{
	// v positive finite; next value may be 2^1024
	long double a = v, b = v == std::numeric_limits<double>::max() ? 0x1p1024L : (long double)std::nextafter(v, INFINITY);
	return (a + b) / 2;
}
inline long double midpoint_above(float v)
{
	long double a = v, b = v == std::numeric_limits<float>::max() ? 0x1p128L : (long double)std::nextafterf(v, INFINITY);
	return (a + b) / 2;
}

// d[.]ddd digits and decimal exponent: value = 0.DIGITS * 10^exp10
struct Dec { std::string d; int e = 0; };

inline Dec exact(long double v) // v > 0
{
	static thread_local char b[1400];
	// at most 767 digits for double midpoints
	int n = std::snprintf(b, sizeof b, "%.800Le", v);
	Dec r; char* ex = std::strchr(b, 'e');
	r.e = std::atoi(ex + 1) + 1;
	(void)n;
	for (char* c = b; c < ex; ++c) if (*c != '.') r.d += *c;
	while (r.d.size() > 1 && r.d.back() == '0') r.d.pop_back();
	return r;
}

// decimal increment/decrement of the last digit
inline void bump(Dec& x, int dir)
{
	std::size_t i = x.d.size();
	while (i-- > 0)
	{
		if (dir > 0) { if (x.d[i] == '9') x.d[i] = '0'; else { ++x.d[i]; return; } }
		else { if (x.d[i] == '0') x.d[i] = '9'; else { --x.d[i]; return; } }
	}
	if (dir > 0) { x.d.insert(x.d.begin(), '1'); ++x.e; }
}

inline std::string zeros(std::size_t n) { return std::string(n, '0'); }

// spelt exponent part for the value e; may be empty for 0
inline std::string exp_part(Rng& r, long e)
{
	if (e == 0 && r.chance(2)) return "";
	std::string s(1, r.chance(3) ? 'E' : 'e');
	if (e < 0) s += '-'; else if (r.chance(3)) s += '+';
	else if (e == 0 && r.chance(4)) s += '-';
	if (r.chance(5)) s += zeros(1 + r.below(!r.chance(8) ? 4 : r.chance(3) ? 40 : r.chance(50) ? 3000 : 300));
	s += std::to_string(e < 0 ? -e : e);
	return s;
}

// One of the many spellings of x: position of the point, extra zeros, exponent.
inline std::string spell(Rng& r, const Dec& x, int style = -1)
{
	const int n = int(x.d.size());
	if (style < 0) style = int(r.below(8));
	const int lead = r.chance(4) ? int(r.below(r.chance(8) ? 400 : 12)) : 0;   // superfluous leading zeros
	const int trail = r.chance(4) ? int(r.below(r.chance(8) ? 400 : 30)) : 0;  // superfluous trailing zeros of the fraction
	int dot; // number of digits before the point
	switch (style)
	{
	case 0: dot = 1; break;
	case 1: dot = n; break;
	case 2: dot = 0; break;
	case 3: dot = r.range(0, n); break;
	case 4: dot = (x.e > -40 && x.e < 400) ? x.e : 1; break;                // no exponent needed
	case 5: dot = -int(r.below(r.chance(10) ? 1000 : 30)); break;           // 0.000ddd
	case 6: dot = n + int(r.below(r.chance(10) ? 1000 : 30)); break;        // ddd000
	default: dot = (r.chance(4) && x.e > -900 && x.e < 900) ? x.e : 1; break;
	}
	std::string s = zeros(lead);
	if (dot <= 0)
	{
		if (lead == 0 && r.chance(2)) s += '0';
		s += '.'; s += zeros(std::size_t(-dot)); s += x.d; s += zeros(trail);
	}
	else if (dot >= n)
	{
		s += x.d; s += zeros(std::size_t(dot - n));
		if (trail || r.chance(4)) { s += '.'; s += zeros(trail); }
	}
	else
	{
		s += x.d.substr(0, dot); s += '.'; s += x.d.substr(dot); s += zeros(trail);
	}
	s += exp_part(r, long(x.e) - dot);
	if (s.size() > 2000) return spell(r, x, 0);
	return s;
}

inline std::string digits(Rng& r, int n, bool nz_first = true)
{
	std::string s; for (int i = 0; i < n; ++i) s += char('0' + r.below(10));
	if (nz_first && n) s[0] = char('1' + r.below(9));
	return s;
}

template<typename T> inline int expo(Rng& r)
{
	const int lo = P<T>::min10, hi = P<T>::max10 + 1;
	switch (r.below(16))
	{
	case 0: return r.range(lo - 4, lo + 20);
	case 1: return r.range(hi - 6, hi + 3);
	case 2: return r.range(-5, 25);
	case 3: return r.range(P<T>::min_k - 3, P<T>::min_k + 25);
	default: return r.range(lo, hi);
	}
}

constexpr int families = 19;
inline const char* family_name(int f)
{
	static const char* n[families] = { "few digits", "dot anywhere", "shortest form", "printf form", "midpoint", "midpoint varied",
		"exact expansion", "zero runs", "exponent spelling", "range limits", "integer limits", "repeated digits", "very long",
		"tail pattern", "below power of two", "capacity edge", "tiny grid", "midpoint prefix", "length limit" };
	return n[f];
}

template<typename T> inline Dec near_limit(Rng& r)
{
	using L = std::numeric_limits<T>;
	long double v;
	switch (r.below(6))
	{
	case 0: v = L::max(); break;
	case 1: v = midpoint_above(L::max()); break;
	case 2: v = L::min(); break;
	case 3: v = L::denorm_min(); break;
	case 4: v = (long double)L::denorm_min() / 2; break;
	default: v = midpoint_above(T(L::min() - L::denorm_min())); break;
	}
	return exact(v);
}

template<typename T> inline void vary(Rng& r, Dec& x)
{
	switch (r.below(9))
	{
	case 0: break;
	case 1: { std::size_t n = 1 + r.below(P<T>::kappa + 6); if (x.d.size() > n) x.d.resize(n); break; }
	case 2: { std::size_t n = 1 + r.below(P<T>::kappa + 6); if (x.d.size() > n) x.d.resize(n); bump(x, 1); break; }
	case 3: bump(x, 1); break;
	case 4: bump(x, -1); break;
	case 5: x.d += zeros(r.below(r.chance(4) ? 1000 : 40)); x.d += char('1' + r.below(9)); break;
	case 6: { std::size_t n = 1 + r.below(x.d.size()); x.d.resize(n); break; }
	case 7: { std::size_t n = 1 + r.below(x.d.size()); x.d.resize(n); bump(x, 1); break; }
	case 8: bump(x, -1); x.d += std::string(1 + r.below(300), '9'); break;
	}
	if (x.d.find_first_not_of('0') == std::string::npos) x.d[0] = '1';
	// a digit string may get a zero in front (after a decrement): harmless
}

// Text right up to the longest supported length (2048 with the sign), everything in it counts.
template<typename T> inline std::string length_limit(Rng& r)
{
	const std::size_t L = 2047 - (r.chance(2) ? 0 : r.below(60));
	const long x = expo<T>(r); // 0.DIGITS * 10^x
	std::string d, m, e;
	auto fits = [&](std::size_t k) { return k + e.size() <= L; };
	switch (r.below(7))
	{
	case 0: // ddd000...000e-
	case 1: // 0.000...000ddde+
	{
		d = digits(r, r.range(1, P<T>::kappa + 3));
		const bool frac = r.chance(2);
		for (std::size_t k = L - d.size() - 3; k > 0; --k)
		{
			e = "e" + std::to_string(frac ? x + long(k) : x - long(k) - long(d.size()));
			if (frac ? fits(d.size() + 2 + k) : fits(d.size() + k)) { m = frac ? "0." + zeros(k) + d : d + zeros(k); break; }
		}
		break;
	}
	case 2: case 3: // midpoint and something at the very end
	{
		Dec y = exact(midpoint_above(std::fabs(finite_value<T>(r))));
		e = "e" + std::to_string(y.e - 1);
		const std::size_t room = L - e.size() - 1;
		if (y.d.size() < room) { y.d += zeros(room - y.d.size()); switch (r.below(3)) { case 0: y.d.back() = '1'; break; case 1: bump(y, -1); if (y.d[0] == '0') y.d[0] = '1'; break; default: break; } }
		m = y.d.substr(0, 1) + "." + y.d.substr(1);
		break;
	}
	case 4: // any digits
	{
		e = r.chance(2) ? "" : "e" + std::to_string(x - 300);
		d = digits(r, int(L - e.size() - 1)); m = d; m.insert(r.below(d.size() + 1), ".");
		if (e.empty()) { const std::size_t z = m.find('.'); if (z > 200) { m.erase(z, 1); m.insert(r.below(200), "."); } }
		break;
	}
	case 5: // superfluous zeros
		d = digits(r, r.range(1, P<T>::kappa + 3)); e = "e" + std::to_string(x - long(d.size()));
		if (L > d.size() + e.size() + 1) m = r.chance(2) ? zeros(L - d.size() - e.size()) + d : d + "." + zeros(L - d.size() - e.size() - 1);
		break;
	default: // and in the exponent
		m = digits(r, r.range(1, P<T>::kappa + 3));
		e = std::to_string(std::labs(x - long(m.size()))); e = std::string(x < long(m.size()) ? "e-" : "e+") + zeros(L - m.size() - e.size() - 2) + e;
		break;
	}
	return m + e;
}

// A number text without sign and suffix.
template<typename T> inline std::string number(Rng& r, int family)
{
	Dec x;
	switch (family)
	{
	case 0:
	{
		x.d = digits(r, r.range(1, P<T>::kappa + 3)); x.e = expo<T>(r);
		std::string s = x.d; s += 'e'; s += std::to_string(x.e - int(x.d.size())); return s;
	}
	case 1: x.d = digits(r, r.range(1, P<T>::kappa + 8)); x.e = expo<T>(r); return spell(r, x, 3);
	case 2: { char b[64]; T v = std::fabs(finite_value<T>(r)); auto q = std::to_chars(b, b + 64, v); return std::string(b, q.ptr); }
	case 3:
	{
		char b[512]; T v = std::fabs(finite_value<T>(r));
		const int p = r.chance(2) ? P<T>::digits : int(r.below(45));
		const char* f = r.chance(2) ? "%.*g" : r.chance(2) ? "%.*e" : "%.*f";
		std::snprintf(b, sizeof b, f, p, double(v)); return b;
	}
	case 4: case 5: case 17:
	{
		T v = std::fabs(finite_value<T>(r));
		x = exact(midpoint_above(v));
		if (family == 5) vary<T>(r, x);
		if (family == 17) // midpoints which fit few digits: integers and short fractions
		{
			std::size_t n = std::size_t(r.range(P<T>::kappa - 2, P<T>::kappa + 4));
			if (x.d.size() > n) { x.d.resize(n); int k = r.range(-2, 2); while (k > 0) { bump(x, 1); --k; } while (k < 0) { bump(x, -1); ++k; } }
			if (r.chance(3)) x.d += digits(r, r.range(1, 6), false);
		}
		return spell(r, x);
	}
	case 6:
	{
		T v = std::fabs(finite_value<T>(r)); if (v == 0) v = 1;
		x = exact((long double)v); if (r.chance(2)) vary<T>(r, x); return spell(r, x);
	}
	case 7:
	{
		// leading, middle and trailing runs of zeros around few digits
		const int a = r.range(1, P<T>::kappa + 2), b = r.range(0, P<T>::kappa + 2), run = int(r.below(r.chance(6) ? 1200 : 40));
		x.d = digits(r, a) + zeros(run) + (b ? digits(r, b) : ""); if (r.chance(3)) x.d += zeros(r.below(30));
		x.e = r.chance(2) ? expo<T>(r) : r.range(-20, 40);
		return spell(r, x);
	}
	case 8:
	{
		x.d = digits(r, r.range(1, P<T>::kappa + 2));
		std::string s = x.d; if (r.chance(3)) s.insert(r.below(s.size() + 1), ".");
		static const char* ex[] = { "e308", "e-308", "e309", "e-324", "e-325", "e400", "e-400", "e99999", "e-99999", "e100000", "e-100000", "e100001", "e2147483647", "e-2147483648",
			"e2147483648", "e4294967296", "e-4294967297", "e9223372036854775808", "e-9223372036854775808", "e18446744073709551616", "e99999999999999999999999999", "e-99999999999999999999999999",
			"e0", "e-0", "e+0", "e00000000000000000000000000000000000000001", "E-00000000000000000000000000000000000000000002", "e343", "e-343", "e344", "e-344", "e50", "e-50", "e51", "e-51", "e-45", "e38", "e39", "e1000000000", "e-65536", "e65536", "e256", "e-256", "e32768", "e-32769" };
		if (r.chance(2)) return s + ex[r.below(sizeof ex / sizeof *ex)];
		return s + exp_part(r, r.chance(3) ? long(r.below(u64(1) << r.below(33))) * (r.chance(2) ? 1 : -1) : long(expo<T>(r)));
	}
	case 9: x = near_limit<T>(r); vary<T>(r, x); return spell(r, x);
	case 10:
	{
		static const u64 lim[] = { 10, 255, 256, 999, 1000, 65535, 65536, 16777216, 16777217, 33554432, 99999999, 100000000, 999999999, 1000000000, 2147483647, 2147483648u, 4294967295u, 4294967296u, 9999999999ull,
			9007199254740992ull, 9007199254740993ull, 18014398509481984ull, 9999999999999999ull, 99999999999999999ull, 999999999999999999ull, 1000000000000000000ull, 9223372036854775807ull, 9223372036854775808ull, 9999999999999999999ull, 18446744073709551615ull };
		u64 v = r.chance(3) ? (u64(1) << r.below(64)) + (r() >> (11 + r.below(52))) : lim[r.below(sizeof lim / sizeof *lim)];
		v += u64(r.range(-6, 6));
		x.d = std::to_string(v); x.e = int(x.d.size());
		if (r.chance(3)) x.d += digits(r, r.range(1, 8), false);
		if (r.chance(3)) x.e += r.range(-30, 30);
		return spell(r, x);
	}
	case 11:
	{
		const int n = r.range(1, r.chance(6) ? 900 : 40); const char c = char('1' + r.below(9));
		x.d = std::string(n, c);
		if (r.chance(3)) x.d = "1" + zeros(n);
		if (r.chance(3)) x.d[x.d.size() - 1] = char('0' + r.below(10));
		if (r.chance(4)) x.d += digits(r, 3);
		x.e = expo<T>(r);
		return spell(r, x);
	}
	case 12:
	{
		x.d = digits(r, r.range(40, r.chance(3) ? 1900 : 200)); x.e = expo<T>(r); return spell(r, x);
	}
	case 13:
	{
		// digits up to the capacity followed by a telling tail, decimal exponent often zero
		static const char* tail[] = { "0000", "0001", "4999", "5000", "5001", "9999", "99999", "00009", "5", "49", "51", "4", "6", "9", "0625", "1875", "9375", "50000000000001", "49999999999999" };
		const int keep = P<T>::kappa + r.range(-1, 1);
		x.d = digits(r, keep) + tail[r.below(sizeof tail / sizeof *tail)];
		const int dot = r.chance(2) ? keep : r.range(0, int(x.d.size()));
		std::string s = x.d.substr(0, dot) + "." + x.d.substr(dot);
		if (r.chance(3)) s += exp_part(r, r.range(-int(P<T>::kappa), int(P<T>::kappa)));
		else if (r.chance(3)) s += exp_part(r, expo<T>(r) - dot);
		return s;
	}
	case 14:
	{
		// just below or above 2^e, in 15..30 digits
		const int lo = sizeof(T) == 8 ? -1074 : -149, hi = sizeof(T) == 8 ? 1024 : 128;
		const int e = r.range(lo - 1, hi);
		x = exact(std::ldexp((long double)1, e)); const std::size_t n = std::size_t(r.range(P<T>::digits - 2, P<T>::digits + 13));
		if (x.d.size() < n) x.d += zeros(n - x.d.size()); else x.d.resize(n);
		for (int k = r.range(-3, 3), d = k > 0 ? 1 : -1; k; k -= d) bump(x, d);
		return spell(r, x);
	}
	case 15:
	{
		// mantissa right at the capacity of the integer type
		static const char* m64[] = { "18446744073709551615", "18446744073709551616", "1844674407370955161", "9223372036854775807", "9223372036854775808", "9999999999999999999", "1000000000000000000", "4611686018427387904", "1152921504606846976" };
		static const char* m32[] = { "4294967295", "4294967296", "429496729", "2147483647", "2147483648", "999999999", "100000000", "1073741824", "134217728", "268435456", "536870912" };
		x.d = sizeof(T) == 8 ? m64[r.below(9)] : m32[r.below(11)];
		for (int k = r.range(-5, 5), d = k > 0 ? 1 : -1; k; k -= d) bump(x, d);
		if (r.chance(2)) x.d += digits(r, r.range(1, 5), false);
		x.e = r.chance(2) ? int(x.d.size()) : expo<T>(r);
		return spell(r, x);
	}
	case 18: return length_limit<T>(r);
	default: // 16
	{
		std::string s = std::to_string(r.below(r.chance(2) ? 100 : 10000));
		s += 'e'; s += std::to_string(r.range(P<T>::min10 - 6, P<T>::max10 + 3)); return s;
	}
	}
}

// family mix: cheap families often, expensive ones sometimes
template<typename T> inline int pick_family(Rng& r)
{
	static const unsigned char w[] = { 0,0,0,0,0,0, 1,1,1, 2,2,2, 3, 4, 5,5, 6, 7,7, 8, 9, 10,10, 11, 12, 13,13, 14, 15, 16, 17,17, 18 };
	return w[r.below(sizeof w)];
}
template<typename T> inline std::string number(Rng& r) { return number<T>(r, pick_family<T>(r)); }

// what may follow a number
inline std::string suffix(Rng& r)
{
	static const char* s[] = { "", "", "", "", " ", ",", ";", "e", "E", "e+", "e-", "E-x", "ex", ".", "..", ".5", "x", "f", "L", "p3", "-", "+", "-1", "+1", "]", "}", "\n", "\t1", " 1e5", "e+-1", "e 5", "einf", "enan", "nan", "inf", "i", "n", "_", "/", ":", "%", "\x7f", "\x80", "\xff", "\xb2", "\xd9\xa1" };
	if (r.chance(12)) return std::string(1, char(1 + r.below(255)));
	return s[r.below(sizeof s / sizeof *s)];
}
inline std::string sign(Rng& r) { switch (r.below(6)) { case 0: case 1: return "-"; case 2: return "+"; default: return ""; } }

// special words with noise around
inline std::string special(Rng& r)
{
	static const char* w[] = { "nan", "inf", "infinity", "nan()", "nan(0)", "nan(0x1)", "nan(abc_123)", "nan(", "nan(a", "nan(a b)", "nan(-)", "nan(.)", "infinit", "infini", "infin", "infi", "in", "i", "n", "na", "nanq", "nan1", "inf1", "infinityy", "infinity1", "inff", "nann", "nan((", "nan())", "iNf", "ni", "ina", "nin", "nan(_)", "infinitx", "infxnity", "infnity", "indinity", "nan(ABCXYZabcxyz_0189)", "snan", "1nan", "1inf", ".nan", ".inf", "0inf", "infe5", "nane5", "inf.", "nan.", "nan)", "inf()" };
	std::string s = w[r.below(sizeof w / sizeof *w)];
	if (r.chance(8)) { s = "nan("; const int n = r.range(0, 60); static const char* a = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"; for (int i = 0; i < n; ++i) s += a[r.below(63)]; if (r.chance(6)) s += char(33 + r.below(94)); if (!r.chance(6)) s += ')'; }
	for (auto& c : s) if (c >= 'a' && c <= 'z' && r.chance(2)) c = char(c - 32);
	if (r.chance(10) && !s.empty()) s[r.below(s.size())] = char(1 + r.below(255));
	return sign(r) + s + (r.chance(2) ? "" : suffix(r));
}

// arbitrary noise over the interesting characters
inline std::string noise(Rng& r, int maxlen)
{
	static const char a[] = "0123456789000999..eE+-+-nNaAiIfFtTyY()_ \tx,";
	std::string s; const int n = r.range(0, maxlen);
	for (int i = 0; i < n; ++i) s += r.chance(20) ? char(1 + r.below(255)) : a[r.below(sizeof a - 1)];
	return s;
}

// any text: mostly a number with sign and suffix
template<typename T> inline std::string text(Rng& r)
{
	const u64 k = r.below(16);
	if (k == 0) return special(r);
	if (k == 1) return noise(r, r.chance(8) ? 60 : 10);
	return sign(r) + number<T>(r) + suffix(r);
}
} // namespace gen

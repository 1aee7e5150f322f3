// Reference side of the monitors: an independently written scanner of the
// documented number syntax, value oracles (C library and std::from_chars) and
// small helpers. Nothing here uses the library under test.
#pragma once
#include "vk.hpp"
#include <charconv>
#include <system_error>

namespace ref
{
using namespace vk;

enum Kind { nothing, number, nan_, inf_ };

struct Scan
{
	Kind kind = nothing;
	std::size_t end = 0;     // consumed characters
	bool neg = false;
	bool zero = true;        // all digits are zero (numbers)
	std::size_t digits = 0;  // all digits of the mantissa
};

template<typename C> inline bool is_digit(C c) { return c >= C('0') && c <= C('9'); }
template<typename C> inline bool is_ci(C c, char lower) { return c == C(lower) || c == C(lower - 'a' + 'A'); }

// longest prefix: [sign] ( digits[.digits] | .digits ) [ (e|E) [sign] digits ] | [sign] nan[(seq)] | [sign] inf[inity]
template<typename C> inline Scan scan(const C* s)
{
	Scan r; std::size_t i = 0;
	if (s[0] == C('+') || s[0] == C('-')) { r.neg = s[0] == C('-'); i = 1; }
	if (is_ci(s[i], 'n') && is_ci(s[i + 1], 'a') && is_ci(s[i + 2], 'n'))
	{
		r.kind = nan_; r.end = i + 3;
		if (s[r.end] == C('('))
		{
			std::size_t j = r.end + 1;
			while (is_digit(s[j]) || (s[j] >= C('a') && s[j] <= C('z')) || (s[j] >= C('A') && s[j] <= C('Z')) || s[j] == C('_')) ++j;
			if (s[j] == C(')')) r.end = j + 1;
		}
		return r;
	}
	if (is_ci(s[i], 'i') && is_ci(s[i + 1], 'n') && is_ci(s[i + 2], 'f'))
	{
		r.kind = inf_; r.end = i + 3;
		const char* rest = "inity";
		std::size_t j = 0;
		while (rest[j] && is_ci(s[r.end + j], rest[j])) ++j;
		if (!rest[j]) r.end += 5;
		return r;
	}
	std::size_t j = i;
	for (; is_digit(s[j]); ++j) { ++r.digits; if (s[j] != C('0')) r.zero = false; }
	if (s[j] == C('.'))
	{
		std::size_t k = j + 1;
		for (; is_digit(s[k]); ++k) { ++r.digits; if (s[k] != C('0')) r.zero = false; }
		if (r.digits) j = k;
	}
	if (!r.digits) { r.neg = false; return r; }
	r.kind = number; r.end = j;
	if (is_ci(s[j], 'e'))
	{
		std::size_t k = j + 1;
		if (s[k] == C('+') || s[k] == C('-')) ++k;
		if (is_digit(s[k])) { while (is_digit(s[k])) ++k; r.end = k; }
	}
	return r;
}

inline double c_strto(const char* s, double) { return std::strtod(s, nullptr); }
inline float c_strto(const char* s, float) { return std::strtof(s, nullptr); }

extern u64 oracle_disagreements;
// Correctly rounded value of the number in [s, s + n) (syntax known to be valid).
template<typename T> inline T value_of(const char* s, std::size_t n, bool cross_check = false)
{
	T v = 0;
	const char* b = s; const char* e = s + n;
	if (b != e && *b == '+') ++b;
	const auto fc = std::from_chars(b, e, v);
	if (fc.ec == std::errc() && fc.ptr == e && !cross_check) return v;
	const std::string copy(s, n);
	const int se = errno;
	const T c = c_strto(copy.c_str(), T());
	errno = se;
	if (fc.ec == std::errc() && (fc.ptr != e || to_bits(c) != to_bits(v))) ++oracle_disagreements;
	return c;
}

enum Status { st_success, st_underflow, st_overflow };
inline const char* status_name(int s) { return s == 0 ? "success" : s == 1 ? "underflow" : s == 2 ? "overflow" : "?"; }

template<typename T> struct Expected { T value = 0; Status status = st_success; std::size_t end = 0; Kind kind = nothing; bool neg = false, zero = false; };

// what parsing of the terminated text must give
template<typename T> inline Expected<T> expect(const char* s, bool cross_check = false)
{
	Expected<T> r; const Scan sc = scan(s);
	r.kind = sc.kind; r.end = sc.end; r.neg = sc.neg; r.zero = sc.zero;
	switch (sc.kind)
	{
	case nothing: break;
	case nan_: r.value = std::numeric_limits<T>::quiet_NaN(); break;
	case inf_: r.value = sc.neg ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::infinity(); break;
	case number:
		if (sc.zero) { r.value = sc.neg ? -T(0) : T(0); break; }
		r.value = value_of<T>(s, sc.end, cross_check);
		if (r.value == 0) r.status = st_underflow;
		else if (std::isinf(r.value)) r.status = st_overflow;
		break;
	}
	return r;
}

template<typename T> inline bool quiet(T a) { return !std::isnan(a) || (to_bits(a) >> (std::numeric_limits<T>::digits - 2) & 1); }
// equal bits, or both quiet NaNs
template<typename T> inline bool same(T a, T b) { return (std::isnan(a) && std::isnan(b) && quiet(a) == quiet(b)) || to_bits(a) == to_bits(b); }

template<typename T> inline std::string vshow(T v)
{
	char b[96]; std::snprintf(b, sizeof b, "%.17g(%a,0x%llx)", double(v), double(v), (unsigned long long)to_bits(v)); return b;
}

template<typename T> struct tn;
template<> struct tn<float> { static const char* name() { return "float"; } };
template<> struct tn<double> { static const char* name() { return "double"; } };

inline std::wstring widen(const std::string& s) { std::wstring r; for (unsigned char c : s) r += wchar_t(c); return r; }

// significant decimal digits of a number text: count, without leading and trailing zeros
inline int sig_digits(const char* s, std::size_t n)
{
	int first = -1, last = -1, k = 0;
	for (std::size_t i = 0; i < n && s[i] != 'e' && s[i] != 'E'; ++i)
		if (is_digit(s[i])) { if (s[i] != '0') { if (first < 0) first = k; last = k; } ++k; }
	return first < 0 ? 1 : last - first + 1;
}
} // namespace ref

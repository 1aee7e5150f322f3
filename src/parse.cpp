// Monitors of the parsing side: C07 .. C13, C22, C23, C24 (one per run, --check).
#include <floaxie/atof.h>
#include <floaxie/ftoa.h>
#include "gen.hpp"
#include <functional>

using namespace vk;
u64 ref::oracle_disagreements = 0;

template<typename T> using U = typename gen::P<T>::U;
static std::string g_check;

// ---- one parse
template<typename T> struct Got { T value; int status; long end; };

template<typename T, typename C> inline Got<T> parse(const C* s)
{
	C* e = reinterpret_cast<C*>(8);
	const auto r = floaxie::atof<T>(s, &e);
	return Got<T>{ r.value, int(r.status), long(e - s) };
}

// recorded case: kind letter, then the text (wide: 4 bytes per character)
template<typename T, typename C> inline std::string enc(const std::basic_string<C>& s, char extra = 0)
{
	std::string r(1, sizeof(C) == 1 ? (sizeof(T) == 8 ? 'd' : 'f') : (sizeof(T) == 8 ? 'D' : 'F'));
	if (extra) r = std::string(1, extra) + r;
	r.append(reinterpret_cast<const char*>(s.data()), s.size() * sizeof(C));
	return r;
}
template<typename C> inline std::string text_of(const std::basic_string<C>& s)
{
	std::string r; for (auto c : s) { if (sizeof(C) == 1 || u32(c) < 128) r += char(c); else { char b[16]; std::snprintf(b, 16, "<U+%X>", unsigned(c)); r += b; } }
	if (r.size() > 160) r = r.substr(0, 100) + "...(" + std::to_string(s.size()) + " characters)..." + r.substr(r.size() - 40);
	return r;
}
template<typename T, typename C> inline std::string head(const std::basic_string<C>& s) { return std::string(ref::tn<T>::name()) + (sizeof(C) > 1 ? " wide '" : " '") + text_of(s) + "'"; }

template<typename T, typename C> inline ref::Expected<T> expect(const std::basic_string<C>& s, bool cross)
{
	const ref::Scan sc = ref::scan(s.c_str());
	std::string narrow;
	narrow.reserve(sc.end);
	for (std::size_t i = 0; i < sc.end; ++i) narrow += char(s[i]);
	ref::Expected<T> r = ref::expect<T>(narrow.c_str(), cross);
	if (sc.end == 0) r = ref::Expected<T>();
	return r;
}

static bool is(const char* c) { return g_check == c; }

// judges one text for the property under check
template<typename T, typename C> void judge(Shard& s, const std::basic_string<C>& t, bool cross)
{
	const std::string e = enc<T>(t);
	s.begin(e);
	const Got<T> g = parse<T>(t.c_str());
	const ref::Expected<T> x = expect<T>(t, cross);
	auto result = [&] { return " gave " + ref::vshow(g.value) + ", " + ref::status_name(g.status) + ", " + std::to_string(g.end) + " characters; expected " + ref::vshow(x.value) + ", " + ref::status_name(x.status) + ", " + std::to_string(x.end); };
	if (s.distinct(hash_bytes(e.data(), e.size())))
	{
		switch (x.kind)
		{
		case ref::nothing: s.count("not_a_number"); break;
		case ref::nan_: s.count("nan"); break;
		case ref::inf_: s.count("inf"); break;
		case ref::number: s.count(x.zero ? "zeros" : x.status == ref::st_overflow ? "overflows" : x.status == ref::st_underflow ? "underflows" : std::fabs(x.value) < std::numeric_limits<T>::min() ? "subnormals" : "normals");
		}
		if (x.end < t.size()) s.count("with_rest");
	}

	if (is("C07") || is("C08"))
	{
		if (x.kind == ref::number && !x.zero && !ref::same(g.value, x.value)) s.fail("value", e, head<T>(t) + result());
		if (x.kind == ref::number && x.zero && !ref::same(g.value, x.value)) s.fail("zero", e, head<T>(t) + result());
	}
	else if (is("C09"))
	{
		if (g.end != long(x.end)) s.fail("extent", e, head<T>(t) + result());
		else if (x.kind == ref::nothing && !(g.value == 0 && g.status == 0)) s.fail("notnumber", e, head<T>(t) + result());
	}
	else if (is("C10"))
	{
		if (x.kind == ref::number && g.status != int(x.status)) s.fail("status", e, head<T>(t) + result());
		else if (x.status != ref::st_success && !ref::same(g.value, x.value)) s.fail("rangevalue", e, head<T>(t) + result());
		else if (x.kind != ref::number && g.status != 0) s.fail("status", e, head<T>(t) + result());
	}
	else if (is("C11"))
	{
		if (x.kind == ref::nan_ || x.kind == ref::inf_)
		{
			if (!ref::same(g.value, x.value) || g.status != 0 || g.end != long(x.end)) s.fail("special", e, head<T>(t) + result());
			else if (std::signbit(g.value) != x.neg) s.fail("specialsign", e, head<T>(t) + result() + ", with the sign of the text");
		}
		else if (std::isnan(g.value) || (std::isinf(g.value) && x.status != ref::st_overflow) || (x.kind == ref::nothing && (g.end != 0 || g.value != 0))) s.fail("notspecial", e, head<T>(t) + result());
	}
}

// non-ASCII characters which look like ASCII ones to sloppy code: same low byte, other digits, case pairs
static std::wstring noise_wide(Rng& r, std::wstring t)
{
	static const u32 odd[] = { 0x130, 0x131, 0x212a, 0xff10, 0xff11, 0xff19, 0x660, 0x661, 0x6f0, 0x966, 0xff0e, 0xff0b, 0xff0d, 0x2212, 0xff25, 0xff45, 0x3000, 0xa0, 0x10ffff, 0x10030, 0x1d7ce, 0x1d7d0, 0xb2, 0xb9, 0x2460, 0x80000000, 0x80000001, 0x8000002f, 0x80000030, 0x7fffffff, 0xffffffff, 0xffffffd0, 0xffff0035 };
	const int n = 1 + int(r.below(2));
	for (int i = 0; i < n; ++i)
	{
		const std::size_t p = r.below(t.size() + 1);
		wchar_t c;
		if (r.chance(2) && p < t.size()) c = wchar_t(u32(t[p]) ^ (u32(1) << (7 + r.below(25))));
		else if (r.chance(2)) { static const char a[] = "0123456789.eE+-nNaAiIfF(_)tTyY "; c = wchar_t(u32(a[r.below(sizeof a - 1)]) + 0x100 * u32(1 + r.below(0x10fe))); }
		else c = wchar_t(odd[r.below(sizeof odd / sizeof *odd)]);
		if (!c) c = 0x80;
		if (r.chance(2) && p < t.size()) t[p] = c; else t.insert(p, 1, c);
	}
	return t;
}

template<typename T> void any_text(Shard& s, const std::string& t, bool cross)
{
	judge<T, char>(s, t, cross);
	if (s.rng.chance(6))
	{
		judge<T, wchar_t>(s, ref::widen(t), false);
		if (is("C09") || is("C11")) judge<T, wchar_t>(s, noise_wide(s.rng, ref::widen(t)), false);
	}
}

// ---- C07/C08 and others: random number texts
template<typename T> void numbers(Shard& s, u64 n, bool with_suffix)
{
	for (u64 i = 0; i < n && !s.stopped(); ++i)
	{
		const int f = (i % 61) < gen::families ? int(i % 61) : gen::pick_family<T>(s.rng);
		std::string t = gen::sign(s.rng) + gen::number<T>(s.rng, f);
		if (with_suffix) t += gen::suffix(s.rng);
		if (i < 2) s.sample(head<T>(t));
		any_text<T>(s, t, (i & 31) == 0);
	}
}

// cheap families in bulk
template<typename T> void bulk(Shard& s, u64 n)
{
	static const int f[] = { 0, 0, 0, 1, 2, 10, 13, 15, 16 };
	for (u64 i = 0; i < n && !s.stopped(); ++i)
		judge<T, char>(s, gen::sign(s.rng) + gen::number<T>(s.rng, f[s.rng.below(9)]), false);
}

// every decimal exponent with telling digit strings
template<typename T> void exponent_grid(Shard& s, int k, int randoms)
{
	char b[64];
	for (int n = 1; n <= gen::P<T>::kappa + 2; ++n)
	{
		for (int j = 0; j < 4 + randoms; ++j)
		{
			std::string d = j == 0 ? "1" + gen::zeros(n - 1) : j == 1 ? std::string(n, '9') : j == 2 ? gen::zeros(n - 1) + "5" : j == 3 ? "1" + std::string(n - 1, '3') : gen::digits(s.rng, n);
			std::snprintf(b, sizeof b, "e%d", k);
			any_text<T>(s, d + b, j == 3);
		}
	}
	s.count(sizeof(T) == 8 ? "decimal_exponents_double" : "decimal_exponents_float");
}

// ---- C09: every short text over an alphabet
template<typename T, typename C> void enumerate(Shard& s, const char* alphabet, int len, u64 part, u64 parts)
{
	const u64 a = std::strlen(alphabet); u64 total = 1; for (int i = 0; i < len; ++i) total *= a;
	std::basic_string<C> t; t.resize(std::size_t(len));
	for (u64 k = part; k < total && !s.stopped(); k += parts)
	{
		u64 q = k; for (int i = 0; i < len; ++i) { t[std::size_t(i)] = C(alphabet[q % a]); q /= a; }
		judge<T, C>(s, t, false);
	}
	s.count("enumerated_texts", total / parts);
}
// every character at every place of short numbers
template<typename T, typename C> void every_char(Shard& s, const std::string& base)
{
	std::basic_string<C> t(base.begin(), base.end());
	for (std::size_t p = 0; p <= t.size(); ++p) for (int c = 1; c < 256; ++c)
	{
		std::basic_string<C> v = t; v.insert(p, 1, C(sizeof(C) == 1 ? char(c) : c)); judge<T, C>(s, v, false);
		if (p < t.size()) { v = t; v[p] = C(sizeof(C) == 1 ? char(c) : c); judge<T, C>(s, v, false); }
		if (sizeof(C) > 1)
		{
			v = t; v.insert(p, 1, C(c + 0x100)); judge<T, C>(s, v, false); v[p] = C(c + 0x10000); judge<T, C>(s, v, false);
			v[p] = C(c + 0x300); judge<T, C>(s, v, false);
		}
	}
	s.count("every_character_sweeps");
}

// ---- C11: every case mixture of the words
template<typename T, typename C> void words(Shard& s, const std::string& w, unsigned from, unsigned step)
{
	for (unsigned m = from; m < (1u << w.size()); m += step) for (int sg = 0; sg < 3; ++sg)
	{
		std::string t = w; for (std::size_t i = 0; i < w.size(); ++i) if (m >> i & 1) t[i] = char(t[i] - 32);
		t = std::string(sg == 0 ? "" : sg == 1 ? "-" : "+") + t;
		judge<T, C>(s, std::basic_string<C>(t.begin(), t.end()), false);
		for (int c = 1; c < 256; ++c) { std::basic_string<C> v(t.begin(), t.end()); v += C(sizeof(C) == 1 ? char(c) : c); judge<T, C>(s, v, false); if (sizeof(C) > 1) { v.back() = C(c + 256); judge<T, C>(s, v, false); } }
		// truncations and single replacements
		for (std::size_t p = 0; p < t.size(); ++p)
		{
			judge<T, C>(s, std::basic_string<C>(t.begin(), t.begin() + long(p)), false);
			for (int c = 1; c < 256; c += (m == 0 ? 1 : 1 + int(s.rng.below(24)))) { std::basic_string<C> v(t.begin(), t.end()); v[p] = C(sizeof(C) == 1 ? char(c) : c); judge<T, C>(s, v, false); if (sizeof(C) > 1) { v[p] = C(u32((unsigned char)t[p]) + 0x100 * u32(c)); judge<T, C>(s, v, false); } }
		}
		s.count("case_mixtures");
	}
}
template<typename T, typename C> void nan_sequences(Shard& s, int n)
{
	for (int i = 0; i < n; ++i)
	{
		std::string t = gen::sign(s.rng) + (s.rng.chance(2) ? "nan(" : "NaN(");
		const int len = s.rng.chance(10) ? s.rng.range(0, 3000) : s.rng.range(0, 20);
		static const char a[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
		for (int k = 0; k < len; ++k) t += a[s.rng.below(63)];
		if (s.rng.chance(4)) { if (s.rng.chance(2)) t += char(1 + s.rng.below(255)); else t.insert(t.size() - s.rng.below(std::size_t(len) + 1), 1, char(1 + s.rng.below(255))); }
		if (!s.rng.chance(8)) t += ')';
		t += gen::suffix(s.rng);
		std::basic_string<C> v; for (unsigned char c : t) v += C(sizeof(C) == 1 ? char(c) : wchar_t(c));
		if (v.size() < 2040) judge<T, C>(s, v, false);
		s.count("nan_sequences");
	}
}

// ---- C12: entry points agree
// fallback for the character types the C library doesn't know
template<typename T, typename C> T narrowing_fallback(const C* str, C** end)
{
	static thread_local std::string n; n.clear();
	for (const C* c = str; *c; ++c) n += u32(*c) < 128 ? char(*c) : '\x01';
	char* q = nullptr; const T v = floaxie::default_fallback<T, char>(n.c_str(), &q);
	if (end) *end = const_cast<C*>(str) + (q - n.c_str());
	return v;
}
template<typename T> void forms(Shard& s, const std::string& t)
{
	const std::string e = enc<T>(t);
	s.begin(e);
	const std::wstring w = ref::widen(t);
	const Got<T> g = parse<T>(t.c_str());
	auto cmp = [&](const char* form, T v, floaxie::conversion_status st, long end)
	{
		if (!ref::same(v, g.value) || int(st) != g.status || (end >= 0 && end != g.end))
			s.fail(std::string("form_") + form, e, head<T>(t) + " by " + form + " gave " + ref::vshow(v) + ", " + ref::status_name(int(st)) + ", " + std::to_string(end) + "; by atof(char): " + ref::vshow(g.value) + ", " + ref::status_name(g.status) + ", " + std::to_string(g.end));
	};
	{ const Got<T> x = parse<T>(w.c_str()); cmp("atof(wchar_t)", x.value, floaxie::conversion_status(x.status), x.end); }
	{ const auto x = floaxie::atof<T>(t.c_str(), nullptr); cmp("atof(char,nullptr)", x.value, x.status, -1); }
	{ const auto x = floaxie::atof<T>(t.c_str(), static_cast<char**>(nullptr)); cmp("atof(char,null)", x.value, x.status, -1); }
	{ const auto x = floaxie::atof<T>(w.c_str(), nullptr); cmp("atof(wchar_t,nullptr)", x.value, x.status, -1); }
	{ const auto x = floaxie::atof<T>(w.c_str(), static_cast<wchar_t**>(nullptr)); cmp("atof(wchar_t,null)", x.value, x.status, -1); }
	{ const auto x = floaxie::from_string<T>(t); cmp("from_string(string)", x.value, x.status, -1); if (!ref::same(T(x), x.value)) s.fail("conversion", e, head<T>(t) + ": conversion of the result differs from its value"); }
	{ const auto x = floaxie::from_string<T>(w); cmp("from_string(wstring)", x.value, x.status, -1); }
	{ std::string z = t; z += '\0'; z += "123e4"; const auto x = floaxie::from_string<T>(z); cmp("from_string(embedded terminator)", x.value, x.status, -1); }
	{ std::wstring z = w; z += L'\0'; z += L"123e4"; const auto x = floaxie::from_string<T>(z); cmp("from_string(wide, embedded terminator)", x.value, x.status, -1); }
	{ std::string m = t; char* q = nullptr; const auto x = floaxie::atof<T>(&m[0], &q); cmp("atof(mutable)", x.value, x.status, q - &m[0]); }
	{ char* q = nullptr; const auto x = floaxie::atof<T>(t.c_str(), &q, floaxie::default_fallback<T, char>); cmp("atof(char,fallback)", x.value, x.status, q - t.c_str()); }
	{ wchar_t* q = nullptr; const auto x = floaxie::atof<T>(w.c_str(), &q, floaxie::default_fallback<T, wchar_t>); cmp("atof(wchar_t,fallback)", x.value, x.status, q - w.c_str()); }
	{ const auto x = floaxie::from_string<T>(t, floaxie::default_fallback<T, char>); cmp("from_string(string,fallback)", x.value, x.status, -1); }
	{ const auto x = floaxie::from_string<T>(w, floaxie::default_fallback<T, wchar_t>); cmp("from_string(wstring,fallback)", x.value, x.status, -1); }
	{
		const std::u16string u(w.begin(), w.end()); char16_t* q = nullptr;
		const auto x = floaxie::atof<T>(u.c_str(), &q, narrowing_fallback<T, char16_t>); cmp("atof(char16_t)", x.value, x.status, q - u.c_str());
		const auto y = floaxie::from_string<T>(u, narrowing_fallback<T, char16_t>); cmp("from_string(u16string)", y.value, y.status, -1);
		const std::u32string v(w.begin(), w.end()); char32_t* p = nullptr;
		const auto z = floaxie::atof<T>(v.c_str(), &p, [](const char32_t* a, char32_t** b) { return narrowing_fallback<T, char32_t>(a, b); }); cmp("atof(char32_t)", z.value, z.status, p - v.c_str());
		const auto k = floaxie::atof<T>(v.c_str(), nullptr, narrowing_fallback<T, char32_t>); cmp("atof(char32_t,null)", k.value, k.status, -1);
	}
	if (s.distinct(hash_bytes(e.data(), e.size()))) s.count(g.end == 0 ? "nothing_consumed" : g.status ? "range_errors" : std::isnan(g.value) || std::isinf(g.value) ? "specials" : "numbers");
	s.count("forms_compared", 18);
}

// ---- C13: the fallback contract
struct Call { const void* str; const void* end; };
template<typename T, typename C> struct Spy
{
	std::vector<Call>* calls; T give; std::size_t stop; int set_errno;
	T operator()(const C* str, C** end) const
	{
		calls->push_back(Call{ str, end });
		if (end) *end = const_cast<C*>(str) + stop;
		if (set_errno) errno = set_errno;
		return give;
	}
};
template<typename T, typename C> struct StaticSpy
{
	static std::vector<Call> calls; static T give; static std::size_t stop;
	static T fn(const C* str, C** end) { calls.push_back(Call{ str, end }); if (end) *end = const_cast<C*>(str) + stop; return give; }
};
template<typename T, typename C> std::vector<Call> StaticSpy<T, C>::calls;
template<typename T, typename C> T StaticSpy<T, C>::give;
template<typename T, typename C> std::size_t StaticSpy<T, C>::stop;

// returns whether the fallback was used
template<typename T, typename C> bool fallback_case(Shard& s, const std::basic_string<C>& t, bool cross)
{
	const std::string e = enc<T>(t);
	s.begin(e);
	static const T gifts[] = { T(42), T(-0.0), T(1e-30), std::numeric_limits<T>::quiet_NaN(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::max(), T(0), std::numeric_limits<T>::denorm_min() };
	std::vector<Call> calls;
	const C* str = t.c_str();
	C* end = nullptr; C** endp = &end;
	const T gift = gifts[s.rng.below(8)];
	const std::size_t stop = s.rng.below(t.size() + 1);
	const Spy<T, C> spy{ &calls, gift, stop, 0 };
	const int mode = int(s.rng.below(7));
	if (mode >= 5) endp = nullptr;
	T v; int status;
	const int before = errno;
	if (mode == 0 || mode == 5) { const auto r = floaxie::atof<T>(str, endp, spy); v = r.value; status = int(r.status); }
	else if (mode == 1) { const auto r = floaxie::atof<T>(str, endp, std::function<T (const C*, C**)>(spy)); v = r.value; status = int(r.status); }
	else if (mode == 2) { const auto r = floaxie::atof<T>(str, endp, [&](const C* a, C** b) { return spy(a, b); }); v = r.value; status = int(r.status); }
	else if (mode == 3) { auto& q = StaticSpy<T, C>::calls; q.clear(); StaticSpy<T, C>::give = gift; StaticSpy<T, C>::stop = stop; const auto r = floaxie::atof<T>(str, endp, &StaticSpy<T, C>::fn); v = r.value; status = int(r.status); calls = q; }
	else if (mode == 6) { const auto r = floaxie::atof<T>(str, nullptr, spy); v = r.value; status = int(r.status); }
	else { endp = nullptr; const auto r = floaxie::from_string<T>(t, spy); v = r.value; status = int(r.status); }
	(void)before; (void)status;
	const ref::Expected<T> x = expect<T>(t, cross);
	auto show = [&](const std::string& m) { return head<T>(t) + ": " + m + " (value " + ref::vshow(v) + ", expected " + ref::vshow(x.value) + ")"; };
	if (calls.size() > 1) s.fail("calledtwice", e, show("fallback called " + std::to_string(calls.size()) + " times"));
	if (!calls.empty())
	{
		if (mode != 4 && calls[0].str != str) s.fail("fallbackstr", e, show("fallback got another text pointer"));
		if (mode == 4 && calls[0].str != t.c_str()) s.fail("fallbackstr", e, show("fallback got another text pointer"));
		if (calls[0].end != endp) s.fail("fallbackend", e, show("fallback got another end pointer"));
		if (!ref::same(v, gift) ) s.fail("fallbackvalue", e, show("the value of the fallback " + ref::vshow(gift) + " isn't returned"));
		if (endp && end != str + stop) s.fail("fallbackstop", e, show("the end pointer set by the fallback was changed"));
		if (x.kind != ref::number) s.fail("fallbackspecial", e, show("fallback called for a special value or not a number"));
		else if (x.zero) s.fail("fallbackzero", e, show("fallback called for zero"));
		s.count("fallback_used");
	}
	else
	{
		if (!ref::same(v, x.value)) s.fail("unsureresult", e, show("wrong result without consulting the fallback"));
		else if (status != int(x.status)) s.fail("unsurestatus", e, show("wrong status without consulting the fallback"));
		else if (endp && end != str + x.end) s.fail("unsureend", e, show("wrong end without consulting the fallback"));
		s.count("own_result");
	}
	if (mode)
	{
		// which entry point and kind of callable is used doesn't matter
		std::vector<Call> again; C* end2 = nullptr;
		(void)floaxie::atof<T>(str, &end2, Spy<T, C>{ &again, gift, stop, 0 });
		if (again.empty() != calls.empty()) s.fail("fallbackform", e, show(calls.empty() ? "the fallback isn't consulted by this form of the call but by atof(str, &end, fallback)" : "the fallback is consulted by this form of the call only"));
		s.count("fallback_forms_compared");
	}
	s.distinct(hash_bytes(e.data(), e.size()));
	return !calls.empty();
}
template<typename T> void fallback_rate(Shard& s, u64 n)
{
	char b[64];
	for (u64 i = 0; i < n; ++i)
	{
		const T v = s.rng.chance(2) ? gen::uniform_bits<T>(s.rng) : T(double(s.rng() >> 11) * 0x1p-53 * std::pow(10., s.rng.range(-3, 9)));
		floaxie::ftoa(v, b);
		const bool used = fallback_case<T, char>(s, std::string(b), false);
		s.count(sizeof(T) == 8 ? "printed_double" : "printed_float");
		if (used) s.count(sizeof(T) == 8 ? "printed_double_fallback" : "printed_float_fallback");
	}
}

// texts of random digits, up to and beyond those which fit, in the range of normal values
template<typename T> void digit_rate(Shard& s, u64 n)
{
	for (u64 i = 0; i < n; ++i)
	{
		const int len = s.rng.chance(2) ? s.rng.range(1, gen::P<T>::kappa) : s.rng.range(gen::P<T>::kappa + 1, s.rng.chance(4) ? 400 : 40);
		std::string d = gen::digits(s.rng, len); d[0] = char('1' + s.rng.below(9));
		const int lim = sizeof(T) == 8 ? 290 : 30, e = s.rng.range(-lim, lim);
		std::string t;
		if (s.rng.chance(3) && e > 0 && e < len) t = d.substr(0, e) + "." + d.substr(e);
		else t = d.substr(0, 1) + (len > 1 ? "." + d.substr(1) : "") + "e" + std::to_string(e);
		if (s.rng.chance(4)) t = "-" + t;
		const bool used = fallback_case<T, char>(s, t, false);
		static const char* const names[] = { "short_float", "long_float", "short_double", "long_double" };
		static const char* const used_names[] = { "short_float_fallback", "long_float_fallback", "short_double_fallback", "long_double_fallback" };
		const int k = (sizeof(T) == 8) * 2 + (len > gen::P<T>::kappa);
		s.count(names[k]);
		if (used) s.count(used_names[k]);
	}
}

// ---- C22: spellings
template<typename T> gen::Dec decimal(Rng& r)
{
	gen::Dec x;
	switch (r.below(7))
	{
	case 0: x.d = gen::digits(r, r.range(1, gen::P<T>::kappa + 6)); x.e = gen::expo<T>(r); break;
	case 1: x = gen::exact(gen::midpoint_above(T(std::fabs(gen::finite_value<T>(r))))); if (r.chance(2)) gen::vary<T>(r, x); break;
	case 2: { T v = std::fabs(gen::finite_value<T>(r)); if (v == 0) v = 1; x = gen::exact((long double)v); if (r.chance(2)) gen::vary<T>(r, x); break; }
	case 3: x = gen::near_limit<T>(r); gen::vary<T>(r, x); break;
	case 4: x.d = gen::digits(r, r.range(1, 12)) + gen::zeros(r.below(30)) + gen::digits(r, r.range(1, 12)); x.e = gen::expo<T>(r); break;
	case 5: { char b[64]; T v = std::fabs(gen::finite_value<T>(r)); if (v == 0) v = 1; std::snprintf(b, sizeof b, "%.*e", gen::P<T>::digits - 1, double(v)); char* e = std::strchr(b, 'e'); for (char* c = b; c < e; ++c) if (*c != '.') x.d += *c; x.e = std::atoi(e + 1) + 1; break; }
	default: x.d = gen::digits(r, r.range(20, 300)); x.e = gen::expo<T>(r); break;
	}
	if (r.chance(40)) x.d = "0";
	return x;
}
template<typename T> void spellings(Shard& s, const std::vector<std::string>& ts)
{
	std::string c = sizeof(T) == 8 ? "d" : "f"; for (auto& t : ts) c += t + '\n';
	s.begin(c);
	Got<T> g0 = parse<T>(ts[0].c_str());
	for (std::size_t i = 1; i < ts.size(); ++i)
	{
		const Got<T> g = s.rng.chance(8) ? parse<T>(ref::widen(ts[i]).c_str()) : parse<T>(ts[i].c_str());
		if (!ref::same(g.value, g0.value) || g.status != g0.status)
			s.fail("spelling", (sizeof(T) == 8 ? "d" : "f") + ts[0] + "\n" + ts[i] + "\n", head<T>(ts[0]) + " gave " + ref::vshow(g0.value) + ", " + ref::status_name(g0.status) + " but '" + text_of(ts[i]) + "' gave " + ref::vshow(g.value) + ", " + ref::status_name(g.status));
		s.distinct(hash_bytes(ts[i].data(), ts[i].size(), sizeof(T)));
	}
	s.count(g0.status ? "groups_out_of_range" : g0.value == 0 ? "groups_zero" : "groups_in_range");
	s.count("spellings", ts.size()); s.evaluations += ts.size() - 1;
}
template<typename T> std::vector<std::string> spell_group(Rng& r)
{
	const gen::Dec x = decimal<T>(r);
	std::vector<std::string> ts; const std::string sg = r.chance(2) ? "-" : "";
	{ std::string base = x.d; base += 'e'; base += std::to_string(x.e - long(x.d.size())); ts.push_back(sg + base); }
	const int n = r.range(5, 9);
	for (int i = 0; i < n; ++i)
	{
		std::string t = i < 8 ? gen::spell(r, x, i) : gen::spell(r, x);
		ts.push_back((sg.empty() && r.chance(4) ? "+" : sg) + t);
	}
	return ts;
}

// one number with as many zeros at each place as the documented length of 2 KB permits, in the exponent tens of thousands
template<typename T> std::vector<std::string> long_spell_group(Rng& r)
{
	const gen::Dec x = decimal<T>(r); const std::string sg = r.chance(2) ? "-" : "";
	const long n = long(x.d.size()), at = long(r.range(0, int(n))), room = 2040 - n;
	auto ex = [&](long e) { return (r.chance(2) ? "e" : "E") + std::string(e >= 0 && r.chance(2) ? "+" : "") + std::to_string(e); };
	auto zs = [&](long k) { return gen::zeros(std::size_t(k)); };
	auto much = [&](long limit) { static const long around[] = { 64, 128, 256, 512, 1024, 2040 }; const long k = around[r.below(6)] + long(r.below(41)) - 20; return limit < 1 ? 0 : k < limit ? k : limit; };
	std::vector<std::string> ts; long z, y;
	ts.push_back(x.d + "e" + std::to_string(x.e - n));
	z = much(room); ts.push_back(zs(z) + x.d + ex(x.e - n));
	z = much(room); ts.push_back(x.d + zs(z) + ex(x.e - n - z));
	z = much(room); ts.push_back(x.d + zs(z) + ".0" + ex(x.e - n - z));
	z = much(room); ts.push_back("0." + zs(z) + x.d + ex(x.e + z));
	z = much(room); y = much(room - z); ts.push_back("." + zs(z) + x.d + zs(y) + ex(x.e + z));
	z = much(room); ts.push_back(x.d.substr(0, std::size_t(at)) + "." + x.d.substr(std::size_t(at)) + zs(z) + ex(x.e - at));
	z = much(room); y = much(room - z); ts.push_back(zs(z) + x.d.substr(0, std::size_t(at)) + "." + x.d.substr(std::size_t(at)) + zs(y) + ex(x.e - at));
	static const long many[] = { 256, 4096, 32768, 65536 };
	for (long m : many) { const long e = x.e - n; ts.push_back(x.d + (e < 0 ? "e-" : "e") + zs(m + long(r.below(41)) - 20) + std::to_string(e < 0 ? -e : e)); }
	for (auto& t : ts) t = sg + t;
	return ts;
}

// ---- C23: signs and order
template<typename T> std::string print(T v) { char b[128]; std::memset(b, 'z', sizeof b); const std::size_t n = floaxie::ftoa(v, b); b[127] = 0; std::string r(b); return r + (n == r.size() ? "" : "[length " + std::to_string(n) + "]"); }
template<typename T> void sign_print(Shard& s, T v)
{
	v = std::fabs(v); if (v == 0 || std::isnan(v)) return;
	std::string e(1, sizeof(T) == 8 ? 'p' : 'q'); const U<T> u = to_bits(v); e.append(reinterpret_cast<const char*>(&u), sizeof u);
	s.begin(e);
	const std::string a = print(v), b = print(-v);
	if (b != "-" + a) s.fail("signprint", e, std::string(ref::tn<T>::name()) + " " + ref::vshow(v) + " printed as '" + a + "', negated as '" + b + "'");
	s.distinct(to_bits(v)); s.count("printed_pairs");
}
template<typename T> void sign_parse(Shard& s, const std::string& t)
{
	const std::string e = enc<T>(t, 's'); s.begin(e);
	const Got<T> p = parse<T>(t.c_str()), n = parse<T>(("-" + t).c_str()), q = parse<T>(("+" + t).c_str());
	const bool unsigned_text = t.empty() || (t[0] != '-' && t[0] != '+');
	if (!unsigned_text) return;
	if (p.end == 0)
	{
		if (n.end != 0 || q.end != 0 || n.value != 0 || q.value != 0 || n.status || q.status) s.fail("signnothing", e, head<T>(t) + ": is no number, but becomes one with a sign");
		s.count("not_a_number");
		return;
	}
	if (!ref::same(n.value, T(-p.value)) || n.status != p.status || n.end != p.end + 1)
		s.fail("signparse", e, head<T>(t) + " gave " + ref::vshow(p.value) + ", " + ref::status_name(p.status) + ", " + std::to_string(p.end) + "; with a minus " + ref::vshow(n.value) + ", " + ref::status_name(n.status) + ", " + std::to_string(n.end));
	if (!ref::same(q.value, p.value) || q.status != p.status || q.end != p.end + 1)
		s.fail("plusparse", e, head<T>(t) + " gave " + ref::vshow(p.value) + ", with a plus " + ref::vshow(q.value) + ", " + ref::status_name(q.status) + ", " + std::to_string(q.end));
	s.distinct(hash_bytes(e.data(), e.size())); s.count(p.status ? "parsed_pairs_out_of_range" : p.value == 0 ? "parsed_pairs_zero" : "parsed_pairs");
}
template<typename T> void order(Shard& s, const std::string& a, const std::string& b) // a <= b mathematically
{
	const std::string e = enc<T>(a + "\n" + b, 'o'); s.begin(e);
	const Got<T> x = parse<T>(a.c_str()), y = parse<T>(b.c_str());
	if (!(x.value <= y.value)) s.fail("order", e, head<T>(a) + " gave " + ref::vshow(x.value) + ", the larger '" + text_of(b) + "' gave " + ref::vshow(y.value));
	s.distinct(hash_bytes(e.data(), e.size())); s.count(x.value == y.value ? "ordered_pairs_equal" : "ordered_pairs_less");
}
template<typename T> void order_random(Shard& s)
{
	Rng& r = s.rng; gen::Dec x = decimal<T>(r), y;
	if (x.d == "0") x.d = "1";
	y = x;
	switch (r.below(4))
	{
	case 0: gen::bump(y, 1); break;
	case 1: { std::size_t n = 1 + r.below(x.d.size()); y.d.resize(n); gen::bump(y, 1); break; }
	case 2: y.d += gen::digits(r, r.range(1, 20), false); break;
	default: { std::size_t n = std::size_t(r.range(1, gen::P<T>::kappa + 5)); if (n < x.d.size()) { x.d.resize(n); y.d.resize(n); } gen::bump(y, 1); break; }
	}
	std::string a = gen::spell(r, x), b = gen::spell(r, y);
	if (r.chance(2)) { std::swap(a, b); a = "-" + a; b = "-" + b; }
	order<T>(s, a, b);
}

// ---- C24: default fallback and range check
template<typename T> bool same_any(T a, T b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
template<typename T, typename C, typename F> void libc_case(Shard& s, const std::basic_string<C>& t, F f, const char* name, char tag)
{
	const std::string e = std::string(1, tag) + std::string(reinterpret_cast<const char*>(t.data()), t.size() * sizeof(C)); s.begin(e);
	C *e1 = nullptr, *e2 = nullptr;
	const int pre = s.rng.chance(2) ? 0 : EINVAL;
	errno = pre; const T a = floaxie::default_fallback<T, C>(t.c_str(), &e1); const int en1 = errno;
	errno = pre; const T b = f(t.c_str(), &e2); const int en2 = errno;
	errno = pre; const T c = floaxie::default_fallback<T, C>(t.c_str(), nullptr); errno = 0;
	char m[200]; std::snprintf(m, sizeof m, ": default fallback gave %La, %ld, errno %d; %s gave %La, %ld, errno %d", (long double)a, long(e1 - t.c_str()), en1, name, (long double)b, long(e2 - t.c_str()), en2);
	if (!same_any(a, b) || e1 != e2 || en1 != en2 || !same_any(a, c)) s.fail(std::string("libc_") + name, e, "'" + text_of(t) + "'" + m);
	s.distinct(hash_bytes(e.data(), e.size())); s.count(name);
}
static void libc_all(Shard& s, const std::string& t)
{
	const std::wstring w = ref::widen(t);
	libc_case<float, char>(s, t, [](const char* a, char** b) { return std::strtof(a, b); }, "strtof", '1');
	libc_case<double, char>(s, t, [](const char* a, char** b) { return std::strtod(a, b); }, "strtod", '2');
	libc_case<long double, char>(s, t, [](const char* a, char** b) { return std::strtold(a, b); }, "strtold", '3');
	libc_case<float, wchar_t>(s, w, [](const wchar_t* a, wchar_t** b) { return std::wcstof(a, b); }, "wcstof", '4');
	libc_case<double, wchar_t>(s, w, [](const wchar_t* a, wchar_t** b) { return std::wcstod(a, b); }, "wcstod", '5');
	libc_case<long double, wchar_t>(s, w, [](const wchar_t* a, wchar_t** b) { return std::wcstold(a, b); }, "wcstold", '6');
}
template<typename T> void range_check(Shard& s)
{
	using L = std::numeric_limits<T>;
	using S = floaxie::conversion_status;
	static const int errs[] = { 0, EINVAL, EDOM, ENOMEM, EINTR, ERANGE - 1, ERANGE + 1, ERANGE, -1 };
	std::vector<T> vals = { T(0), -T(0), L::denorm_min(), -L::denorm_min(), L::min() / 2, -L::min() / 2, L::min() - L::denorm_min(), L::infinity(), -L::infinity() };
	std::vector<T> any = { T(1), T(-1), T(0.5), L::max(), -L::max(), L::min(), L::epsilon(), T(42), L::quiet_NaN() };
	for (int k = 0; k < 200; ++k) vals.push_back(std::ldexp(L::denorm_min(), int(s.rng.below(unsigned(L::digits - 1)))) * T(s.rng.chance(2) ? 1 : -1));
	for (int er : errs)
	{
		auto one = [&](T v, bool judge_range)
		{
			errno = er; const S g = floaxie::check_errno(v); const int after = errno; errno = 0;
			S want = S::success;
			if (er == ERANGE) want = v == 0 ? S::underflow : std::isinf(v) ? S::overflow : S::success;
			s.begin("c"); s.count("range_checks");
			char m[120]; std::snprintf(m, sizeof m, "check_errno(%La) with errno %d gave %s, errno after %d", (long double)v, er, ref::status_name(int(g)), after);
			if ((er != ERANGE || judge_range) && g != want) s.fail("rangecheck", "c", m);
			if (after != er) s.fail("rangecheckerrno", "c", m);
		};
		for (T v : vals) one(v, true);
		for (T v : any) one(v, false);
	}
}
static std::string libc_text(Rng& r)
{
	switch (r.below(8))
	{
	case 0: return gen::sign(r) + "0x" + gen::digits(r, r.range(1, 20)) + (r.chance(2) ? ".8p" + std::to_string(r.range(-1100, 1100)) : "");
	case 1: return std::string(r.below(3), ' ') + gen::text<double>(r);
	case 2: { char b[9000]; std::snprintf(b, sizeof b, "%.*Lg", r.range(15, 40), std::ldexp((long double)(r() | 1), r.range(-16500, 16380))); return b; }
	case 3: { std::string x = gen::digits(r, r.range(1, 40)); return x + "e" + std::to_string(r.range(-5000, 5000)); }
	case 4: return gen::text<float>(r);
	case 5: { char b[128]; std::snprintf(b, sizeof b, "%.25Lg", 1 + (long double)(r() >> 8) * 0x1p-56L); return b; }
	default: return gen::text<double>(r);
	}
}

template<typename T> void replay_text(const std::string& c, Shard& s)
{
	if (c[0] == 'd' || c[0] == 'f')
	{
		const std::string t = c.substr(1);
		if (is("C12")) forms<T>(s, t);
		else if (is("C13")) { for (int i = 0; i < 40; ++i) fallback_case<T, char>(s, t, true); }
		else judge<T, char>(s, t, true);
	}
	else
	{
		std::wstring w((c.size() - 1) / 4, L' '); std::memcpy(&w[0], c.data() + 1, w.size() * 4);
		if (is("C13")) { for (int i = 0; i < 40; ++i) fallback_case<T, wchar_t>(s, w, true); }
		else judge<T, wchar_t>(s, w, true);
	}
}

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	g_check = opt().extra["--check"];
	Program p; p.shards = 512;
	const bool th = opt().thorough; const double sc = opt().scale;
	auto N = [&](double quick, double thorough) { return u64((th ? thorough : quick) * sc); };

	if (is("C07"))
	{
		const u64 n = N(50000, 900000);
		p.shard = [n, th](Shard& s) { numbers<double>(s, n, false); bulk<double>(s, n * 4); for (int k = int(s.index) * 2 - 380; k < int(s.index) * 2 - 378; ++k) exponent_grid<double>(s, k, th ? 60 : 12); s.count("oracle_disagreements", ref::oracle_disagreements); };
	}
	else if (is("C08"))
	{
		const u64 n = N(60000, 1100000);
		p.shard = [n, th](Shard& s) { numbers<float>(s, n, false); bulk<float>(s, n * 4); if (s.index < 160) exponent_grid<float>(s, int(s.index) - 90, th ? 2000 : 300); s.count("oracle_disagreements", ref::oracle_disagreements); };
	}
	else if (is("C09"))
	{
		const u64 n = N(20000, 200000);
		p.shard = [n, th](Shard& s)
		{
			const char* a = "17.eE+-x"; // with zero below
			for (int len = 0; len <= 8; ++len) enumerate<double, char>(s, a, len, s.index, 512);
			for (int len = 0; len <= 8; ++len) enumerate<float, char>(s, "03.eE+- ", len, s.index, 512);
			for (int len = 0; len <= 7; ++len) enumerate<double, wchar_t>(s, "08.eE+-n", len, s.index, 512);
			for (int len = 0; len <= 7; ++len) enumerate<float, wchar_t>(s, "02.eE+-,", len, s.index, 512);
			for (int len = 0; len <= (th ? 6 : 5); ++len) enumerate<double, char>(s, "059.eE+-naif(_)", len, s.index, 512);
			static const char* base[] = { "1", "0", "12.5", ".5", "5.", "1e5", "1.5e-5", "-1", "+0.0e0", "1e+07", "0.1", "00", "123456789012345678901234567890", "1e", "1e+", "0.000", "9007199254740993", "16777217" };
			if (s.index < 18) { every_char<double, char>(s, base[s.index]); every_char<float, char>(s, base[s.index]); every_char<double, wchar_t>(s, base[s.index]); every_char<float, wchar_t>(s, base[s.index]); }
			for (u64 i = 0; i < n && !s.stopped(); ++i)
			{
				std::string t = s.rng.chance(4) ? gen::noise(s.rng, 24) : s.rng.chance(2) ? gen::text<double>(s.rng) : gen::text<float>(s.rng);
				if (s.rng.chance(20)) { static const char* pre[] = { " ", "\t", "\n", "--", "+-", "-+", "- ", "+ ", "x", "e5", "E1", ".e5", "-.", "+.", "-.e1", "(", "$", ",", "\xa0" }; t = pre[s.rng.below(19)] + t; }
				if (i < 2) s.sample(head<double>(t));
				any_text<double>(s, t, (i & 31) == 0); any_text<float>(s, t, (i & 31) == 0);
			}
		};
	}
	else if (is("C10"))
	{
		const u64 n = N(30000, 400000);
		p.shard = [n](Shard& s)
		{
			for (u64 i = 0; i < n && !s.stopped(); ++i)
			{
				std::string t, t2;
				switch (s.rng.below(8))
				{
				case 0: case 1: case 2: { gen::Dec x = gen::near_limit<double>(s.rng), y = gen::near_limit<float>(s.rng); gen::vary<double>(s.rng, x); gen::vary<float>(s.rng, y); t = gen::spell(s.rng, x); t2 = gen::spell(s.rng, y); break; }
				case 3: t = gen::number<double>(s.rng, 8); t2 = gen::number<float>(s.rng, 8); break;
				case 4: { gen::Dec x; x.d = gen::digits(s.rng, s.rng.range(1, 25)); x.e = s.rng.chance(2) ? s.rng.range(305, 312) : s.rng.range(-346, -304); t = gen::spell(s.rng, x); x.e = s.rng.chance(2) ? s.rng.range(36, 41) : s.rng.range(-62, -34); t2 = gen::spell(s.rng, x); break; }
				case 5: { gen::Dec x; x.d = gen::zeros(1 + s.rng.below(40)); x.e = s.rng.range(-500, 500); t = t2 = gen::spell(s.rng, x); break; }
				case 6: t = gen::text<double>(s.rng); t2 = gen::text<float>(s.rng); break;
				default: t = gen::number<double>(s.rng); t2 = gen::number<float>(s.rng); break;
				}
				t = gen::sign(s.rng) + t; t2 = gen::sign(s.rng) + t2;
				if (s.rng.chance(4)) { t += gen::suffix(s.rng); t2 += gen::suffix(s.rng); }
				if (t[0] == t[1] || ((t[0] == '-' || t[0] == '+') && (t[1] == '-' || t[1] == '+'))) { }
				if (i < 2) s.sample(head<double>(t));
				any_text<double>(s, t, (i & 31) == 0); any_text<float>(s, t2, (i & 31) == 0);
				if ((i & 15) == 0) { any_text<float>(s, t, false); any_text<double>(s, t2, false); }
			}
		};
	}
	else if (is("C11"))
	{
		const u64 n = N(30000, 300000);
		p.shard = [n, th](Shard& s)
		{
			const unsigned q = unsigned(s.index % 128);
			switch (s.index / 128)
			{
			case 0: words<double, char>(s, "infinity", q, 128); if (q < 8) { words<double, char>(s, "nan", q, 8); words<double, char>(s, "inf", q, 8); } break;
			case 1: words<float, char>(s, "infinity", q, 128); if (q < 8) { words<float, char>(s, "nan", q, 8); words<float, char>(s, "inf", q, 8); } break;
			case 2: words<double, wchar_t>(s, "infinity", q, 128); if (q < 8) { words<double, wchar_t>(s, "nan", q, 8); words<double, wchar_t>(s, "inf", q, 8); } break;
			case 3: words<float, wchar_t>(s, "infinity", q, 128); if (q < 8) { words<float, wchar_t>(s, "nan", q, 8); words<float, wchar_t>(s, "inf", q, 8); } break;
			}
			for (int len = 0; len <= (th ? 6 : 5); ++len) enumerate<double, char>(s, "naif(t)y_0-I", len, s.index, 512);
			for (int len = 0; len <= (th ? 6 : 5); ++len) enumerate<float, wchar_t>(s, "nAiF()0+Ny.", len, s.index, 512);
			nan_sequences<double, char>(s, int(n / 4)); nan_sequences<float, char>(s, int(n / 8)); nan_sequences<double, wchar_t>(s, int(n / 8)); nan_sequences<float, wchar_t>(s, int(n / 8));
			for (u64 i = 0; i < n; ++i) { const std::string t = gen::special(s.rng); if (i < 2) s.sample(head<double>(t)); any_text<double>(s, t, false); any_text<float>(s, t, false); }
			for (u64 i = 0; i < n / 4; ++i) { any_text<double>(s, gen::text<double>(s.rng), false); any_text<float>(s, gen::text<float>(s.rng), false); }
		};
	}
	else if (is("C12"))
	{
		const u64 n = N(16000, 200000);
		p.shard = [n](Shard& s)
		{
			for (u64 i = 0; i < n && !s.stopped(); ++i)
			{
				const std::string t = (i & 1) ? gen::text<double>(s.rng) : gen::text<float>(s.rng);
				if (i < 2) s.sample(head<double>(t));
				forms<double>(s, t); forms<float>(s, t);
			}
		};
	}
	else if (is("C13"))
	{
		const u64 n = N(40000, 500000);
		p.shard = [n](Shard& s)
		{
			for (u64 i = 0; i < n && !s.stopped(); ++i)
			{
				const std::string t = gen::text<double>(s.rng), f = gen::text<float>(s.rng);
				if (i < 2) s.sample(head<double>(t));
				fallback_case<double, char>(s, t, (i & 31) == 0); fallback_case<float, char>(s, f, (i & 31) == 0);
				if ((i & 7) == 0) { fallback_case<double, wchar_t>(s, ref::widen(t), false); fallback_case<float, wchar_t>(s, ref::widen(f), false); }
			}
			fallback_rate<double>(s, 4000); fallback_rate<float>(s, 4000);
			digit_rate<double>(s, 3000); digit_rate<float>(s, 3000);
		};
	}
	else if (is("C22"))
	{
		const u64 n = N(8000, 100000);
		p.shard = [n](Shard& s) { for (u64 i = 0; i < n && !s.stopped(); ++i) { auto g = spell_group<double>(s.rng); if (i < 2) s.sample("'" + text_of(g[0]) + "' = '" + text_of(g[1]) + "' = '" + text_of(g[2]) + "'"); spellings<double>(s, g); g = spell_group<float>(s.rng); spellings<float>(s, g); if (i % 200 == 0) { spellings<double>(s, long_spell_group<double>(s.rng)); spellings<float>(s, long_spell_group<float>(s.rng)); s.count("groups_of_very_long_spellings", 2); } } };
	}
	else if (is("C23"))
	{
		const u64 n = N(12000, 300000);
		p.shard = [n](Shard& s)
		{
			for (u64 i = 0; i < n && !s.stopped(); ++i)
			{
				sign_print<double>(s, gen::value<double>(s.rng, true)); sign_print<float>(s, gen::value<float>(s.rng, true));
				std::string t = s.rng.chance(6) ? gen::special(s.rng) : gen::number<double>(s.rng) + (s.rng.chance(2) ? gen::suffix(s.rng) : "");
				if (s.rng.chance(30)) t = gen::noise(s.rng, 8);
				if (i < 2) s.sample(head<double>(t));
				sign_parse<double>(s, t); sign_parse<float>(s, t); sign_parse<float>(s, gen::number<float>(s.rng));
				order_random<double>(s); order_random<float>(s);
			}
		};
	}
	else if (is("C24"))
	{
		const u64 n = N(16000, 200000);
		p.shard = [n](Shard& s)
		{
			range_check<float>(s); range_check<double>(s); range_check<long double>(s);
			for (u64 i = 0; i < n && !s.stopped(); ++i) { const std::string t = libc_text(s.rng); if (i < 2) s.sample("'" + text_of(t) + "'"); libc_all(s, t); }
		};
	}
	else return 2;

	p.one = [](const std::string& c, Shard& s)
	{
		if (c.empty()) return;
		if (is("C24")) { if (c[0] == 'c') { range_check<float>(s); range_check<double>(s); range_check<long double>(s); } else { std::string t; if (c[0] < '4') t = c.substr(1); else for (std::size_t i = 1; i < c.size(); i += 4) t += c[i]; libc_all(s, t); } return; }
		if (is("C22")) { std::vector<std::string> ts; std::string cur; for (std::size_t i = 1; i < c.size(); ++i) if (c[i] == '\n') { ts.push_back(cur); cur.clear(); } else cur += c[i]; if (ts.size() > 1) { for (int k = 0; k < 40; ++k) c[0] == 'd' ? spellings<double>(s, ts) : spellings<float>(s, ts); } return; }
		if (is("C23"))
		{
			if (c[0] == 'p' && c.size() == 9) { u64 u; std::memcpy(&u, c.data() + 1, 8); sign_print(s, from_bits<double>(u)); }
			else if (c[0] == 'q' && c.size() == 5) { u32 u; std::memcpy(&u, c.data() + 1, 4); sign_print(s, from_bits<float>(u)); }
			else if (c[0] == 's') { c[1] == 'd' ? sign_parse<double>(s, c.substr(2)) : sign_parse<float>(s, c.substr(2)); }
			else if (c[0] == 'o') { const std::size_t k = c.find('\n'); const std::string a = c.substr(2, k - 2), b = c.substr(k + 1); c[1] == 'd' ? order<double>(s, a, b) : order<float>(s, a, b); }
			return;
		}
		if (c[0] == 'd' || c[0] == 'D') replay_text<double>(c, s); else replay_text<float>(c, s);
	};
	return run(argc, argv, p);
}

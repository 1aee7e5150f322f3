// Monitors of C04 (buffer bounds, length), C06 (character types and wrappers) and
// C15 (print and parse circle).
#include <floaxie/ftoa.h>
#include <floaxie/atof.h>
#include "gen.hpp"

using namespace vk;
u64 ref::oracle_disagreements = 0;
template<typename T> using U = typename gen::P<T>::U;
static std::string g_check;

template<typename T> std::string enc(T v) { std::string s(1, sizeof(T) == 8 ? 'd' : 'f'); const U<T> u = to_bits(v); s.append(reinterpret_cast<const char*>(&u), sizeof u); return s; }
template<typename C> std::string narrow(const C* s, std::size_t n) { std::string r; for (std::size_t i = 0; i < n; ++i) { if (u32(s[i]) < 128 && u32(s[i]) >= 32) r += char(s[i]); else { char b[16]; std::snprintf(b, 16, "<%X>", unsigned(s[i])); r += b; } } return r; }
template<typename T> std::string name(T v) { return std::string(ref::tn<T>::name()) + " " + ref::vshow(v); }

// ---- C04
static Guarded& guard() { static Guarded g(8192); return g; }
template<typename C> struct Ct;
template<> struct Ct<char> { static const char* n() { return "char"; } };
template<> struct Ct<wchar_t> { static const char* n() { return "wchar_t"; } };
template<> struct Ct<char16_t> { static const char* n() { return "char16_t"; } };
template<> struct Ct<char32_t> { static const char* n() { return "char32_t"; } };

template<typename T, typename C> void bounds(Shard& s, T v, const std::string& e, std::string& text)
{
	constexpr std::size_t M = floaxie::max_buffer_size<T>();
	static_assert(M == floaxie::max_buffer_size<const T&>(), "decayed type");
	Guarded& g = guard();
	const unsigned char fill = s.rng.chance(3) ? (unsigned char)s.rng() : s.rng.chance(2) ? 0 : s.rng.chance(2) ? 0xff : '9';
	const std::size_t total = g.size() / sizeof(C);
	std::memset(g.front(), fill, g.size());
	C* const all = reinterpret_cast<C*>(g.front());
	const int where = int(s.rng.below(3));
	const std::size_t off = where == 0 ? total - M : where == 1 ? 0 : 64 + s.rng.below(512);
	C* const b = all + off;
	const std::size_t n = floaxie::ftoa(v, b);
	std::size_t len = 0; while (len < M && b[len] != C(0)) ++len;
	C pat; std::memset(&pat, fill, sizeof pat);
	if (len == M) { s.fail("terminator", e, name(v) + ": no terminator within the maximum buffer size (" + Ct<C>::n() + ")"); return; }
	if (n != len) s.fail("length", e, name(v) + ": returned " + std::to_string(n) + ", the text '" + narrow(b, len) + "' has " + std::to_string(len) + " characters (" + Ct<C>::n() + ")");
	for (std::size_t i = off > 64 ? off - 64 : 0; i < off; ++i) if (std::memcmp(all + i, &pat, sizeof(C))) { s.fail("before", e, name(v) + ": wrote before the buffer (" + Ct<C>::n() + ")"); break; }
	for (std::size_t i = off + M; i < std::min(total, off + M + 64); ++i) if (std::memcmp(all + i, &pat, sizeof(C))) { s.fail("after", e, name(v) + ": wrote after the buffer (" + Ct<C>::n() + ")"); break; }
	std::size_t used = M; while (used > 0 && !std::memcmp(b + used - 1, &pat, sizeof(C))) --used;
	s.maximum(sizeof(T) == 8 ? "max_used_double" : "max_used_float", used);
	s.maximum(sizeof(T) == 8 ? "max_length_double" : "max_length_float", len);
	const std::string t = narrow(b, len);
	if (text.empty()) text = t;
	else if (t != text) s.fail("content", e, name(v) + ": text '" + t + "' differs from '" + text + "' printed to another buffer (" + Ct<C>::n() + ", previous content " + std::to_string(fill) + ")");
	s.count(where == 0 ? "before_guard_page" : where == 1 ? "after_guard_page" : "between_canaries");
}
template<typename T> void bounds_all(Shard& s, T v)
{
	const std::string e = enc(v); s.begin(e); std::string t;
	bounds<T, char>(s, v, e, t); bounds<T, char>(s, v, e, t); bounds<T, wchar_t>(s, v, e, t); bounds<T, char16_t>(s, v, e, t); bounds<T, char32_t>(s, v, e, t);
	s.distinct(hash_bytes(e.data(), e.size()));
}

// ---- C06
template<typename T, typename S> void same_text(Shard& s, T v, const std::string& e, const std::string& base, const S& x, const char* form)
{
	if (x.size() != base.size() || narrow(x.data(), x.size()) != base) s.fail(std::string("form_") + form, e, name(v) + " printed by " + form + " as '" + narrow(x.data(), x.size()) + "' (" + std::to_string(x.size()) + " characters), to char buffer as '" + base + "'");
	s.count("forms_compared");
}
template<typename C, typename T> std::basic_string<C> buf(T v)
{
	C b[96]; std::memset(static_cast<void*>(b), '#', sizeof b);
	const std::size_t n = floaxie::ftoa(v, b);
	std::size_t len = 0; while (len < 96 && b[len]) ++len;
	std::basic_string<C> r(b, len); if (n != len) r += C('?'); return r;
}
template<typename T> void types(Shard& s, T v)
{
	const std::string e = enc(v); s.begin(e);
	const std::string base = buf<char>(v);
	same_text(s, v, e, base, buf<wchar_t>(v), "ftoa(wchar_t)");
	same_text(s, v, e, base, buf<char16_t>(v), "ftoa(char16_t)");
	same_text(s, v, e, base, buf<char32_t>(v), "ftoa(char32_t)");
	same_text(s, v, e, base, floaxie::to_string(v), "to_string");
	same_text(s, v, e, base, floaxie::to_wstring(v), "to_wstring");
	same_text(s, v, e, base, floaxie::to_u16string(v), "to_u16string");
	same_text(s, v, e, base, floaxie::to_u32string(v), "to_u32string");
	same_text(s, v, e, base, floaxie::to_basic_string<T, char>(v), "to_basic_string<char>");
	same_text(s, v, e, base, floaxie::to_basic_string<T, wchar_t>(v), "to_basic_string<wchar_t>");
	same_text(s, v, e, base, floaxie::to_basic_string<T, char16_t>(v), "to_basic_string<char16_t>");
	same_text(s, v, e, base, floaxie::to_basic_string<T, char32_t>(v), "to_basic_string<char32_t>");
#ifdef __cpp_char8_t
	same_text(s, v, e, base, buf<char8_t>(v), "ftoa(char8_t)");
	same_text(s, v, e, base, floaxie::to_basic_string<T, char8_t>(v), "to_basic_string<char8_t>");
	s.count("char8_t_forms", 2);
#endif
	if (s.distinct(hash_bytes(e.data(), e.size())))
		s.count(base.find('e') != std::string::npos ? "scientific" : base.find("0.0") != std::string::npos ? "leading_zeros" : base.find('.') != std::string::npos ? "fraction" : base.back() == '0' ? "trailing_zeros" : "other");
}

// ---- C15
template<typename T, typename C> void circle(Shard& s, T v, const std::string& e)
{
	C b[128]; std::memset(static_cast<void*>(b), '7', sizeof b);
	floaxie::ftoa(v, b);
	std::size_t len = 0; while (len < 100 && b[len]) ++len;
	const std::string t = narrow(b, len);
	auto judge = [&](const char* how, long end, T got, int status)
	{
		const bool ok = std::isnan(v) ? std::isnan(got) : v == 0 ? got == 0 : to_bits(got) == to_bits(v);
		if (!ok) s.fail("value", e, name(v) + " printed as '" + t + "', parsed back" + how + " as " + ref::vshow(got));
		else if (status) s.fail("status", e, name(v) + " printed as '" + t + "', parsed back" + how + " with status " + ref::status_name(status));
		else if (end >= 0 && end != long(len)) s.fail("end", e, name(v) + " printed as '" + t + "', parsed back" + how + " consuming " + std::to_string(end));
		s.count(sizeof(C) == 1 ? "circles" : "circles_wide");
	};
	C* q = nullptr;
	{ const auto r = floaxie::atof<T>(b, &q); judge("", long(q - b), r.value, int(r.status)); }
	if (s.rng.chance(4))
	{
		const auto r = floaxie::from_string<T>(std::basic_string<C>(b, len)); judge(" as string", -1, r.value, int(r.status));
		// followed by other text
		static const char* after[] = { ",", " ", ";1", "\n2", "]", "}", "\t", "\"", "e", "E", "e+", " e5", ":", "/", "x", "%", ", 1.5" };
		const char* a = after[s.rng.below(17)];
		if (std::isnan(v) || std::isinf(v)) a = ",";
		std::size_t k = len; for (; *a; ++a) b[k++] = C(*a);
		b[k] = C(0);
		const auto r2 = floaxie::atof<T>(b, &q); judge(" followed by other text", long(q - b), r2.value, int(r2.status));
	}
}
template<typename T> void circles(Shard& s, T v)
{
	const std::string e = enc(v); s.begin(e);
	circle<T, char>(s, v, e); if (s.rng.chance(4)) circle<T, wchar_t>(s, v, e);
	s.distinct(hash_bytes(e.data(), e.size()));
}

template<typename T> void eval(Shard& s, T v)
{
	if (g_check == "C04") bounds_all(s, v); else if (g_check == "C06") types(s, v); else circles(s, v);
}
template<typename T> void workload(Shard& s, u64 exps_from, u64 exps_to, int per_exp, u64 n)
{
	constexpr int mb = gen::P<T>::mbits; const U<T> mm = (U<T>(1) << mb) - 1;
	for (u64 x = exps_from; x < exps_to; ++x)
		for (int k = 0; k < per_exp && !s.stopped(); ++k)
		{
			U<T> m = k < 3 ? U<T>(k) : k < 6 ? mm - U<T>(k - 3) : k < 6 + mb ? (U<T>(1) << (k - 6)) : (U<T>(s.rng()) & mm);
			const T v = from_bits<T>(U<T>((U<T>(x) << mb) | m));
			eval<T>(s, v); eval<T>(s, T(-v));
		}
	for (u64 i = 0; i < n && !s.stopped(); ++i)
	{
		T v = gen::value<T>(s.rng, true);
		if (s.rng.chance(16)) // layouts: digits x position of the point
		{
			char b[64]; std::snprintf(b, sizeof b, "0.%se%d", gen::digits(s.rng, s.rng.range(1, 17)).c_str(), s.rng.range(-20, 22)); v = ref::c_strto(b, T()); if (s.rng.chance(2)) v = -v;
		}
		if (i < 2) s.sample(name(v));
		eval<T>(s, v);
	}
}

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	g_check = opt().extra["--check"];
	Program p; p.shards = 512;
	const bool th = opt().thorough; const double sc = opt().scale;
	const u64 n = u64((g_check == "C04" ? (th ? 60000 : 6000) : g_check == "C06" ? (th ? 100000 : 12000) : (th ? 800000 : 80000)) * sc);
	const int pe = int((g_check == "C15" ? (th ? 2000 : 300) : (th ? 300 : 70)) * std::max(1., sc));
	p.shard = [=](Shard& s)
	{
		workload<double>(s, s.index * 4, std::min<u64>(2048, s.index * 4 + 4), pe, n);
		if (s.index < 256) workload<float>(s, s.index, s.index + 1, pe * 4, n); else workload<float>(s, 0, 0, 0, n);
		if (th && g_check == "C15") for (u32 i = 0; i < (u32(1) << 23); ++i) { const u32 u = u32(s.index << 23) + i; const float v = from_bits<float>(u); if (std::isfinite(v)) circles(s, v); if (i == 0) s.count("float_blocks_enumerated"); }
	};
	p.one = [](const std::string& c, Shard& s)
	{
		for (int k = 0; k < 60; ++k)
			if (c.size() == 9) { u64 u; std::memcpy(&u, c.data() + 1, 8); eval<double>(s, from_bits<double>(u)); }
			else if (c.size() == 5) { u32 u; std::memcpy(&u, c.data() + 1, 4); eval<float>(s, from_bits<float>(u)); }
	};
	return run(argc, argv, p);
}

// Monitor of C18: the same conversions under many locales, against the C locale.
//   --locales name,name,...   (LOCPATH tells where they are)
#include <floaxie/atof.h>
#include <floaxie/ftoa.h>
#include "gen.hpp"
#include <clocale>
#include <locale>
#include <locale.h>

using namespace vk;
u64 ref::oracle_disagreements = 0;

enum Op { print_d, print_f, print_wd, string_f, wstring_d, parse_d, parse_f, parse_wd, parse_wf, from_string_d, from_wstring_f, ops };
struct Case { int op; double d; float f; std::string t; std::wstring w; };
struct Res { u64 bits = 0; int status = 0; long end = 0; std::string text; bool operator==(const Res& o) const { return bits == o.bits && status == o.status && end == o.end && text == o.text; } };
static u64 vbits(double v) { return std::isnan(v) ? 1 : to_bits(v); }
static u64 vbits(float v) { return std::isnan(v) ? 1 : to_bits(v); }
static std::string rshow(const Res& r) { char b[128]; std::snprintf(b, sizeof b, "bits 0x%llx, %s, end %ld, text '", (unsigned long long)r.bits, ref::status_name(r.status), r.end); return b + show(r.text) + "'"; }

template<typename T, typename C> static Res parse(const C* s) { Res r; C* e = nullptr; const auto x = floaxie::atof<T>(s, &e); r.bits = vbits(x.value); r.status = int(x.status); r.end = e - s; return r; }
template<typename T, typename C> static Res print(T v) { Res r; C b[64]; const std::size_t n = floaxie::ftoa(v, b); r.end = long(n); for (int i = 0; i < 60 && b[i]; ++i) r.text += u32(b[i]) < 128 ? char(b[i]) : '?'; return r; }
static Res perform(const Case& c)
{
	Res r;
	switch (c.op)
	{
	case print_d: return print<double, char>(c.d);
	case print_f: return print<float, char>(c.f);
	case print_wd: return print<double, wchar_t>(c.d);
	case string_f: r.text = floaxie::to_string(c.f); return r;
	case wstring_d: for (wchar_t x : floaxie::to_wstring(c.d)) r.text += u32(x) < 128 ? char(x) : '?'; return r;
	case parse_d: return parse<double>(c.t.c_str());
	case parse_f: return parse<float>(c.t.c_str());
	case parse_wd: return parse<double>(c.w.c_str());
	case parse_wf: return parse<float>(c.w.c_str());
	case from_string_d: { const auto x = floaxie::from_string<double>(c.t); r.bits = vbits(x.value); r.status = int(x.status); return r; }
	default: { const auto x = floaxie::from_string<float>(c.w); r.bits = vbits(x.value); r.status = int(x.status); return r; }
	}
}
static std::string describe(const Case& c)
{
	static const char* n[] = { "ftoa(double)", "ftoa(float)", "ftoa(double, wchar_t*)", "to_string(float)", "to_wstring(double)", "atof<double>", "atof<float>", "atof<double>(wchar_t)", "atof<float>(wchar_t)", "from_string<double>", "from_string<float>(wstring)" };
	std::string t = c.t;
	if (c.op == parse_wd || c.op == parse_wf || c.op == from_wstring_f) { t.clear(); for (wchar_t x : c.w) { if (u32(x) < 127) t += char(x); else { char b[16]; std::snprintf(b, 16, "<U+%X>", unsigned(x)); t += b; } } }
	return std::string(n[c.op]) + (c.op < parse_d ? " of " + (c.op == print_f || c.op == string_f ? ref::vshow(c.f) : ref::vshow(c.d)) : " of '" + show(t, 120) + "'");
}

// Is the default fallback consulted for this text, and does the result equal
// what the C library gives in the current locale?
template<typename T, typename C> static bool by_fallback(const C* s, const Res& r, bool has_end)
{
	bool called = false; C* e = nullptr;
	(void)floaxie::atof<T>(s, &e, [&](const C*, C** q) { called = true; if (q) *q = const_cast<C*>(s); return T(0); });
	if (!called) return false;
	const T v = floaxie::default_fallback<T, C>(s, &e);
	return vbits(v) == r.bits && (!has_end || e - s == r.end);
}
static bool explained(const Case& c, const Res& r)
{
	switch (c.op)
	{
	case parse_d: return by_fallback<double>(c.t.c_str(), r, true);
	case parse_f: return by_fallback<float>(c.t.c_str(), r, true);
	case parse_wd: return by_fallback<double>(c.w.c_str(), r, true);
	case parse_wf: return by_fallback<float>(c.w.c_str(), r, true);
	case from_string_d: return by_fallback<double>(c.t.c_str(), r, false);
	case from_wstring_f: return by_fallback<float>(c.w.c_str(), r, false);
	default: return false;
	}
}

struct Punct : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } };
struct WPunct : std::numpunct<wchar_t> { wchar_t do_decimal_point() const override { return L','; } wchar_t do_thousands_sep() const override { return L'.'; } std::string do_grouping() const override { return "\1"; } };
struct Type : std::ctype<char>
{
	static mask* table() { static mask t[table_size]; for (int i = 0; i < int(table_size); ++i) t[i] = classic_table()[i] | (i == ',' || i == 'x' || i > 127 ? digit : mask(0)) | (i == '.' ? space : mask(0)); return t; }
	Type() : std::ctype<char>(table()) { }
	char do_tolower(char c) const override { return c == 'I' ? 'x' : std::ctype<char>::do_tolower(c); }
};

static std::vector<std::string> g_locales;
enum { modes = 6 };
static const char* mode_name(int m) { static const char* n[] = { "setlocale", "std::locale::global", "uselocale", "facets", "LC_NUMERIC", "LC_CTYPE" }; return n[m]; }
static locale_t g_cached[64];

static bool enter(int l, int mode)
{
	const char* n = g_locales[std::size_t(l)].c_str();
	switch (mode)
	{
	case 0: return std::setlocale(LC_ALL, n) != nullptr;
	case 1: try { std::locale::global(std::locale(n)); return true; } catch (const std::exception&) { return false; }
	case 2: if (!g_cached[l]) g_cached[l] = ::newlocale(LC_ALL_MASK, n, nullptr); if (!g_cached[l]) return false; ::uselocale(g_cached[l]); return true;
	case 3: std::locale::global(std::locale(std::locale(std::locale(std::locale::classic(), new Punct), new WPunct), new Type)); return true;
	case 4: return std::setlocale(LC_NUMERIC, n) != nullptr;
	default: return std::setlocale(LC_CTYPE, n) != nullptr;
	}
}
static void leave() { ::uselocale(LC_GLOBAL_LOCALE); std::locale::global(std::locale::classic()); std::setlocale(LC_ALL, "C"); }

static std::string enc(const Case& c, int l, int mode)
{
	std::string r; r += char('A' + c.op); r += char('A' + mode); r += g_locales[std::size_t(l)]; r += '\0';
	r.append(reinterpret_cast<const char*>(&c.d), 8); r.append(reinterpret_cast<const char*>(&c.f), 4);
	const u32 n = u32(c.t.size()); r.append(reinterpret_cast<const char*>(&n), 4); r += c.t;
	r.append(reinterpret_cast<const char*>(c.w.data()), c.w.size() * sizeof(wchar_t));
	return r;
}

static Case make(Rng& r)
{
	Case c; c.op = int(r.below(ops)); c.d = gen::value<double>(r, true); c.f = gen::value<float>(r, true);
	switch (r.below(12))
	{
	case 0: c.t = gen::special(r); break;
	case 1: c.t = gen::sign(r) + gen::digits(r, r.range(1, 25)) + "," + gen::digits(r, r.range(1, 8)); if (r.chance(2)) c.t += "e5"; break;
	case 2: c.t = gen::digits(r, r.range(1, 3)) + ("., '\xa0"[r.below(5)]) + gen::digits(r, 3) + (".,"[r.below(2)]) + gen::digits(r, 2); break;
	case 3: { static const char* w[] = { "nan(\xe9)", "nan(\xfd\xdd)", "nan(a\xff)", "\xddnf", "\xfdnf", "INF\xddNITY", "infin\xfdty", "na\xf1", "1\xb2", "1\xa0" "000", "\xd9\xa1\xd9\xa2", "1\xd9\xab" "5", "\xef\xbc\x91", "I", "INFINITY", "iNFiNiTY", "NAN(I_i)", "nan(Iia)" }; c.t = gen::sign(r) + w[r.below(18)] + gen::suffix(r); break; }
	case 4: c.t = gen::sign(r) + gen::number<double>(r, r.chance(2) ? 4 : 5) + gen::suffix(r); break;
	case 5: c.t = gen::sign(r) + gen::number<float>(r, r.chance(2) ? 4 : 5) + gen::suffix(r); break;
	default: c.t = r.chance(2) ? gen::text<double>(r) : gen::text<float>(r);
	}
	if (r.chance(10) && !c.t.empty()) { const std::size_t p = c.t.find('.'); if (p != std::string::npos) c.t[p] = ','; }
	if (c.t.size() > 1600) c.t.resize(1600);
	c.t = c.t.c_str();
	c.w = ref::widen(c.t);
	if (r.chance(6) && !c.w.empty())
	{
		static const u32 odd[] = { 0x130, 0x131, 0x212a, 0xff10, 0xff19, 0x660, 0x661, 0x66b, 0x66c, 0x6f0, 0x966, 0xff0e, 0x202f, 0xa0, 0x3000, 0xff2e, 0xff4e, 0x1d7ce };
		c.w[r.below(c.w.size())] = wchar_t(odd[r.below(18)]);
	}
	return c;
}

static int g_examples = 0;
static void one_case(Shard& s, const Case& c, const Res& want, int l, int mode, const char* numeric_point, const std::string& name_now, const std::locale& global_now, locale_t thread_now)
{
	const Res got = perform(c);
	if (!(got == want))
	{
		const std::string e = enc(c, l, mode);
		const std::string m = describe(c) + " in locale " + g_locales[std::size_t(l)] + " (" + mode_name(mode) + ") gave " + rshow(got) + "; in the C locale: " + rshow(want);
		if (std::strcmp(numeric_point, ".") && explained(c, got))
		{
			// listed as a known finding: a few examples are enough, and they must not end the run
			s.count("default_fallback_stopped_by_locale");
			if (s.index < 4 && !g_examples) { ++g_examples; s.fail("locale_fallback", e, m); }
		}
		else s.fail("depends", e, m);
	}
	if (name_now != std::setlocale(LC_ALL, nullptr) || !(global_now == std::locale()) || ::uselocale(nullptr) != thread_now)
		s.fail("changed", enc(c, l, mode), describe(c) + " changed the locale " + name_now + " to " + std::setlocale(LC_ALL, nullptr));
}

static void batch(Shard& s, unsigned n)
{
	std::vector<Case> cs; std::vector<Res> want;
	leave();
	for (unsigned i = 0; i < n; ++i) { cs.push_back(make(s.rng)); want.push_back(perform(cs.back())); }
	for (int l = 0; l < int(g_locales.size()); ++l)
	{
		const int mode = int(s.rng.below(modes));
		leave();
		if (!enter(l, mode)) { leave(); s.count("locale_missing"); continue; }
		const std::string point = ::localeconv()->decimal_point, name = std::setlocale(LC_ALL, nullptr); const std::locale g; const locale_t t = ::uselocale(nullptr);
		s.count(point == "." ? "batches_with_point" : point == "," ? "batches_with_comma" : "batches_with_other_point");
		s.count(mode_name(mode));
		for (unsigned i = 0; i < n; ++i)
		{
			s.begin(enc(cs[i], l, mode));
			one_case(s, cs[i], want[i], l, mode, point.c_str(), name, g, t);
			s.distinct(hash_bytes(cs[i].t.data(), cs[i].t.size(), mix(u64(l) * 64 + cs[i].op) ^ to_bits(cs[i].d)));
		}
		leave();
	}
	s.sample(describe(cs[0]));
}

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	{ std::string a = opt().extra["--locales"], x; for (char c : a + ",") { if (c == ',') { if (!x.empty()) g_locales.push_back(x); x.clear(); } else x += c; } }
	if (g_locales.size() > 60) g_locales.resize(60);
	const u64 n = u64((opt().thorough ? 2000 : 100) * opt().scale);
	Program p; p.shards = 64;
	p.shard = [=](Shard& s) { for (u64 i = 0; i < n && !s.stopped(); ++i) batch(s, 400); };
	p.one = [](const std::string& c, Shard& s)
	{
		Case x; x.op = c[0] - 'A'; const int mode = c[1] - 'A'; const std::string name = c.c_str() + 2; std::size_t k = 3 + name.size(); u32 len;
		std::memcpy(&x.d, c.data() + k, 8); std::memcpy(&x.f, c.data() + k + 8, 4); std::memcpy(&len, c.data() + k + 12, 4); k += 16; x.t = c.substr(k, len); k += len;
		x.w.resize((c.size() - k) / sizeof(wchar_t)); if (!x.w.empty()) std::memcpy(&x.w[0], c.data() + k, x.w.size() * sizeof(wchar_t));
		int l = -1; for (std::size_t i = 0; i < g_locales.size(); ++i) if (g_locales[i] == name) l = int(i);
		if (l < 0) return;
		leave(); const Res want = perform(x);
		if (!enter(l, mode)) return;
		const std::string point = ::localeconv()->decimal_point, nm = std::setlocale(LC_ALL, nullptr); const std::locale g; const locale_t t = ::uselocale(nullptr);
		one_case(s, x, want, l, mode, point.c_str(), nm, g, t);
	};
	return run(argc, argv, p);
}

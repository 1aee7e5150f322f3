// Monitor of C30: work and memory of one conversion are bounded. The compiler
// instruments every edge of the control flow graph (-fsanitize-coverage=trace-pc-guard),
// the callbacks count the executed edges and watch the depth of the stack; operator new counts the memory asked for;
// the functions of the C library which go along memory are wrapped and count its length.
#include <floaxie/atof.h>
#include <floaxie/ftoa.h>
#include "gen.hpp"
#include <new>
#include <cwchar>

using namespace vk;
u64 ref::oracle_disagreements = 0;

static char* g_low = nullptr; // the deepest frame seen
static bool g_on = false; static u64 g_edges = 0, g_bytes = 0, g_allocs = 0;
#define PLAIN __attribute__((no_sanitize("coverage")))
extern "C" PLAIN void __sanitizer_cov_trace_pc_guard(u32*) { if (!g_on) return; ++g_edges; char* const f = static_cast<char*>(__builtin_frame_address(0)); if (f < g_low) g_low = f; }
extern "C" PLAIN void __sanitizer_cov_trace_pc_guard_init(u32*, u32*) { }
PLAIN void* operator new(std::size_t n) { if (g_on) { g_bytes += n; ++g_allocs; } void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
PLAIN void operator delete(void* p) noexcept { std::free(p); }
PLAIN void operator delete(void* p, std::size_t) noexcept { std::free(p); }

// the C library goes along memory uninstrumented
extern "C"
{
#define WORK(n) do { if (g_on) g_edges += (n); } while (0)
std::size_t __real_strlen(const char*); PLAIN std::size_t __wrap_strlen(const char* s) { const std::size_t n = __real_strlen(s); WORK(n); return n; }
std::size_t __real_wcslen(const wchar_t*); PLAIN std::size_t __wrap_wcslen(const wchar_t* s) { const std::size_t n = __real_wcslen(s); WORK(n); return n; }
void* __real_memset(void*, int, std::size_t); PLAIN void* __wrap_memset(void* p, int c, std::size_t n) { WORK(n); return __real_memset(p, c, n); }
void* __real_memmove(void*, const void*, std::size_t); PLAIN void* __wrap_memmove(void* p, const void* q, std::size_t n) { WORK(n); return __real_memmove(p, q, n); }
void* __real_memcpy(void*, const void*, std::size_t); PLAIN void* __wrap_memcpy(void* p, const void* q, std::size_t n) { WORK(n); return __real_memcpy(p, q, n); }
const void* __real_memchr(const void*, int, std::size_t); PLAIN const void* __wrap_memchr(const void* p, int c, std::size_t n) { const void* r = __real_memchr(p, c, n); WORK(r ? std::size_t(static_cast<const char*>(r) - static_cast<const char*>(p)) : n); return r; }
}

struct Limits { u64 print = 800, print_string = 1600, parse_base = 3000, parse_char = 24, bytes_print = 512, bytes_parse = 768, stack = 16384; };
static Limits g_lim;

struct Meter { u64 edges, bytes, stack; };
template<typename F> static Meter meter(F f)
{
	g_edges = g_bytes = g_allocs = 0;
	char* const top = g_low = static_cast<char*>(__builtin_frame_address(0));
	g_on = true; f(); g_on = false;
	return Meter { g_edges, g_bytes, u64(top - g_low) };
}

template<typename T, typename C> static __attribute__((noinline)) void print(Shard& s, T v, const std::string& e, const char* form)
{
	C b[64];
	const Meter m = meter([&] { floaxie::ftoa(v, b); });
	s.maximum("most_steps_printing", m.edges);
	if (m.edges > g_lim.print) s.fail("printwork", e, std::string("printing ") + ref::vshow(v) + form + " takes " + std::to_string(m.edges) + " steps");
	s.maximum("most_stack_printing", m.stack);
	if (m.stack > g_lim.stack) s.fail("printstack", e, std::string("printing ") + ref::vshow(v) + form + " takes " + std::to_string(m.stack) + " bytes of stack");
	if (m.bytes) s.fail("printmem", e, std::string("printing ") + ref::vshow(v) + form + " asks for memory");
}
template<typename T> static void value_case(Shard& s, T v)
{
	const u64 bits = to_bits(v); std::string e(1, sizeof(T) == 8 ? 'p' : 'q'); e.append(reinterpret_cast<const char*>(&bits), 8);
	s.begin(e);
	print<T, char>(s, v, e, ""); print<T, wchar_t>(s, v, e, " as wchar_t"); print<T, char16_t>(s, v, e, " as char16_t");
	const Meter m = meter([&] { std::string x = floaxie::to_string(v); });
	s.maximum("most_steps_to_string", m.edges); s.maximum("most_bytes_to_string", m.bytes);
	if (m.edges > g_lim.print_string || m.bytes > g_lim.bytes_print) s.fail("stringwork", e, "to_string of " + ref::vshow(v) + " takes " + std::to_string(m.edges) + " steps and " + std::to_string(m.bytes) + " bytes");
	const Meter w = meter([&] { std::wstring x = floaxie::to_wstring(v); });
	if (w.edges > g_lim.print_string || w.bytes > 4 * g_lim.bytes_print) s.fail("stringwork", e, "to_wstring of " + ref::vshow(v) + " takes " + std::to_string(w.edges) + " steps and " + std::to_string(w.bytes) + " bytes");
	if (s.distinct(bits + sizeof(T))) s.count("values");
}
template<typename T, typename C> static __attribute__((noinline)) T stub(const C*, C** e) { (void)e; return T(1); }

template<typename T, typename C> static void text_case(Shard& s, const std::string& t, char kind)
{
	std::string e(1, kind); e += t.substr(0, 8000); s.begin(e);
	static std::basic_string<C> w; w.clear(); for (unsigned char c : t) w += C(sizeof(C) == 1 ? char(c) : c);
	const C* text = w.c_str(); C* end = const_cast<C*>(text);
	const Meter m = meter([&] { (void)floaxie::atof<T>(text, &end, stub<T, C>); });
	const ref::Scan sc = ref::scan(text);
	// what has to be looked at: the number itself and an incomplete part after it
	std::size_t len = sc.end + 16; if (sc.kind == ref::nothing || sc.kind == ref::nan_) while (len < t.size() && (std::isalnum((unsigned char)t[len]) || t[len] == '_')) ++len;
	if (sc.kind == ref::nothing && len > 64) len = 64;
	const u64 limit = g_lim.parse_base + g_lim.parse_char * len;
	s.maximum("most_steps_parsing", m.edges); s.maximum("most_bytes_parsing", m.bytes);
	s.maximum("most_steps_per_1000_characters", len > 1000 ? m.edges * 1000 / len : 0);
	if (m.edges > limit) s.fail("parsework", e, "parsing of '" + show(t) + "' (" + std::to_string(sc.end) + " of " + std::to_string(t.size()) + " characters) takes " + std::to_string(m.edges) + " steps, more than " + std::to_string(limit));
	s.maximum("most_stack_parsing", m.stack);
	if (m.stack > g_lim.stack) s.fail("parsestack", e, "parsing of '" + show(t) + "' (" + std::to_string(t.size()) + " characters) takes " + std::to_string(m.stack) + " bytes of stack");
	if (m.bytes > g_lim.bytes_parse) s.fail("parsemem", e, "parsing of '" + show(t) + "' (" + std::to_string(t.size()) + " characters) asks for " + std::to_string(m.bytes) + " bytes");
	if (s.distinct(hash_bytes(t.data(), t.size(), u64(kind)))) { s.count("texts"); s.count(len > 1000 ? "long_numbers" : t.size() > len + 1000 ? "long_rests" : "short_texts"); }
}
static void text_all(Shard& s, const std::string& t0)
{
	const std::string t = t0.c_str();
	text_case<double, char>(s, t, 'd'); text_case<float, char>(s, t, 'f');
	if (s.rng.chance(4)) { text_case<double, wchar_t>(s, t, 'D'); text_case<float, wchar_t>(s, t, 'F'); }
}

static std::string big(Rng& r)
{
	const std::size_t n = r.chance(4) ? r.below(100000) : r.below(4000);
	auto run = [&](std::size_t k) { std::string x; for (std::size_t i = 0; i < k; ++i) x += char('0' + r.below(10)); return x; };
	static const char* const filler[] = { " ", ",", "1", "0", "x", "1,", "0 ", "9.", "e", "-" };
	auto rest = [&](std::size_t k) { std::string x, f = filler[r.below(10)]; while (x.size() < k) x += f; return x; };
	switch (r.below(16))
	{
	case 0: return run(n);
	case 1: return std::string(n, '0') + "." + std::string(n, '0') + run(20);
	case 2: return run(1 + r.below(19)) + std::string(n, '0') + run(5) + std::string(n, '0') + run(5);
	case 3: return "1e" + std::string(n, '0') + "5";
	case 4: return "1e" + run(n);
	case 5: return "nan(" + std::string(n, "aZ_09z"[r.below(6)]) + (r.chance(2) ? ")" : "");
	case 9: { static const char* const units[] = { "a_", "_9", "0a1b", "Zz__9", "12345", "aA" }; std::string t = "nan("; const char* u = units[r.below(6)]; while (t.size() < n) t += u; return t + (r.chance(2) ? ")" : "."); }
	case 10: { const std::string t = std::string(n, char('1' + r.below(9))); return r.chance(3) ? t : r.chance(2) ? "." + t : std::string(1 + r.below(30), '1') + "." + t; }
	case 11: return std::string(1, "-+"[r.below(2)]) + (r.chance(2) ? "0." : "") + run(r.below(25)) + "e" + std::string(1, "+-"[r.below(2)]) + std::string(n, char('0' + r.below(10)));
	case 6: return "." + run(n);
	case 7: { std::string t; for (std::size_t i = 0; i < n; ++i) t += r.chance(3) ? '0' : char('1' + r.below(9)); return t; }
	case 8: { std::string t; for (std::size_t i = 0; i < n / 2; ++i) t += i & 1 ? "0" : "1"; return t + "e-" + std::to_string(n); }
	default: return gen::text<double>(r).substr(0, 200) + (r.chance(2) ? " " : "") + rest(n); // a short number and a long rest
	}
}

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	// without optimisation the C++ library's small functions count too
	if (opt().extra.count("--unoptimised")) { g_lim.print *= 6; g_lim.print_string *= 6; g_lim.parse_base *= 6; g_lim.parse_char *= 4; }
	Program p; p.shards = 128;
	const u64 n = u64((opt().thorough ? 200000 : 9000) * opt().scale);
	p.shard = [=](Shard& s)
	{
		Rng& r = s.rng;
		for (int e = int(s.index) % 2048; e < 2048; e += 128) for (int i = 0; i < 40; ++i)
		{
			const u64 m = i < 3 ? u64(i) : i < 6 ? (u64(1) << 52) + 2 - u64(i) : r();
			const double v = from_bits<double>(u64(e) << 52 | (m & ((u64(1) << 52) - 1)) | u64(r.chance(2)) << 63); value_case(s, v);
			if (e < 256) value_case(s, from_bits<float>(u32(e) << 23 | (u32(m) & 0x7fffff) | u32(r.chance(2)) << 31));
		}
		for (u64 i = 0; i < n && !s.stopped(); ++i)
		{
			value_case(s, gen::value<double>(r, true)); value_case(s, gen::value<float>(r, true));
			const std::string t = r.chance(30) ? big(r) : r.chance(2) ? gen::text<double>(r) : gen::text<float>(r);
			if (i < 2) s.sample("'" + t + "'");
			text_all(s, t);
		}
	};
	p.one = [](const std::string& c, Shard& s)
	{
		u64 b = 0;
		switch (c[0])
		{
		case 'p': std::memcpy(&b, c.data() + 1, 8); value_case(s, from_bits<double>(b)); break;
		case 'q': std::memcpy(&b, c.data() + 1, 8); value_case(s, from_bits<float>(u32(b))); break;
		case 'd': text_case<double, char>(s, c.substr(1), 'd'); break; case 'f': text_case<float, char>(s, c.substr(1), 'f'); break;
		case 'D': text_case<double, wchar_t>(s, c.substr(1), 'D'); break; case 'F': text_case<float, wchar_t>(s, c.substr(1), 'F'); break;
		}
	};
	return run(argc, argv, p);
}

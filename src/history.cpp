// Monitor of C17: results along histories of conversions against those of fresh
// processes; errno, memory, input, rounding mode before and after every call.
#include <floaxie/atof.h>
#include <floaxie/ftoa.h>
#include "gen.hpp"
#include <cfenv>
#include <xmmintrin.h>
#include <new>
#include <clocale>
#include <ctime>
#include <iostream>
#include <sys/stat.h>
#include <sys/time.h>
#include <dirent.h>
#include <dlfcn.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <csignal>
#include <cstddef>
#include <alloca.h>
#include <thread>

using namespace vk;
u64 ref::oracle_disagreements = 0;

// ---- allocation accounting
#if !defined(__SANITIZE_ADDRESS__) && !defined(NO_COUNT)
extern "C" { void* __libc_malloc(std::size_t); void __libc_free(void*); void* __libc_calloc(std::size_t, std::size_t); void* __libc_realloc(void*, std::size_t); }
static long g_live = 0; static u64 g_allocs = 0;
extern "C" void* malloc(std::size_t n) { void* p = __libc_malloc(n); if (p) { ++g_live; ++g_allocs; } return p; }
extern "C" void free(void* p) { if (p) --g_live; __libc_free(p); }
extern "C" void* calloc(std::size_t a, std::size_t b) { void* p = __libc_calloc(a, b); if (p) { ++g_live; ++g_allocs; } return p; }
extern "C" void* realloc(void* p, std::size_t n) { void* q = __libc_realloc(p, n); if (!p && q) { ++g_live; ++g_allocs; } return q; }
#else
static long g_live = 0; static u64 g_allocs = 0;
#endif

// ---- what a conversion could ask its surroundings for. While one is running, the
// answers differ from call to call: nothing of them may be seen in the result
static thread_local u64 g_answer = 0; // 0: the real ones
static u64 g_questions = 0;
struct InCall { explicit InCall(u64 a) { g_answer = a; } ~InCall() { g_answer = 0; } };
template<typename F> static F real(const char* n) { static F f = reinterpret_cast<F>(::dlsym(RTLD_NEXT, n)); return f; }
#define ASKED (g_answer && ++g_questions)
extern "C" char* getenv(const char* n) noexcept { if (ASKED) { static char v[][4] = { "1", "0", "yes", "" }; return g_answer & 8 ? nullptr : v[g_answer >> 4 & 3]; } return real<char* (*)(const char*)>("getenv")(n); }
extern "C" char* secure_getenv(const char* n) noexcept { if (ASKED) return ::getenv(n); return real<char* (*)(const char*)>("secure_getenv")(n); }
extern "C" time_t time(time_t* t) noexcept { if (ASKED) { const time_t r = time_t(g_answer >> 20); if (t) *t = r; return r; } return real<time_t (*)(time_t*)>("time")(t); }
extern "C" clock_t clock() noexcept { if (ASKED) return clock_t(g_answer >> 16); return real<clock_t (*)()>("clock")(); }
extern "C" int clock_gettime(clockid_t c, struct timespec* t) noexcept { if (ASKED) { t->tv_sec = time_t(g_answer >> 30); t->tv_nsec = long(g_answer % 1000000000); return 0; } return real<int (*)(clockid_t, struct timespec*)>("clock_gettime")(c, t); }
extern "C" int gettimeofday(struct timeval* t, void* z) noexcept { if (ASKED) { t->tv_sec = time_t(g_answer >> 30); t->tv_usec = long(g_answer % 1000000); return 0; } return real<int (*)(struct timeval*, void*)>("gettimeofday")(t, z); }
extern "C" int rand() noexcept { if (ASKED) return int(g_answer >> 33); return real<int (*)()>("rand")(); }
extern "C" long random() noexcept { if (ASKED) return long(g_answer >> 33); return real<long (*)()>("random")(); }
extern "C" pid_t getpid() noexcept { if (ASKED) return pid_t(g_answer >> 40 | 1); return real<pid_t (*)()>("getpid")(); }
extern "C" int sched_getcpu() noexcept { if (ASKED) return int(g_answer >> 50 & 7); return real<int (*)()>("sched_getcpu")(); }

enum Op { print_d, print_f, print_wd, print_wf, print_u16, string_d, string_f, wstring_d, print_32f, wstring_f, string_16d, string_32f, parse_d, parse_f, parse_wd, parse_wf, parse_null_d, parse_null_wf, from_string_d, from_string_f, from_wstring_d, from_wstring_f, own_fallback, throwing_fallback, ops };
static bool prints(int op) { return op < parse_d; }
static bool wide(int op) { return op == parse_wd || op == parse_wf || op == from_wstring_d || op == parse_null_wf || op == from_wstring_f; }
static bool single(int op) { return op == print_f || op == print_wf || op == string_f || op == parse_f || op == parse_wf || op == from_string_f || op == print_32f || op == wstring_f || op == string_32f || op == parse_null_wf || op == from_wstring_f; }

struct Case { int op; double d; float f; std::string t; };
struct Res { u64 bits; int status; long end; int len; char text[64]; int thrown; };
static bool same(const Res& a, const Res& b) { return a.bits == b.bits && a.status == b.status && a.end == b.end && a.len == b.len && !std::memcmp(a.text, b.text, sizeof a.text) && a.thrown == b.thrown; }
static std::string rshow(const Res& r) { char b[128]; std::snprintf(b, sizeof b, "bits 0x%llx, %s, end %ld, length %d, text '", (unsigned long long)r.bits, ref::status_name(r.status), r.end, r.len); return b + show(std::string(r.text, strnlen(r.text, sizeof r.text))) + "'" + (r.thrown ? ", exception" : ""); }
static u64 vbits(double v) { return std::isnan(v) ? 1 : to_bits(v); }
static u64 vbits(float v) { return std::isnan(v) ? 1 : to_bits(v); }

static std::string enc(const Case& c)
{
	std::string r(1, char('A' + c.op));
	r.append(reinterpret_cast<const char*>(&c.d), 8); r.append(reinterpret_cast<const char*>(&c.f), 4); r += c.t;
	return r;
}
static Case dec(const std::string& s)
{
	Case c; c.op = s[0] - 'A'; std::memcpy(&c.d, s.data() + 1, 8); std::memcpy(&c.f, s.data() + 9, 4); c.t = s.substr(13); return c;
}
static std::string describe(const Case& c)
{
	static const char* n[] = { "ftoa(double)", "ftoa(float)", "ftoa(double, wchar_t*)", "ftoa(float, wchar_t*)", "ftoa(double, char16_t*)", "to_string(double)", "to_string(float)", "to_wstring(double)", "ftoa(float, char32_t*)", "to_wstring(float)", "to_u16string(double)", "to_u32string(float)", "atof<double>", "atof<float>", "atof<double>(wchar_t)", "atof<float>(wchar_t)", "atof<double>(null)", "atof<float>(wchar_t, null)", "from_string<double>", "from_string<float>", "from_string<double>(wstring)", "from_string<float>(wstring)", "atof<double>(own fallback)", "atof<double>(throwing fallback)" };
	return std::string(n[c.op]) + (prints(c.op) ? " of " + (single(c.op) ? ref::vshow(c.f) : ref::vshow(c.d)) : " of '" + show(c.t, 80) + "'");
}

struct Env // of one call
{
	int err = 0; int place = 0; unsigned offset = 0; unsigned char fill = 0; bool dirty = false; bool thread = false; u64 noise = 0;
};
struct Arena
{
	char* rw; char* ro; std::size_t size, page; char* out;
	Arena()
	{
		page = std::size_t(sysconf(_SC_PAGESIZE)); size = 8 * page;
		const int fd = int(::memfd_create("arena", 0));
		if (fd < 0 || ::ftruncate(fd, off_t(size))) { std::perror("memfd"); _exit(2); }
		rw = static_cast<char*>(::mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
		char* b = static_cast<char*>(::mmap(nullptr, size + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		ro = static_cast<char*>(::mmap(b + page, size, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0));
		out = static_cast<char*>(::mmap(nullptr, page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		if (rw == MAP_FAILED || ro == MAP_FAILED || out == MAP_FAILED) { std::perror("mmap"); _exit(2); }
		::close(fd);
	}
};
static Arena& arena() { static Arena a; return a; }

static __attribute__((noinline)) void dirty_stack(unsigned char c) { volatile unsigned char b[6000]; for (unsigned i = 0; i < sizeof b; ++i) b[i] = c; }

static unsigned x87() { unsigned short c; __asm__ volatile("fnstcw %0" : "=m"(c)); return c; }
struct Watch { int err_after; long live; bool input_changed; int round_before, round_after; unsigned csr_before, csr_after; bool locale_changed; };

struct Boom { };
static bool g_in_fallback = false;
static double nested_fallback(const char* s, char** e)
{
	// a conversion inside a conversion
	char b[64]; floaxie::ftoa(123.456, b); char* q; (void)floaxie::atof<float>("9.5e3", &q);
	return std::strtod(s, e);
}

template<typename C> static const C* put(const std::string& t, const Env& v)
{
	Arena& a = arena();
	const std::size_t bytes = (t.size() + 1) * sizeof(C);
	std::size_t off;
	switch (v.place)
	{
	case 0: off = (v.offset % 64) * (sizeof(C) == 1 ? 1 : sizeof(C)); break;
	case 1: off = a.size - bytes; break;                                   // right before an unmapped page
	case 2: off = (4 * a.page - (v.offset % (t.size() + 1)) * sizeof(C)); break; // across a page boundary
	default: off = (4 * a.page + (v.offset % 512) * sizeof(C)); break;
	}
	if (off + bytes > a.size) off = a.size - bytes;
	// surroundings
	static const char around[] = "0123456789.eE+-9f)n(iI 5";
	for (unsigned i = 1; i <= 24 && i * sizeof(C) <= off; ++i) { const C c = C(around[(v.noise >> (i % 17)) % 24]); std::memcpy(a.rw + off - i * sizeof(C), &c, sizeof(C)); }
	for (unsigned i = 0; i < 24 && off + bytes + (i + 1) * sizeof(C) <= a.size; ++i) { const C c = C(around[(v.noise >> (i % 23)) % 24]); std::memcpy(a.rw + off + bytes + i * sizeof(C), &c, sizeof(C)); }
	C* w = reinterpret_cast<C*>(a.rw + off);
	for (std::size_t i = 0; i < t.size(); ++i) w[i] = sizeof(C) == 1 ? C(t[i]) : C((unsigned char)t[i]);
	w[t.size()] = C(0);
	return reinterpret_cast<const C*>(a.ro + off);
}

template<typename T, typename C> static void do_parse(const Case& c, const Env& v, Res& r, Watch& w, int how)
{
	const C* s = put<C>(c.t, v);
	const u64 before = hash_bytes(s, (c.t.size() + 1) * sizeof(C));
	C* e = const_cast<C*>(s) - 1;
	std::basic_string<C> str; if (how == 2) str = s;
	if (v.dirty) dirty_stack(v.fill);
	w.round_before = std::fegetround(); w.csr_before = _mm_getcsr() & 0xffc0;
	w.live = -g_live;
	floaxie::value_and_status<T> x;
	{
	InCall in(v.noise);
	errno = v.err;
	if (how == 0) x = floaxie::atof<T>(s, &e);
	else if (how == 1) x = floaxie::atof<T>(s, nullptr);
	else x = floaxie::from_string<T>(str);
	w.err_after = errno;
	}
	w.live += g_live;
	w.csr_after = _mm_getcsr() & 0xffc0; w.round_after = std::fegetround();
	w.input_changed = hash_bytes(s, (c.t.size() + 1) * sizeof(C)) != before;
	r.bits = vbits(x.value); r.status = int(x.status); r.end = how == 0 ? long(e - s) : 0;
}
template<typename T, typename C> static void do_print(const Case& c, T val, const Env& v, Res& r, Watch& w)
{
	C* b = reinterpret_cast<C*>(arena().out + (v.offset % 64) * sizeof(C));
	std::memset(static_cast<void*>(b), v.fill, 200);
	if (v.dirty) dirty_stack((unsigned char)(v.noise));
	w.round_before = std::fegetround(); w.csr_before = _mm_getcsr() & 0xffc0;
	w.live = -g_live;
	std::size_t n;
	{
		InCall in(v.noise);
		errno = v.err;
		n = floaxie::ftoa(val, b);
		w.err_after = errno;
	}
	w.live += g_live;
	w.csr_after = _mm_getcsr() & 0xffc0; w.round_after = std::fegetround();
	r.len = int(n);
	for (int i = 0; i < 40 && b[i]; ++i) r.text[i] = char(b[i]);
	(void)c;
}
template<typename T, typename S> static void do_string(T val, const Env& v, Res& r, Watch& w, S (*fn)(T))
{
	if (v.dirty) dirty_stack((unsigned char)(v.noise));
	w.round_before = std::fegetround(); w.csr_before = _mm_getcsr() & 0xffc0;
	w.live = -g_live;
	{
		InCall in(v.noise);
		errno = v.err;
		const S x = fn(val);
		w.err_after = errno;
		r.len = int(x.size());
		for (int i = 0; i < 40 && i < int(x.size()); ++i) r.text[i] = char(x[std::size_t(i)]);
	}
	w.live += g_live;
	w.csr_after = _mm_getcsr() & 0xffc0; w.round_after = std::fegetround();
}

static Res perform1(const Case& c, const Env& v, Watch& w)
{
	Res r; std::memset(&r, 0, sizeof r); std::memset(&w, 0, sizeof w);
	switch (c.op)
	{
	case print_d: do_print<double, char>(c, c.d, v, r, w); break;
	case print_f: do_print<float, char>(c, c.f, v, r, w); break;
	case print_wd: do_print<double, wchar_t>(c, c.d, v, r, w); break;
	case print_wf: do_print<float, wchar_t>(c, c.f, v, r, w); break;
	case print_u16: do_print<double, char16_t>(c, c.d, v, r, w); break;
	case string_d: do_string<double, std::string>(c.d, v, r, w, [](double x) { return floaxie::to_string(x); }); break;
	case string_f: do_string<float, std::string>(c.f, v, r, w, [](float x) { return floaxie::to_string(x); }); break;
	case wstring_d: do_string<double, std::wstring>(c.d, v, r, w, [](double x) { return floaxie::to_wstring(x); }); break;
	case print_32f: do_print<float, char32_t>(c, c.f, v, r, w); break;
	case wstring_f: do_string<float, std::wstring>(c.f, v, r, w, [](float x) { return floaxie::to_wstring(x); }); break;
	case string_16d: do_string<double, std::u16string>(c.d, v, r, w, [](double x) { return floaxie::to_u16string(x); }); break;
	case string_32f: do_string<float, std::u32string>(c.f, v, r, w, [](float x) { return floaxie::to_u32string(x); }); break;
	case parse_d: do_parse<double, char>(c, v, r, w, 0); break;
	case parse_f: do_parse<float, char>(c, v, r, w, 0); break;
	case parse_wd: do_parse<double, wchar_t>(c, v, r, w, 0); break;
	case parse_wf: do_parse<float, wchar_t>(c, v, r, w, 0); break;
	case parse_null_d: do_parse<double, char>(c, v, r, w, 1); break;
	case parse_null_wf: do_parse<float, wchar_t>(c, v, r, w, 1); break;
	case from_wstring_f: do_parse<float, wchar_t>(c, v, r, w, 2); break;
	case from_string_d: do_parse<double, char>(c, v, r, w, 2); break;
	case from_string_f: do_parse<float, char>(c, v, r, w, 2); break;
	case from_wstring_d: do_parse<double, wchar_t>(c, v, r, w, 2); break;
	case own_fallback:
	{
		const char* s = put<char>(c.t, v); char* e = nullptr;
		w.live = -g_live; InCall in(v.noise); errno = v.err;
		const auto x = floaxie::atof<double>(s, &e, nested_fallback);
		w.err_after = errno; w.live += g_live;
		r.bits = vbits(x.value); r.status = int(x.status); r.end = e - s;
		break;
	}
	case throwing_fallback:
	{
		const char* s = put<char>(c.t, v); char* e = const_cast<char*>(s) - 1;
		w.live = -g_live; InCall in(v.noise);
		try { errno = v.err; const auto x = floaxie::atof<double>(s, &e, [](const char*, char**) -> double { throw Boom(); }); w.err_after = errno; r.bits = vbits(x.value); r.status = int(x.status); r.end = e - s; }
		catch (const Boom&) { w.err_after = errno; r.thrown = 1; }
		w.live += g_live;
		break;
	}
	}
	return r;
}

// at another depth of the stack, maybe in another thread, watching the locale
static Res perform(const Case& c, const Env& v, Watch& w)
{
	if (v.thread) { Res r; Env u = v; u.thread = false; std::thread([&] { r = perform(c, u, w); }).join(); return r; }
	volatile char* pad = static_cast<volatile char*>(::alloca(16 + (v.offset & 0xff) * 16)); pad[0] = 1;
	const locale_t mine = ::uselocale(locale_t(0)); const char* const global = ::setlocale(LC_ALL, nullptr); const unsigned cw = x87();
	char name[64]; std::snprintf(name, sizeof name, "%s", global ? global : "");
	const Res r = perform1(c, v, w);
	const char* const now = ::setlocale(LC_ALL, nullptr);
	w.locale_changed = ::uselocale(locale_t(0)) != mine || std::strncmp(name, now ? now : "", sizeof name - 1);
	if (x87() != cw) w.csr_after = ~w.csr_before;
	return r;
}

static std::vector<Case> g_cases; static Res* g_fresh; static unsigned g_pair_cases;

static void make_cases(unsigned n)
{
	Rng r(mix(opt().seed) ^ 99);
	static const char* tell[] = { "0", "-0", "0e5", "1", "nan", "-inf", "infinity", "nan(12", "", "-", ".", "abc", "1e", "12.5e-", "1e400", "-1e400", "1e-400", "-1e-400", "1.7976931348623158e308", "1.7976931348623159e308",
		"2.4703282292062327e-324", "2.4703282292062328e-324", "4.9e-324", "-4.9e-324", "2.2250738585072011e-308", "2.2250738585072012e-308", "9007199254740993", "9007199254740993.5", "9007199254740992.99999999999999999", "16777217", "16777217.0000001", "3.4028235677973366e38", "3.4028235677973365e38",
		"7.0064923216240854e-46", "7.006e-46", "1.1754943157898258e-38", "1e-45", "4.9406564584124654417656879286822137236505980e-324", "1.79769313486231580793728971405303415079934132e308", "7.0064923216240853546186479164495e-46", "3.4028235677973366163753939545814256845e38", "123456789012345678901234567890", "0.000000000000000000000000000000000000000012345678901234567", "1e23", "8.5e22", "100000000000000000000000", "3.14159265358979323846264338327950288", "1e99999999999", "1e-99999999999", "340282346638528859811704183484516925440", "179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042880" };
	const unsigned nt = sizeof tell / sizeof *tell;
	for (unsigned i = 0; i < n; ++i)
	{
		Case c; c.op = int(i % ops);
		c.d = gen::value<double>(r, true); c.f = gen::value<float>(r, true);
		if (r.chance(10)) { static const double sp[] = { 0, -0.0, INFINITY, -INFINITY, NAN, 5e-324, 1.7976931348623157e308, 1, 1e16, 1e17, 1e-16, 123456 }; c.d = sp[r.below(12)]; c.f = float(c.d); }
		c.t = i < ops * nt ? tell[i / ops] : i % 3 ? tell[(i / ops + r.below(nt)) % nt] : gen::text<double>(r);
		if (i < ops * nt) { c.t = c.t.c_str(); g_cases.push_back(c); continue; }
		if (r.chance(4)) c.t = gen::sign(r) + gen::number<double>(r, r.chance(2) ? 4 : 5);
		if (r.chance(8)) c.t = gen::sign(r) + gen::number<float>(r, r.chance(2) ? 4 : 9);
		if (c.t.size() > 2000) c.t.resize(2000);
		c.t = c.t.c_str();
		g_cases.push_back(c);
	}
	for (std::size_t i = g_cases.size(); i > 1; --i) std::swap(g_cases[i - 1], g_cases[r.below(i)]);
}

static void judge(Shard& s, const Case& c, const Env& v, const Res& got, const Res& want, const Watch& w, const char* where)
{
	const std::string e = enc(c);
	auto d = [&] { return describe(c) + " " + where; };
	if (!same(got, want)) s.fail("depends", e, d() + " gave " + rshow(got) + "; in a fresh process: " + rshow(want) + " (errno before " + std::to_string(v.err) + ", placement " + std::to_string(v.place) + "/" + std::to_string(v.offset) + ")");
	if (w.live) s.fail("memory", e, d() + " leaves " + std::to_string(w.live) + " blocks allocated");
	if (w.input_changed) s.fail("input", e, d() + " changed its input");
	if (w.round_before != w.round_after || w.csr_before != w.csr_after) s.fail("rounding", e, d() + " changed the floating point environment");
	if (w.locale_changed) s.fail("locale", e, d() + " changed the locale");
	if (w.err_after != v.err)
	{
		const double mag = single(c.op) ? std::fabs(double(from_bits<float>(u32(got.bits)))) : std::fabs(from_bits<double>(got.bits));
		const double least = single(c.op) ? double(std::numeric_limits<float>::min()) : std::numeric_limits<double>::min();
		const bool range = !prints(c.op) && (got.status != 0 || mag <= least);
		if (!(w.err_after == ERANGE && range)) s.fail("errno", e, d() + " changed errno from " + std::to_string(v.err) + " to " + std::to_string(w.err_after));
		else s.count("errno_set_by_range_error");
	}
}

static Env random_env(Rng& r)
{
	static const int errs[] = { 0, ERANGE, EINVAL, EDOM, ENOENT, -1, 0, ERANGE };
	Env v; v.err = errs[r.below(8)]; v.place = int(r.below(4)); v.offset = unsigned(r.below(4096)); v.fill = (unsigned char)(r.chance(2) ? "\0\xff" "09.e"[r.below(6)] : r()); v.dirty = r.chance(2); v.noise = r() | 1; v.thread = r.chance(100);
	return v;
}

// very many conversions of one kind within one process, a whole counter's worth of them
template<typename F, typename G> static void many(Shard& s, u64 n, const char* kind, G make, F call)
{
	std::string text[8]; u64 first[8];
	for (int k = 0; k < 8; ++k) { text[k] = make(k); first[k] = call(k, text[k]); }
	for (u64 i = 0; i < n && !s.stopped(); ++i)
	{
		const int k = int(i * 0x9e3779b97f4a7c15ull >> 61);
		if (!(i & 0xfffff)) s.tick();
		if (call(k, text[k]) != first[k]) { s.fail("marathon", "", std::string(kind) + " of '" + text[k] + "' gives another result in call " + std::to_string(i + 9) + " than in the first"); break; }
	}
	s.count("marathons"); s.maximum("longest_marathon", n); s.evaluations += n;
}
static void marathon(Shard& s, u64 n)
{
	Rng& r = s.rng; double d[8]; float f[8];
	for (int k = 0; k < 8; ++k) { do d[k] = gen::value<double>(r); while (!std::isfinite(d[k])); do f[k] = gen::value<float>(r); while (!std::isfinite(f[k])); }
	auto number_text = [&](int k) { return k < 2 ? gen::sign(r) + gen::number<double>(r, 5) : k < 4 ? gen::special(r) : k < 6 ? gen::text<double>(r) : floaxie::to_string(d[k]); };
	auto hard_text = [](int k) { static const char* t[] = { "9007199254740993", "9007199254740993.0000000000000000000000001", "2.4703282292062327e-324", "8.5e-323", "1e400", "1e-400", "4.9e-324", "-9007199254740995" }; return std::string(t[k]); };
	auto hash = [](const std::string& t, std::size_t len, u64 x) { return hash_bytes(t.data(), len < t.size() ? len : t.size(), x); };
	auto parsed = [](const std::string& t, u64 bits, int st, long end) { (void)t; return bits * 31 + u64(st) * 7 + u64(end) * 0x100000001b3ull; };
	auto value_text = [&](int k) { return std::to_string(d[k]); };
	switch (s.index % 6)
	{
	case 0: many(s, n, "printing", value_text, [&](int k, const std::string&) { char b[64]; const std::size_t l = floaxie::ftoa(d[k], b); return hash_bytes(b, l < 64 ? l + 1 : 64); }); break;
	case 1: many(s, n, "printing float", value_text, [&](int k, const std::string&) { wchar_t b[64]; const std::size_t l = floaxie::ftoa(f[k], b); return hash_bytes(b, (l < 64 ? l + 1 : 64) * sizeof(wchar_t)); }); break;
	case 2: many(s, n, "parsing", number_text, [&](int, const std::string& t) { char* e; const auto x = floaxie::atof<double>(t.c_str(), &e); return parsed(t, vbits(x.value), int(x.status), e - t.c_str()); }); break;
	case 3: many(s, n, "parsing as float", number_text, [&](int, const std::string& t) { char* e; const auto x = floaxie::atof<float>(t.c_str(), &e); return parsed(t, vbits(x.value), int(x.status), e - t.c_str()); }); break;
	case 4: many(s, n / 2, "hard parsing", hard_text, [&](int, const std::string& t) { const auto x = floaxie::from_string<double>(t); return parsed(t, vbits(x.value), int(x.status), 0); }); break;
	case 5: many(s, n / 2, "printing to a string", value_text, [&](int k, const std::string&) { const std::string x = k & 1 ? floaxie::to_string(d[k]) : floaxie::to_string(f[k]); return hash(x, x.size(), 1); }); break;
	}
}

static unsigned entries(const char* dir)
{
	unsigned n = 0;
	if (DIR* d = ::opendir(dir)) { while (::readdir(d)) ++n; ::closedir(d); }
	return n;
}
// conversions say nothing and keep no descriptors or threads. In a process of its own
static void silence(Shard& s)
{
	struct Out { unsigned long said[2]; unsigned fds[2], threads[2]; int done; char text[2][200]; };
	Out* o = static_cast<Out*>(shared_mem(sizeof(Out)));
	std::fflush(nullptr);
	const pid_t q = fork();
	if (q < 0) { std::perror("fork"); _exit(2); }
	if (q == 0)
	{
		int fd[2];
		for (int k = 0; k < 2; ++k) { fd[k] = int(::memfd_create("said", 0)); if (fd[k] < 0 || ::dup2(fd[k], 1 + k) < 0) ::_exit(2); }
		o->fds[0] = entries("/proc/self/fd"); o->threads[0] = entries("/proc/self/task");
		Rng r(mix(opt().seed + 77)); Watch w;
		for (unsigned i = 0; i < 4 * g_cases.size(); ++i) { Env v = random_env(r); v.thread = false; (void)perform(g_cases[i % g_cases.size()], v, w); }
		std::fflush(nullptr); std::cout.flush(); std::cerr.flush(); std::clog.flush(); std::wcout.flush(); std::wcerr.flush(); std::wclog.flush(); std::fflush(nullptr);
		o->fds[1] = entries("/proc/self/fd"); o->threads[1] = entries("/proc/self/task");
		for (int k = 0; k < 2; ++k) { struct stat t; ::fstat(fd[k], &t); o->said[k] = (unsigned long)t.st_size; const ssize_t n = ::pread(fd[k], o->text[k], sizeof o->text[k] - 1, 0); (void)n; }
		o->done = 1;
		::_exit(0);
	}
	int st = 0; while (::waitpid(q, &st, 0) < 0 && errno == EINTR);
	if (o->done)
	{
		for (int k = 0; k < 2; ++k) if (o->said[k]) s.fail("output", "", std::string("conversions write to standard ") + (k ? "error" : "output") + ": '" + show(o->text[k], 120) + "'");
		if (o->fds[1] != o->fds[0]) s.fail("descriptors", "", std::to_string(o->fds[0]) + " descriptors before the conversions, " + std::to_string(o->fds[1]) + " afterwards");
		if (o->threads[1] != o->threads[0]) s.fail("threads", "", std::to_string(o->threads[0]) + " threads before the conversions, " + std::to_string(o->threads[1]) + " afterwards");
		s.count("silent_conversions", 4 * g_cases.size());
	}
	::munmap(o, sizeof(Out));
}

// conversions ask the system for memory only: no files, processes, sockets ... In a process of its own
struct Asked { long nr; int refused, done; unsigned i; };
static Asked* g_asked;
static void solitude(Shard& s)
{
	g_asked = static_cast<Asked*>(shared_mem(sizeof(Asked)));
	std::fflush(nullptr);
	const pid_t q = fork();
	if (q < 0) { std::perror("fork"); _exit(2); }
	if (q == 0)
	{
		static const unsigned allowed[] = { SYS_brk, SYS_mmap, SYS_munmap, SYS_mremap, SYS_mprotect, SYS_madvise, SYS_futex, SYS_rt_sigaction, SYS_rt_sigprocmask, SYS_rt_sigreturn, SYS_exit, SYS_exit_group,
			SYS_sched_yield, SYS_tgkill, SYS_gettid, SYS_getpid, SYS_clock_gettime, SYS_restart_syscall };
		std::vector<sock_filter> prog { BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr)) };
		for (unsigned nr : allowed) { prog.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, nr, 0, 1)); prog.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)); }
		prog.push_back(BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP));
		sock_fprog fp { (unsigned short)prog.size(), prog.data() };
		struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_flags = SA_SIGINFO;
		sa.sa_sigaction = [](int, siginfo_t* i, void*) { g_asked->nr = i->si_syscall; g_asked->refused = 1; ::_exit(0); };
		::sigaction(SIGSYS, &sa, nullptr);
		Rng r(mix(opt().seed + 78)); Watch w; (void)arena(); (void)entries("/proc/self/fd");
		if (::prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || ::prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &fp)) ::_exit(0); // isn't possible here
		for (unsigned i = 0; i < 2 * g_cases.size(); ++i) { g_asked->i = i; Env v = random_env(r); v.thread = false; (void)perform(g_cases[i % g_cases.size()], v, w); }
		g_asked->done = 1;
		::_exit(0);
	}
	int st = 0; while (::waitpid(q, &st, 0) < 0 && errno == EINTR);
	if (g_asked->refused) s.fail("system", "", "a conversion (" + describe(g_cases[g_asked->i % g_cases.size()]) + ") makes system call " + std::to_string(g_asked->nr) + ", which has nothing to do with memory");
	else if (g_asked->done) s.count("conversions_without_system_calls", 2 * g_cases.size());
	::munmap(g_asked, sizeof(Asked));
}

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	const bool th = opt().thorough;
	const unsigned cases = th ? 3600 : 1800; g_pair_cases = th ? 900 : 216;
	const u64 n = u64((th ? 4000000 : 120000) * opt().scale);
	Program p; p.shards = 128;
	p.prepare = [=]
	{
		make_cases(cases);
		g_fresh = static_cast<Res*>(shared_mem(sizeof(Res) * cases));
		if (opt().has_one) return;
		// no conversion has been made so far: every result comes from a fresh process
		std::vector<pid_t> ps;
		for (unsigned i = 0; i < cases; ++i)
		{
			const pid_t q = fork();
			if (q < 0) { std::perror("fork"); std::exit(2); }
			if (q == 0) { Watch w; Env v; v.fill = 0x55; g_fresh[i] = perform(g_cases[i], v, w); _exit(0); }
			ps.push_back(q);
			if (ps.size() == 16) { for (pid_t x : ps) { int st; ::waitpid(x, &st, 0); } ps.clear(); }
		}
		for (pid_t x : ps) { int st; ::waitpid(x, &st, 0); }
	};
	p.shard = [=](Shard& s)
	{
		Rng& r = s.rng; Watch w;
		s.sample(describe(g_cases[s.index % cases]));
		// ordered pairs, each in a fresh process. The worker itself must be fresh then: it forks before calling anything
		struct Pair { Res res; Watch w; int done; };
		Pair* out = static_cast<Pair*>(shared_mem(sizeof(Pair)));
		u64 pairs = 0;
		for (unsigned a = unsigned(s.index); a < g_pair_cases && !s.stopped(); a += 128) for (unsigned b = 0; b < g_pair_cases; ++b)
		{
			const unsigned ia = a, ib = (a * g_pair_cases + b * 7 + 3) % cases;
			s.begin(enc(g_cases[ib]));
			out->done = 0;
			Env v = random_env(r); if (r.chance(2)) v.err = 0;
			std::fflush(nullptr);
			const pid_t q = fork();
			if (q < 0) { std::perror("fork"); _exit(2); }
			if (q == 0) { Env u = v; u.noise = ~v.noise; u.place = (v.place + 1) % 4; (void)perform(g_cases[ia], u, w); out->res = perform(g_cases[ib], v, out->w); out->done = 1; _exit(0); }
			int st = 0; ::waitpid(q, &st, 0);
			if (!out->done) { if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) s.fail("crash", enc(g_cases[ib]), describe(g_cases[ib]) + " after " + describe(g_cases[ia]) + " crashed with signal " + std::to_string(WTERMSIG(st))); else _exit(2); continue; }
			judge(s, g_cases[ib], v, out->res, g_fresh[ib], out->w, ("right after " + describe(g_cases[ia])).c_str());
			++pairs; s.distinct(mix(u64(ia) << 20 | ib) + 1);
		}
		s.count("ordered_pairs", pairs);
		if (s.index % 32 == 5) silence(s);
		if (s.index % 32 == 6) solitude(s);
		s.flush();
		std::fflush(nullptr);
		const pid_t h = fork(); // the long history runs in a child, so that the worker stays fresh
		if (h < 0) { std::perror("fork"); _exit(2); }
		if (h == 0)
		{
			// results of the child are transferred by its own report lines
			u64 i = 0; std::vector<unsigned> set; u64 left = 0; unsigned kinds = 0;
			const u64 calls = s.index < 8 ? 10 * n : n;
			while (i < calls && !s.stopped())
			{
				if (!left)
				{
					set.clear(); const unsigned k = r.chance(3) ? unsigned(r.range(1, 3)) : r.chance(2) ? 16 : 200;
					const int only = r.chance(3) ? int(r.below(ops)) : -1;
					while (set.size() < k) { const unsigned q = unsigned(r.below(cases)); if (only < 0 || g_cases[q].op == only) set.push_back(q); }
					left = 1 + r.below(r.chance(20) ? 20000 : 600); ++kinds;
				}
				--left; ++i;
				const unsigned k = set[r.below(set.size())];
				const Case& c = g_cases[k];
				s.begin(enc(c));
				const Env v = random_env(r);
				const Res got = perform(c, v, w);
				judge(s, c, v, got, g_fresh[k], w, "within a history");
				s.distinct(mix(k * 64 + (v.err == ERANGE ? 32 : 0) + v.place * 8 + (v.dirty ? 4 : 0)) ^ mix(i > 1 ? set[0] : 0));
			}
			s.count("calls_in_histories", i); s.count("working_sets", kinds); s.count("allocations_observed", g_allocs); s.count("questions_to_surroundings", g_questions);
			s.maximum("longest_history", i);
			if (s.index >= 16 && s.index < 16 + (th ? 48 : 16)) marathon(s, th ? 300000000 : 20000000);
			s.flush();
			_exit(s.fails() ? 7 : 0);
		}
		int st = 0;
		while (::waitpid(h, &st, 0) != h);
		::munmap(out, sizeof(Pair));
		if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGKILL) _exit(2); ::signal(WTERMSIG(st), SIG_DFL); ::raise(WTERMSIG(st)); }
		if (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 7) _exit(WEXITSTATUS(st));
	};
	p.one = [=](const std::string& c0, Shard& s)
	{
		const Case c = dec(c0); Rng r(opt().seed); Watch w;
		Res* f = static_cast<Res*>(shared_mem(sizeof(Res)));
		const pid_t q = fork();
		if (q == 0) { Env v; v.fill = 0x55; *f = perform(c, v, w); _exit(0); }
		int st; ::waitpid(q, &st, 0);
		for (int i = 0; i < 20000 && !s.fails(); ++i) { const Env v = random_env(r); judge(s, c, v, perform(c, v, w), *f, w, "repeated"); if (i % 3 == 0) { const Case& o = g_cases[r.below(cases)]; (void)perform(o, random_env(r), w); } }
	};
	return run(argc, argv, p);
}

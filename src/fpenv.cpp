// Monitor of C31: printing, and parsing which doesn't consult the fallback, neither
// depend on the floating point environment nor touch it. Conversions are made in
// every rounding direction and x87 precision, with the exceptions trapping (a trap
// raises SIGFPE) or with their flags watched, and compared with those made before.
#include <floaxie/atof.h>
#include <floaxie/ftoa.h>
#include "gen.hpp"
#include <cfenv>
#include <csetjmp>
#include <xmmintrin.h>
#include <fpu_control.h>

using namespace vk;
u64 ref::oracle_disagreements = 0;

enum { directions = 4 };
// the choice of the power of ten is calculated in floating point, hence inexact is left out
static const int watched = FE_ALL_EXCEPT & ~FE_INEXACT;
static const int g_dir[directions] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
static const char* g_dir_name[directions] = { "to nearest", "upward", "downward", "toward zero" };

struct Env { int dir; bool trap; int x87; int flags; };
static Env random_env(Rng& r) { Env v; v.dir = int(r.below(directions)); v.trap = r.chance(2); v.x87 = int(r.below(3)); v.flags = v.trap ? 0 : int(r()) & FE_ALL_EXCEPT; return v; }
static std::string show_env(const Env& v) { return std::string("rounding ") + g_dir_name[v.dir] + (v.trap ? ", exceptions trapping" : "") + (v.x87 == 1 ? ", x87 in double precision" : v.x87 == 2 ? ", x87 in single precision" : ""); }

static sigjmp_buf g_jump; static volatile sig_atomic_t g_armed = 0;
static void on_fpe(int)
{
	if (!g_armed) { ::signal(SIGFPE, SIG_DFL); return; }
	g_armed = 0; siglongjmp(g_jump, 1);
}
struct State { int dir, except, flags; unsigned csr; unsigned short cw; };
static State state() { State s; s.dir = std::fegetround(); s.except = fegetexcept(); s.flags = std::fetestexcept(watched); s.csr = _mm_getcsr() & 0xffc0u; fpu_control_t cw; _FPU_GETCW(cw); s.cw = cw; return s; }
static void enter(const Env& v)
{
	std::fesetround(g_dir[v.dir]);
	fpu_control_t cw; _FPU_GETCW(cw); cw = fpu_control_t((cw & ~0x300) | (v.x87 == 0 ? 0x300 : v.x87 == 1 ? 0x200 : 0)); _FPU_SETCW(cw);
	std::feclearexcept(FE_ALL_EXCEPT);
	if (v.flags) { fenv_t e; std::fegetenv(&e); e.__mxcsr |= unsigned(v.flags); std::fesetenv(&e); }
	if (v.trap) feenableexcept(watched);
}
static fenv_t g_default;
static void leave() { std::fesetenv(&g_default); }

// f is run in the environment; gives false when it was ended by an exception
template<typename F> static bool in_env(const Env& v, State& before, State& after, F f)
{
	if (sigsetjmp(g_jump, 1)) { leave(); return false; }
	enter(v); before = state();
	g_armed = 1;
	asm volatile("" ::: "memory");
	f();
	asm volatile("" ::: "memory");
	g_armed = 0;
	after = state(); leave();
	return true;
}
static bool same_env(const State& a, const State& b) { return a.dir == b.dir && a.except == b.except && a.csr == b.csr && a.cw == b.cw; }

template<typename T> static bool signaling(T v) { return std::isnan(v) && !ref::quiet(v); }

// values are passed by address, so that the harness never computes with them
template<typename T, typename C> static __attribute__((noinline)) std::size_t do_print(const T* v, C* b) { return floaxie::ftoa(*v, b); }
static Env g_env; // of the case in flight
static std::string env_bytes(const Env& v) { std::string r; r += char('0' + v.dir); r += v.trap ? 't' : '-'; r += char('0' + v.x87); r += char('A' + (v.flags & 63)); return r; }
static Env env_from(const std::string& s) { Env v; v.dir = s[0] - '0'; v.trap = s[1] == 't'; v.x87 = s[2] - '0'; v.flags = (s[3] - 'A') & FE_ALL_EXCEPT; return v; }

template<typename T, typename C> static void print_case(Shard& s, T v, char kind, const Env& v0)
{
	const u64 bits = to_bits(v); const std::string e = std::string(1, kind) + env_bytes(v0) + std::string(reinterpret_cast<const char*>(&bits), 8); s.begin(e);
	static C want[64], got[64]; std::memset(want, 0, sizeof want); std::memset(got, 0, sizeof got);
	const std::size_t n = do_print(&v, want); static std::size_t k; k = 0;
	State a, b;
	auto d = [&] { return "printing " + ref::vshow(v) + " while " + show_env(v0); };
	if (!in_env(v0, a, b, [&] { k = do_print(&v, got); })) { s.fail("printtrap", e, d() + " raises a floating point exception"); return; }
	if (k != n || std::memcmp(want, got, sizeof want)) { std::string w, g; for (int i = 0; i < 40 && want[i]; ++i) w += char(want[i]); for (int i = 0; i < 40 && got[i]; ++i) g += char(got[i]); s.fail("printdepends", e, d() + " gives '" + g + "' instead of '" + w + "'"); }
	if (!same_env(a, b)) s.fail("printchanges", e, d() + " changes the environment");
	if (a.flags != b.flags) s.fail("printflags", e, d() + " raises exception flags " + std::to_string(b.flags & ~a.flags) + " or clears " + std::to_string(a.flags & ~b.flags));
	s.count("printings"); s.count(v0.trap ? "with_traps" : "with_flags_watched"); s.count(g_dir_name[v0.dir]);
	if (s.distinct(mix(bits) ^ u64(kind) << 8 ^ u64(v0.dir * 8 + v0.trap * 4 + v0.x87))) { if (std::fpclassify(v) == FP_SUBNORMAL) s.count("subnormals_printed"); }
}

struct Asked { bool asked; State at; };
static Asked g_asked;
template<typename T, typename C> static T record(const C* s, C** e) { g_asked.asked = true; g_asked.at = state(); if (e) *e = const_cast<C*>(s) + 1; return T(1); }
template<typename T> struct Out { typename gen::P<T>::U bits; int status; long end; };
template<typename T, typename C> static __attribute__((noinline)) void do_parse(const C* t, Out<T>* o)
{
	C* e = nullptr;
	const floaxie::value_and_status<T> r = floaxie::atof<T>(t, &e, record<T, C>);
	std::memcpy(&o->bits, &r.value, sizeof(T)); o->status = int(r.status); o->end = e - t;
}
template<typename T, typename C> static void parse_case(Shard& s, const std::string& t, char kind, const Env& v0)
{
	const std::string e = std::string(1, kind) + env_bytes(v0) + t; s.begin(e);
	static std::basic_string<C> w; w.clear(); for (unsigned char c : t) w += C(sizeof(C) == 1 ? char(c) : c);
	static Out<T> x, y; std::memset(&x, 0, sizeof x); std::memset(&y, 0, sizeof y);
	g_asked.asked = false; do_parse<T, C>(w.c_str(), &x); const bool asked = g_asked.asked;
	g_asked.asked = false;
	State a, b;
	auto d = [&] { return "parsing '" + show(t) + "' as " + ref::tn<T>::name() + " while " + show_env(v0); };
	if (!in_env(v0, a, b, [&] { do_parse<T, C>(w.c_str(), &y); })) { s.fail("parsetrap", e, d() + " raises a floating point exception"); return; }
	if (g_asked.asked != asked) s.fail("parseasks", e, d() + (asked ? " doesn't consult" : " consults") + " the fallback, but in the default environment it's otherwise");
	else if (x.bits != y.bits || x.status != y.status || x.end != y.end) s.fail("parsedepends", e, d() + " gives " + ref::vshow(from_bits<T>(y.bits)) + " instead of " + ref::vshow(from_bits<T>(x.bits)));
	if (!same_env(a, b)) s.fail("parsechanges", e, d() + " changes the environment");
	if (g_asked.asked && (!same_env(a, g_asked.at) || a.flags != g_asked.at.flags)) s.fail("fallbackenv", e, d() + ": the fallback is called in another environment");
	if (a.flags != b.flags) s.fail("parseflags", e, d() + " raises exception flags " + std::to_string(b.flags & ~a.flags) + " or clears " + std::to_string(a.flags & ~b.flags));
	s.count(asked ? "parsings_asking" : "parsings"); s.count(v0.trap ? "with_traps" : "with_flags_watched"); s.count(g_dir_name[v0.dir]);
	s.distinct(hash_bytes(t.data(), t.size(), u64(kind) << 8 | u64(v0.dir * 8 + v0.trap * 4 + v0.x87)));
}

static void one_case(Shard& s, const std::string& c)
{
	const Env v = env_from(c.substr(1, 4)); const std::string t = c.substr(5); u64 b = 0;
	switch (c[0])
	{
	case 'p': std::memcpy(&b, t.data(), 8); print_case<double, char>(s, from_bits<double>(b), 'p', v); break;
	case 'q': std::memcpy(&b, t.data(), 8); print_case<float, char>(s, from_bits<float>(u32(b)), 'q', v); break;
	case 'P': std::memcpy(&b, t.data(), 8); print_case<double, wchar_t>(s, from_bits<double>(b), 'P', v); break;
	case 'd': parse_case<double, char>(s, t, 'd', v); break; case 'f': parse_case<float, char>(s, t, 'f', v); break;
	case 'D': parse_case<double, wchar_t>(s, t, 'D', v); break; case 'F': parse_case<float, wchar_t>(s, t, 'F', v); break;
	}
}

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	Program p; p.shards = 64;
	const u64 n = u64((opt().thorough ? 1500000 : 45000) * opt().scale);
	p.worker_init = [] { std::fegetenv(&g_default); struct sigaction a; std::memset(&a, 0, sizeof a); a.sa_handler = on_fpe; a.sa_flags = SA_NODEFER; sigaction(SIGFPE, &a, nullptr); };
	p.shard = [=](Shard& s)
	{
		Rng& r = s.rng;
		// every exponent
		for (int e = int(s.index); e <= 2047; e += 64) for (int i = 0; i < 24; ++i)
		{
			u64 m = i < 3 ? u64(i) : i < 6 ? 6 - u64(i) : r(); if (i >= 3 && i < 6) m = ~m; m &= (u64(1) << 52) - 1;
			if (e == 2047 && m) m |= u64(1) << 51;
			print_case<double, char>(s, from_bits<double>(u64(e) << 52 | m | (r() & 1) << 63), 'p', random_env(r));
			if (e < 256) { u32 f = u32(m) & 0x7fffff; if (e == 255 && f) f |= 1u << 22; print_case<float, char>(s, from_bits<float>(u32(e) << 23 | f | u32(r() & 1) << 31), 'q', random_env(r)); }
		}
		for (u64 i = 0; i < n && !s.stopped(); ++i)
		{
			{ const double v = gen::value<double>(r, true); if (!signaling(v)) { print_case<double, char>(s, v, 'p', random_env(r)); if (r.chance(4)) print_case<double, wchar_t>(s, v, 'P', random_env(r)); } }
			{ const float v = gen::value<float>(r, true); if (!signaling(v)) print_case<float, char>(s, v, 'q', random_env(r)); }
			std::string t = r.chance(2) ? gen::text<double>(r) : gen::sign(r) + gen::number<double>(r, r.chance(2) ? 0 : 1); t = t.c_str();
			if (i < 2) s.sample("'" + t + "' " + show_env(random_env(r)));
			parse_case<double, char>(s, t, 'd', random_env(r));
			std::string u = r.chance(2) ? gen::text<float>(r) : gen::sign(r) + gen::number<float>(r, r.chance(2) ? 0 : 1); u = u.c_str();
			parse_case<float, char>(s, u, 'f', random_env(r));
			if (r.chance(4)) { parse_case<double, wchar_t>(s, t, 'D', random_env(r)); parse_case<float, wchar_t>(s, u, 'F', random_env(r)); }
		}
	};
	p.one = [](const std::string& c, Shard& s) { one_case(s, c); };
	return run(argc, argv, p);
}

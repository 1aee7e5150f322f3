// Monitor of C27: conversions are interrupted at every machine instruction (the
// processor's trap flag raises SIGTRAP after each), the signal handler performs
// whole conversions of its own; fallbacks perform conversions of any kind. Both
// the interrupted and the interrupting one must give what they give alone.
#include <floaxie/atof.h>
#include <floaxie/ftoa.h>
#include "gen.hpp"
#include <csetjmp>
#include <ucontext.h>

using namespace vk;
u64 ref::oracle_disagreements = 0;

static inline __attribute__((always_inline)) void trap_on() { asm volatile("sub $128,%%rsp\n\tpushfq\n\torq $0x100,(%%rsp)\n\tpopfq\n\tadd $128,%%rsp" ::: "cc", "memory"); }
static inline __attribute__((always_inline)) void trap_off() { asm volatile("sub $128,%%rsp\n\tpushfq\n\tandq $~0x100,(%%rsp)\n\tpopfq\n\tadd $128,%%rsp" ::: "cc", "memory"); }

// ---- what the handler does
struct Inner { double d; float f; char td[40], tf[40]; wchar_t wd[40], wf[40]; unsigned nd, nf; };
constexpr unsigned inners = 512;
static Inner g_inner[inners];
static u64 g_steps = 0, g_cap = 0, g_from = 0, g_hash = 0;
static unsigned g_next = 0; static unsigned g_stride = 1;
static const Inner* g_bad = nullptr; static char g_bad_text[48]; static int g_bad_form = -1;
static std::atomic<u64> g_interrupts { 0 };

template<typename T, typename C> static bool inner_print(T v, const C* want, unsigned n)
{
	C b[40]; std::memset(static_cast<void*>(b), '#', sizeof b);
	const std::size_t k = floaxie::ftoa(v, b);
	bool ok = k == n; for (unsigned i = 0; ok && i <= n; ++i) ok = b[i] == want[i];
	if (!ok && !g_bad) for (unsigned i = 0; i < 40; ++i) g_bad_text[i] = char(b[i]);
	return ok;
}
static void on_trap(int, siginfo_t*, void* ctx)
{
	const int e = errno;
	ucontext_t* u = static_cast<ucontext_t*>(ctx);
	if (!g_cap) { u->uc_mcontext.gregs[REG_EFL] &= ~0x100LL; errno = e; return; }
	++g_steps;
	if (g_steps > g_from)
	{
		const Inner& k = g_inner[g_next % inners]; const int form = int(g_next / inners % 4); g_next += g_stride;
		bool ok;
		switch (form)
		{
		case 0: ok = inner_print(k.d, k.td, k.nd); break;
		case 1: ok = inner_print(k.f, k.tf, k.nf); break;
		case 2: ok = inner_print(k.d, k.wd, k.nd); break;
		default: ok = inner_print(k.f, k.wf, k.nf); break;
		}
		if (!ok && !g_bad) { g_bad = &k; g_bad_form = form; }
		++g_interrupts;
		g_hash = mix(g_hash ^ u64(u->uc_mcontext.gregs[REG_RIP]));
		if (g_steps >= g_from + g_cap) u->uc_mcontext.gregs[REG_EFL] &= ~0x100LL;
	}
	errno = e;
}
static void prepare_inner()
{
	Rng r(mix(opt().seed) ^ 4242);
	for (unsigned i = 0; i < inners; ++i)
	{
		Inner& k = g_inner[i];
		k.d = gen::value<double>(r, true); k.f = gen::value<float>(r, true);
		static const double sp[] = { 0, -0.0, INFINITY, -INFINITY, NAN, 5e-324, 1.7976931348623157e308, 1, 1e16, 1e17, 1e-16, 123456, -2.2250738585072014e-308 };
		if (i < 13) { k.d = sp[i]; k.f = float(sp[i]); }
		k.nd = unsigned(floaxie::ftoa(k.d, k.td)); k.nf = unsigned(floaxie::ftoa(k.f, k.tf));
		floaxie::ftoa(k.d, k.wd); floaxie::ftoa(k.f, k.wf);
	}
}

// ---- the interrupted conversions
enum Op { print_c, print_w, print_16, str_c, str_w, atof_c, atof_w, null_c, from_c, ops };
static const char* op_name[] = { "ftoa", "ftoa(wchar_t*)", "ftoa(char16_t*)", "to_string", "to_wstring", "atof", "atof(wchar_t)", "atof(null)", "from_string" };
static bool parses(int op) { return op >= atof_c; }
struct Case { int op; bool dbl; u64 bits; u32 from, cap, next; std::string t; };
static std::string enc(const Case& c) { std::string r(1, char('A' + c.op)); r += c.dbl ? 'd' : 'f'; r.append(reinterpret_cast<const char*>(&c.bits), 8); r.append(reinterpret_cast<const char*>(&c.from), 4); r.append(reinterpret_cast<const char*>(&c.cap), 4); r.append(reinterpret_cast<const char*>(&c.next), 4); return r + c.t; }
static Case dec(const std::string& s) { Case c; c.op = s[0] - 'A'; c.dbl = s[1] == 'd'; std::memcpy(&c.bits, s.data() + 2, 8); std::memcpy(&c.from, s.data() + 10, 4); std::memcpy(&c.cap, s.data() + 14, 4); std::memcpy(&c.next, s.data() + 18, 4); c.t = s.substr(22); return c; }
template<typename T> static T val(const Case& c) { return from_bits<T>(typename gen::P<T>::U(c.bits)); }
static std::string describe(const Case& c) { return std::string(op_name[c.op]) + (c.dbl ? "<double>" : "<float>") + (parses(c.op) ? " of '" + show(c.t, 100) + "'" : " of " + (c.dbl ? ref::vshow(val<double>(c)) : ref::vshow(val<float>(c)))); }
struct Res { u64 bits = 0; int status = 0; long end = 0; int n = 0; char text[48]; Res() { std::memset(text, 0, sizeof text); } };
static bool same(const Res& a, const Res& b) { return a.bits == b.bits && a.status == b.status && a.end == b.end && a.n == b.n && !std::memcmp(a.text, b.text, sizeof a.text); }
static std::string rshow(const Res& r) { char b[96]; std::snprintf(b, sizeof b, "bits 0x%llx, status %d, end %ld, length %d", (unsigned long long)r.bits, r.status, r.end, r.n); return b + std::string(", text '") + show(std::string(r.text, strnlen(r.text, 48))) + "'"; }
template<typename T> static u64 vbits(T v) { return std::isnan(v) ? 1 : to_bits(v); }

template<typename T, typename C> static __attribute__((noinline)) void print_into(T v, Res& r, bool trap)
{
	C b[64]; std::memset(static_cast<void*>(b), '#', sizeof b);
	std::size_t n;
	if (trap) { trap_on(); n = floaxie::ftoa(v, b); trap_off(); } else n = floaxie::ftoa(v, b);
	r.n = int(n); for (int i = 0; i < 47 && b[i]; ++i) r.text[i] = char(b[i]);
}
template<typename T, typename S, typename F> static __attribute__((noinline)) void print_string(T v, Res& r, bool trap, F f)
{
	S s;
	if (trap) { trap_on(); s = f(v); trap_off(); } else s = f(v);
	r.n = int(s.size()); for (int i = 0; i < 47 && i < r.n; ++i) r.text[i] = char(s[std::size_t(i)]);
}
template<typename T, typename C> static __attribute__((noinline)) void parse(const Case& c, Res& r, bool trap)
{
	std::basic_string<C> s; for (unsigned char ch : c.t) s += C(sizeof(C) == 1 ? char(ch) : ch);
	C* e = const_cast<C*>(s.c_str()) - 1; floaxie::value_and_status<T> x;
	switch (c.op)
	{
	case atof_c: case atof_w: if (trap) { trap_on(); x = floaxie::atof<T>(s.c_str(), &e); trap_off(); } else x = floaxie::atof<T>(s.c_str(), &e); break;
	case null_c: if (trap) { trap_on(); x = floaxie::atof<T>(s.c_str(), nullptr); trap_off(); } else x = floaxie::atof<T>(s.c_str(), nullptr); break;
	default: if (trap) { trap_on(); x = floaxie::from_string<T>(s); trap_off(); } else x = floaxie::from_string<T>(s); break;
	}
	r.bits = vbits(x.value); r.status = int(x.status); r.end = e - s.c_str();
}
template<typename T> static Res perform(const Case& c, bool trap)
{
	Res r; const T v = val<T>(c);
	switch (c.op)
	{
	case print_c: print_into<T, char>(v, r, trap); break;
	case print_w: print_into<T, wchar_t>(v, r, trap); break;
	case print_16: print_into<T, char16_t>(v, r, trap); break;
	case str_c: print_string<T, std::string>(v, r, trap, [](T x) { return floaxie::to_string(x); }); break;
	case str_w: print_string<T, std::wstring>(v, r, trap, [](T x) { return floaxie::to_wstring(x); }); break;
	case atof_w: parse<T, wchar_t>(c, r, trap); break;
	default: parse<T, char>(c, r, trap); break;
	}
	return r;
}
static void install()
{
	static char stack[1 << 18];
	stack_t st; st.ss_sp = stack; st.ss_size = sizeof stack; st.ss_flags = 0; sigaltstack(&st, nullptr);
	struct sigaction a; std::memset(&a, 0, sizeof a); a.sa_sigaction = on_trap; a.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGTRAP, &a, nullptr);
}
template<typename T> static void interrupt_case(Shard& s, const Case& c)
{
	const std::string e = enc(c); s.begin(e);
	const Res want = perform<T>(c, false);
	g_steps = 0; g_from = c.from; g_cap = c.cap; g_next = c.next; g_stride = 1 + (c.next & 6); g_bad = nullptr; g_hash = 1;
	const u64 i0 = g_interrupts;
	const Res got = perform<T>(c, true);
	g_cap = 0;
	auto d = [&] { return describe(c) + " interrupted by printing after each instruction"; };
	if (!same(got, want)) s.fail("interrupted", e, d() + " gives " + rshow(got) + " instead of " + rshow(want));
	if (g_bad)
	{
		const char* const forms[] = { "double", "float", "double, wide", "float, wide" };
		s.fail("interrupting", e, "in a signal handler interrupting " + describe(c) + ", printing of " + (g_bad_form % 2 ? ref::vshow(g_bad->f) : ref::vshow(g_bad->d)) + " (" + forms[g_bad_form] + ") gives '" + show(std::string(g_bad_text, strnlen(g_bad_text, 40))) + "' instead of '" + (g_bad_form % 2 ? g_bad->tf : g_bad->td) + "'");
	}
	if (!same(perform<T>(c, false), want)) s.fail("later", e, describe(c) + " gives another result after an interruption");
	const u64 k = g_interrupts - i0;
	s.count("interruption_points", k); s.maximum("points_in_one_conversion", k);
	s.count(parses(c.op) ? "interrupted_parsings" : "interrupted_printings"); s.count(c.from ? "late_windows" : "whole_conversions");
	if (s.distinct(g_hash)) s.count("distinct_instruction_paths");
}

// ---- conversions inside fallbacks
struct Plan { Rng* r; int depth; u64 done; std::string error; };
template<typename T, typename C> static T nested(Plan& p, const C* s, C** e);
template<typename T, typename C> static void inner_parse(Plan& p)
{
	Rng& r = *p.r;
	const std::string a = r.chance(2) ? gen::sign(r) + gen::number<T>(r, r.chance(2) ? 4 : 17) : gen::text<T>(r);
	std::basic_string<C> t; for (unsigned char ch : a.substr(0, 400)) { if (!ch) break; t += C(sizeof(C) == 1 ? char(ch) : ch); }
	C *e1 = nullptr, *e2 = nullptr; 
	const auto x = floaxie::atof<T>(t.c_str(), &e1);
	--p.depth;
	const auto y = floaxie::atof<T>(t.c_str(), &e2, [&](const C* s, C** e) { return nested<T, C>(p, s, e); });
	++p.depth;
	if (vbits(x.value) != vbits(y.value) || int(x.status) != int(y.status) || e1 != e2) p.error = "parsing '" + a + "' with a fallback which converts itself gives " + ref::vshow(y.value) + " instead of " + ref::vshow(x.value);
	++p.done;
}
template<typename T, typename C> static void inner_print(Plan& p)
{
	const T v = gen::finite_value<T>(*p.r); if (v == 0) return;
	C b[48]; const std::size_t n = floaxie::ftoa(v, b); std::string t; for (std::size_t i = 0; i < n; ++i) t += char(b[i]);
	if (to_bits(ref::c_strto(t.c_str(), T())) != to_bits(v)) p.error = "printing " + ref::vshow(v) + " inside a fallback gives '" + t + "'";
	++p.done;
}
template<typename T, typename C> static T nested(Plan& p, const C* s, C** e)
{
	if (p.depth > 0)
	{
		for (int i = int(p.r->below(3)); i >= 0; --i) switch (p.r->below(6))
		{
		case 0: inner_parse<double, char>(p); break;
		case 1: inner_parse<float, char>(p); break;
		case 2: inner_parse<double, wchar_t>(p); break;
		case 3: inner_print<double, char>(p); break;
		case 4: inner_print<float, wchar_t>(p); break;
		default: { const double v = gen::finite_value<double>(*p.r); const std::string t = floaxie::to_string(v); if (ref::c_strto(t.c_str(), double()) != v) p.error = "to_string inside a fallback gives '" + t + "'"; ++p.done; }
		}
	}
	errno = 0;
	return floaxie::default_fallback<T, C>(s, e);
}
template<typename T> static void nest_case(Shard& s)
{
	const u64 seed = s.rng(); char c[40]; std::snprintf(c, sizeof c, "n%c%016llx", sizeof(T) == 8 ? 'd' : 'f', (unsigned long long)seed);
	s.begin(c, std::strlen(c));
	Rng r(seed); Plan p { &r, 4, 0, "" };
	inner_parse<T, char>(p);
	if (!p.error.empty()) s.fail("nested", c, p.error);
	s.count("nested_conversions", p.done);
	if (p.done > 1) { s.count("fallbacks_converting"); s.distinct(seed); }
}

// a chain of fallbacks, each within the one before
struct Hard { std::string t; std::wstring w; u64 bits; int status; std::size_t end; };
struct Chain { Rng r; std::vector<Hard> d, f; int deepest; std::string error; };
template<typename T> static void find_hard(Chain& k, std::vector<Hard>& v)
{
	for (int i = 0; i < 400 && v.size() < 6; ++i)
	{
		Hard h; h.t = gen::sign(k.r) + gen::number<T>(k.r, k.r.chance(2) ? 5 : 4); if (h.t.size() > 300) continue;
		bool called = false; char* e = nullptr;
		const auto x = floaxie::atof<T>(h.t.c_str(), &e, [&](const char* s, char** e) { called = true; return floaxie::default_fallback<T, char>(s, e); });
		if (!called) continue;
		h.w.assign(h.t.begin(), h.t.end()); h.bits = vbits(x.value); h.status = int(x.status); h.end = std::size_t(e - h.t.c_str()); v.push_back(h);
	}
}
static void link(Chain& k, int level, int depth);
template<typename T, typename C> static void link_one(Chain& k, const Hard& h, const C* t, int level, int depth)
{
	C* e = nullptr; bool called = false;
	const auto x = floaxie::atof<T>(t, &e, [&](const C* s, C** e) { called = true; if (level < depth) link(k, level + 1, depth); errno = 0; return floaxie::default_fallback<T, C>(s, e); });
	if ((vbits(x.value) != h.bits || int(x.status) != h.status || std::size_t(e - t) != h.end || !called) && k.error.empty())
		k.error = "parsing '" + h.t + "' at level " + std::to_string(level) + " of nested fallbacks gives " + ref::vshow(x.value) + ", " + ref::status_name(int(x.status)) + (called ? "" : " and asks no fallback") + ", other than alone";
	if (k.r.chance(2)) { const double v = gen::finite_value<double>(k.r); const std::string p = floaxie::to_string(v); if (ref::c_strto(p.c_str(), double()) != v && k.error.empty()) k.error = "to_string at level " + std::to_string(level) + " of nested fallbacks gives '" + p + "'"; }
	k.deepest = std::max(k.deepest, level);
}
static void link(Chain& k, int level, int depth)
{
	const bool dbl = !k.d.empty() && (k.f.empty() || k.r.chance(2)); const auto& v = dbl ? k.d : k.f; if (v.empty()) return;
	const Hard& h = v[k.r.below(v.size())];
	if (dbl) { if (k.r.chance(3)) link_one<double>(k, h, h.w.c_str(), level, depth); else link_one<double>(k, h, h.t.c_str(), level, depth); }
	else { if (k.r.chance(3)) link_one<float>(k, h, h.w.c_str(), level, depth); else link_one<float>(k, h, h.t.c_str(), level, depth); }
}
static void chain_case(Shard& s, u64 seed)
{
	char c[40]; std::snprintf(c, sizeof c, "c%016llx", (unsigned long long)seed);
	s.begin(c, std::strlen(c));
	Chain k; k.r = Rng(seed); k.deepest = 0;
	find_hard<double>(k, k.d); find_hard<float>(k, k.f);
	link(k, 1, k.r.chance(4) ? k.r.range(100, 600) : k.r.range(5, 100));
	if (!k.error.empty()) s.fail("chain", c, k.error);
	s.count("chains_of_fallbacks"); s.maximum("deepest_fallback", u64(k.deepest));
}

static Case random_case(Rng& r)
{
	Case c; c.op = int(r.below(ops)); c.dbl = r.chance(2); c.from = 0; c.cap = 6000; c.next = u32(r());
	c.bits = c.dbl ? to_bits(gen::value<double>(r, true)) : u64(to_bits(gen::value<float>(r, true)));
	if (parses(c.op))
	{
		if (c.dbl) c.t = r.chance(3) ? gen::sign(r) + gen::number<double>(r, r.chance(2) ? 17 : 5) : gen::text<double>(r);
		else c.t = r.chance(3) ? gen::sign(r) + gen::number<float>(r, r.chance(2) ? 17 : 5) : gen::text<float>(r);
		c.t = c.t.c_str(); if (c.t.size() > 60 && !r.chance(20)) c.t.resize(r.below(60)); if (c.t.size() > 2000) c.t.resize(2000);
		if (r.chance(50)) c.from = u32(r.below(8000));
	}
	return c;
}

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	const u64 n = u64((opt().thorough ? 20000 : 320) * opt().scale), m = u64((opt().thorough ? 400000 : 10000) * opt().scale);
	Program p; p.shards = 64;
	p.prepare = prepare_inner;
	p.worker_init = install;
	p.shard = [=](Shard& s)
	{
		for (u64 i = 0; i < n && !s.stopped(); ++i)
		{
			const Case c = random_case(s.rng);
			if (!i) s.sample(describe(c));
			if (c.dbl) interrupt_case<double>(s, c); else interrupt_case<float>(s, c);
		}
		for (u64 i = 0; i < m && !s.stopped(); ++i) if (i & 1) nest_case<double>(s); else nest_case<float>(s);
		for (u64 i = 0; i < m / 64 + 1 && !s.stopped(); ++i) chain_case(s, s.rng());
	};
	p.one = [](const std::string& x, Shard& s)
	{
		if (x[0] == 'c') { chain_case(s, std::strtoull(x.c_str() + 1, nullptr, 16)); return; }
		if (x[0] == 'n')
		{
			const u64 seed = std::strtoull(x.c_str() + 2, nullptr, 16); Rng r(seed); Plan q { &r, 4, 0, "" };
			if (x[1] == 'd') inner_parse<double, char>(q); else inner_parse<float, char>(q);
			if (!q.error.empty()) s.fail("nested", x, q.error);
			return;
		}
		const Case c = dec(x); if (c.dbl) interrupt_case<double>(s, c); else interrupt_case<float>(s, c);
	};
	return run(argc, argv, p);
}

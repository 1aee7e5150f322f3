// Monitor of C26: exhausted memory and throwing fallbacks. Every allocation of a
// conversion is made to fail in turn; every fallback may throw. What comes out
// must be the ordinary result or the very exception, with nothing left behind.
#include <floaxie/atof.h>
#include <floaxie/ftoa.h>
#include "gen.hpp"
#include <functional>
#include <new>

using namespace vk;
u64 ref::oracle_disagreements = 0;

// ---- allocation accounting and failures
extern "C" { void* __libc_malloc(std::size_t); void __libc_free(void*); void* __libc_calloc(std::size_t, std::size_t); void* __libc_realloc(void*, std::size_t); }
static long g_live = 0; static u64 g_allocs = 0;
static long g_fail_at = 0;    // 0: never; n: the n-th allocation from now on fails
static bool g_fail_all = false; // and so do all the following
static u64 g_injected = 0;
static bool refuse()
{
	if (!g_fail_at) return false;
	if (--g_fail_at) return false;
	++g_injected; if (g_fail_all) g_fail_at = 1;
	errno = ENOMEM; return true;
}
extern "C" void* malloc(std::size_t n) { ++g_allocs; if (refuse()) return nullptr; void* p = __libc_malloc(n); if (p) ++g_live; return p; }
extern "C" void free(void* p) { if (p) --g_live; __libc_free(p); }
extern "C" void* calloc(std::size_t a, std::size_t b) { ++g_allocs; if (refuse()) return nullptr; void* p = __libc_calloc(a, b); if (p) ++g_live; return p; }
extern "C" void* realloc(void* p, std::size_t n) { ++g_allocs; if (refuse()) return nullptr; void* q = __libc_realloc(p, n); if (!p && q) ++g_live; return q; }

struct Payload { u64 number; std::string text; Payload(u64 n) : number(n), text("a text longer than any short string optimization " + std::to_string(n)) { } };
struct Boom : std::exception { int n; explicit Boom(int k) : n(k) { } };

enum Op { print_c, print_w, str_c, str_w, str_16, str_32, atof_c, atof_w, null_c, null_w, from_c, from_w, ops };
static const char* op_name[] = { "ftoa", "ftoa(wchar_t*)", "to_string", "to_wstring", "to_u16string", "to_u32string", "atof", "atof(wchar_t)", "atof(null)", "atof(wchar_t, null)", "from_string", "from_string(wstring)" };
static bool parses(int op) { return op >= atof_c; }

struct Case { int op; bool dbl; u64 bits; std::string t; };
static std::string enc(const Case& c) { std::string r(1, char('A' + c.op)); r += c.dbl ? 'd' : 'f'; r.append(reinterpret_cast<const char*>(&c.bits), 8); return r + c.t; }
static Case dec(const std::string& s) { Case c; c.op = s[0] - 'A'; c.dbl = s[1] == 'd'; std::memcpy(&c.bits, s.data() + 2, 8); c.t = s.substr(10); return c; }
template<typename T> static T val(const Case& c) { return from_bits<T>(typename gen::P<T>::U(c.bits)); }
static std::string describe(const Case& c) { return std::string(op_name[c.op]) + (c.dbl ? "<double>" : "<float>") + (parses(c.op) ? " of '" + show(c.t, 100) + "'" : " of " + (c.dbl ? ref::vshow(val<double>(c)) : ref::vshow(val<float>(c)))); }

struct Res { u64 bits = 0; int status = 0; long end = 0; std::string text; };
static bool same(const Res& a, const Res& b) { return a.bits == b.bits && a.status == b.status && a.end == b.end && a.text == b.text; }
static std::string rshow(const Res& r) { char b[96]; std::snprintf(b, sizeof b, "bits 0x%llx, status %d, end %ld", (unsigned long long)r.bits, r.status, r.end); return b + (r.text.empty() ? std::string() : ", text '" + show(r.text) + "'"); }
template<typename T> static u64 vbits(T v) { return std::isnan(v) ? 1 : to_bits(v); }

enum Outcome { fine, out_of_memory, strange };
struct Run { Outcome o = fine; u64 allocs = 0, injected = 0; long live = 0; int err = 0; };

// what is armed stays armed only while the library runs
struct Armed { Armed(long n, bool all, int err) { g_fail_all = all; g_injected = 0; g_allocs = 0; errno = err; g_live = 0; g_fail_at = n; } ~Armed() { g_fail_at = 0; } };

template<typename C> static void take(Res& r, const std::basic_string<C>& s) { g_fail_at = 0; for (auto c : s) r.text += char(c); }

template<typename T, typename C> static void print_into(T v, Res& r, Run& u, long at, bool all, int err)
{
	C b[64]; std::memset(static_cast<void*>(b), '#', sizeof b);
	std::size_t n;
	{ Armed a(at, all, err); n = floaxie::ftoa(v, b); u.err = errno; }
	u.live = g_live; u.allocs = g_allocs; u.injected = g_injected;
	r.end = long(n); for (int i = 0; i < 63 && b[i]; ++i) r.text += char(b[i]);
}
template<typename T, typename S, typename F> static void print_string(T v, Res& r, Run& u, long at, bool all, int err, F f)
{
	{
		Armed a(at, all, err);
		try { const S s = f(v); g_fail_at = 0; u.err = errno; u.allocs = g_allocs; u.injected = g_injected; const long l = g_live; take(r, s); g_live = l; }
		catch (const std::bad_alloc&) { g_fail_at = 0; u.o = out_of_memory; u.injected = g_injected; }
		catch (...) { g_fail_at = 0; u.o = strange; u.injected = g_injected; }
	}
	u.live = g_live;
}
template<typename T, typename C> static void parse(const Case& c, Res& r, Run& u, long at, bool all, int err)
{
	std::basic_string<C> s; for (unsigned char ch : c.t) s += C(sizeof(C) == 1 ? char(ch) : ch);
	C* e = const_cast<C*>(s.c_str()) - 1;
	{
		Armed a(at, all, err);
		try
		{
			floaxie::value_and_status<T> x;
			if (c.op == atof_c || c.op == atof_w) x = floaxie::atof<T>(s.c_str(), &e);
			else if (c.op == null_c || c.op == null_w) x = floaxie::atof<T>(s.c_str(), nullptr);
			else x = floaxie::from_string<T>(s);
			g_fail_at = 0; u.err = errno; u.allocs = g_allocs;
			r.bits = vbits(x.value); r.status = int(x.status); r.end = e - s.c_str();
		}
		catch (const std::bad_alloc&) { g_fail_at = 0; u.o = out_of_memory; }
		catch (...) { g_fail_at = 0; u.o = strange; }
	}
	u.injected = g_injected; u.live = g_live;
}
template<typename T> static Run perform(const Case& c, Res& r, long at, bool all, int err)
{
	Run u; const T v = val<T>(c); r = Res();
	switch (c.op)
	{
	case print_c: print_into<T, char>(v, r, u, at, all, err); break;
	case print_w: print_into<T, wchar_t>(v, r, u, at, all, err); break;
	case str_c: print_string<T, std::string>(v, r, u, at, all, err, [](T x) { return floaxie::to_string(x); }); break;
	case str_w: print_string<T, std::wstring>(v, r, u, at, all, err, [](T x) { return floaxie::to_wstring(x); }); break;
	case str_16: print_string<T, std::u16string>(v, r, u, at, all, err, [](T x) { return floaxie::to_u16string(x); }); break;
	case str_32: print_string<T, std::u32string>(v, r, u, at, all, err, [](T x) { return floaxie::to_u32string(x); }); break;
	case atof_c: case null_c: case from_c: parse<T, char>(c, r, u, at, all, err); break;
	default: parse<T, wchar_t>(c, r, u, at, all, err); break;
	}
	return u;
}

template<typename T> static void memory_case(Shard& s, const Case& c)
{
	const std::string e = enc(c); s.begin(e);
	Res want, got;
	const Run u = perform<T>(c, want, 0, false, 0);
	auto d = [&] { return describe(c); };
	if (u.o != fine) { s.fail("exception", e, d() + " throws, though nothing is wrong"); return; }
	if (u.live) s.fail("leak", e, d() + " leaves " + std::to_string(u.live) + " blocks allocated");
	if (c.op <= print_w && u.allocs) s.fail("allocates", e, d() + " allocates memory, which may be exhausted");
	for (int mode = 0; mode < 2; ++mode) for (u64 i = 1; i <= u.allocs + 1; ++i)
	{
		const Run w = perform<T>(c, got, long(i), mode, 0);
		auto at = [&] { return d() + ", allocation " + std::to_string(i) + (mode ? " and all following" : "") + " failing, "; };
		if (w.o == strange) s.fail("exception", e, at() + "throws something else than std::bad_alloc");
		else if (w.o == out_of_memory && !w.injected) s.fail("exception", e, at() + "reports exhausted memory, which it isn't");
		else if (w.o == fine && !same(got, want)) s.fail("result", e, at() + "gives " + rshow(got) + " instead of " + rshow(want));
		if (w.live) s.fail("leak", e, at() + "leaves " + std::to_string(w.live) + " blocks allocated");
		if (w.injected) s.count(w.o == out_of_memory ? "bad_alloc_thrown" : "failure_survived");
		s.count("failures_injected", w.injected);
		Res later; const Run z = perform<T>(c, later, 0, false, 0);
		if (z.o != fine || !same(later, want)) s.fail("later", e, at() + "and again with memory gives " + rshow(later) + " instead of " + rshow(want));
	}
	s.count(parses(c.op) ? "parsings" : c.op <= print_w ? "buffer_printings" : "string_printings");
	s.maximum("allocations_of_a_conversion", u.allocs);
	s.distinct(hash_bytes(e.data(), e.size()));
}

// ---- throwing fallbacks
template<typename T, typename C> struct Thrower
{
	int kind; u64* calls; bool set_end;
	T operator()(const C* s, C** e) const
	{
		++*calls;
		if (set_end && e) *e = const_cast<C*>(s);
		switch (kind)
		{
		case 0: throw 42;
		case 1: throw Boom(7);
		case 2: throw Payload(*calls);
		case 3: throw std::bad_alloc();
		case 4: throw s;
		default: throw std::function<int()>([] { return 5; });
		}
	}
};
template<typename T, typename C> static T throwing_function(const C*, C**) { throw Boom(9); }

template<typename T, typename C> static void throw_case(Shard& s, const Case& c, int kind, int err)
{
	const std::string e = enc(c); s.begin(e);
	std::basic_string<C> t; for (unsigned char ch : c.t) t += C(sizeof(C) == 1 ? char(ch) : ch);
	const std::basic_string<C> copy = t;
	u64 calls = 0; int caught = -1; const void* where = nullptr; int after = err;
	C* end = nullptr; long live = 0;
	const Thrower<T, C> f { kind, &calls, bool(c.bits & 1) };
	{
		const C* p = t.c_str();
		g_live = 0; errno = err;
		try
		{
			if (kind == 6)
			{
				if (c.op == atof_c || c.op == atof_w) floaxie::atof<T>(p, &end, throwing_function<T, C>);
				else if (c.op == null_c || c.op == null_w) floaxie::atof<T>(p, nullptr, throwing_function<T, C>);
				else floaxie::from_string<T>(t, throwing_function<T, C>);
			}
			else if (c.op == atof_c || c.op == atof_w) floaxie::atof<T>(p, &end, f);
			else if (c.op == null_c || c.op == null_w) floaxie::atof<T>(p, nullptr, f);
			else floaxie::from_string<T>(t, f);
			after = errno; caught = -2;
		}
		catch (int n) { after = errno; caught = n == 42 ? 0 : 99; }
		catch (const Boom& b) { after = errno; caught = b.n == 7 ? 1 : b.n == 9 ? 6 : 99; }
		catch (const Payload& q) { after = errno; caught = q.number == calls && q.text.size() > 40 ? 2 : 99; }
		catch (const std::bad_alloc&) { after = errno; caught = 3; }
		catch (const C* q) { after = errno; caught = 4; where = q; }
		catch (const std::function<int()>& q) { after = errno; caught = q() == 5 ? 5 : 99; }
		catch (...) { after = errno; caught = 98; }
		live = g_live;
		auto d = [&] { return describe(c) + " with a fallback throwing (kind " + std::to_string(kind) + "): "; };
		if (caught == -2) { if (calls) s.fail("swallowed", e, d() + "the exception doesn't arrive"); }
		else
		{
			if (caught != kind || (kind == 4 && where != p)) s.fail("changed", e, d() + "another exception arrives (" + std::to_string(caught) + ")");
			if (after != err) s.fail("errno", e, d() + "errno was " + std::to_string(err) + ", is " + std::to_string(after));
			s.count("exceptions_passed");
		}
		if (calls > 1) s.fail("calls", e, d() + "called " + std::to_string(calls) + " times");
		if (live) s.fail("leak", e, d() + std::to_string(live) + " blocks stay allocated");
		if (t != copy) s.fail("input", e, d() + "the text is changed");
		// and the same call with a well behaved fallback is not affected
		Res a, b; Case k = c; const Run u = perform<T>(k, a, 0, false, 0), w = perform<T>(k, b, 0, false, err);
		if (u.o != fine || w.o != fine || !same(a, b)) s.fail("later", e, d() + "later results " + rshow(a) + " and " + rshow(b));
	}
	s.count(caught == -2 ? "not_asked" : "asked");
	s.distinct(hash_bytes(e.data(), e.size()) + u64(kind));
}
static void throw_any(Shard& s, const Case& c, int kind, int err)
{
	const bool w = c.op == atof_w || c.op == null_w || c.op == from_w;
	if (c.dbl) { if (w) throw_case<double, wchar_t>(s, c, kind, err); else throw_case<double, char>(s, c, kind, err); }
	else if (w) throw_case<float, wchar_t>(s, c, kind, err); else throw_case<float, char>(s, c, kind, err);
}

static Case random_case(Rng& r, bool parse_only)
{
	Case c; c.op = parse_only ? int(atof_c + r.below(ops - atof_c)) : int(r.below(ops)); c.dbl = r.chance(2);
	c.bits = c.dbl ? to_bits(gen::value<double>(r, true)) : u64(to_bits(gen::value<float>(r, true)));
	if (parses(c.op))
	{
		const bool hard = parse_only && !r.chance(8);
		if (c.dbl) c.t = hard ? gen::sign(r) + gen::number<double>(r, r.chance(2) ? 4 : 5) : gen::text<double>(r);
		else c.t = hard ? gen::sign(r) + gen::number<float>(r, r.chance(2) ? 4 : 5) : gen::text<float>(r);
		c.t = c.t.c_str(); if (c.t.size() > 2000) c.t.resize(2000);
	}
	return c;
}

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	const u64 n = u64((opt().thorough ? 600000 : 20000) * opt().scale);
	Program p; p.shards = 128;
	p.shard = [=](Shard& s)
	{
		static const int errs[] = { 0, 0, EINVAL, ERANGE, ENOENT, -3 };
		for (u64 i = 0; i < n && !s.stopped(); ++i)
		{
			const Case c = random_case(s.rng, false);
			if (!i) s.sample(describe(c));
			if (c.dbl) memory_case<double>(s, c); else memory_case<float>(s, c);
			const Case t = random_case(s.rng, true);
			if (!i) s.sample(describe(t));
			throw_any(s, t, int(s.rng.below(7)), errs[s.rng.below(6)]);
		}
	};
	p.one = [](const std::string& x, Shard& s)
	{
		const Case c = dec(x);
		if (c.dbl) memory_case<double>(s, c); else memory_case<float>(s, c);
		if (parses(c.op)) for (int k = 0; k < 7; ++k) for (int err : { 0, EINVAL, ERANGE }) throw_any(s, c, k, err);
	};
	return run(argc, argv, p);
}

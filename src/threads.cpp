// Monitor of C16: conversions running concurrently, under ThreadSanitizer or
// plainly with delays injected by signals. Every round is a fresh process, so
// that the first use of everything is concurrent too.
#include <floaxie/atof.h>
#include <floaxie/ftoa.h>
#ifndef NO_BITS
#include <floaxie/print.h>
#endif
#ifndef NO_FIELDS
#include <floaxie/diy_fp.h>
#endif
#include <sstream>
#include "gen.hpp"
#include <pthread.h>
#include <sched.h>
#include <set>
#include <array>
#include <algorithm>

using namespace vk;
u64 ref::oracle_disagreements = 0;

enum Op { print_d, print_f, print_wd, string_d, wstring_f, print_wf, print_16d, print_32f, string_f, wstring_d, string_16d, string_32f, bits_d, fields_f, parse_d, parse_f, parse_wd, parse_wf, parse_spy_d, parse_spy_f, from_string_d, from_string_wf, from_string_f, from_string_wd, parse_null_d, parse_null_wf, parse_16d, parse_32f, default_d, default_wd, default_f, default_l, default_wl, ops };
static bool prints(int op) { return op < parse_d; }
static bool single(int op) { return op == print_f || op == wstring_f || op == print_wf || op == print_32f || op == string_f || op == string_32f || op == fields_f; }

struct Case { int op; double d; float f; std::string t; std::wstring w; };
struct Res
{
	u64 bits = 0; int status = 0; long end = 0; std::string text;
	bool operator==(const Res& o) const { return bits == o.bits && status == o.status && end == o.end && text == o.text; }
	std::string show() const { char b[96]; std::snprintf(b, sizeof b, "bits 0x%llx, %s, %ld characters, text '", (unsigned long long)bits, ref::status_name(status), end); return b + text + "'"; }
};
static inline u64 vbits(double v) { return std::isnan(v) ? 1 : to_bits(v); }
static inline u64 vbits(float v) { return std::isnan(v) ? 1 : to_bits(v); }

static inline u64 lbits(long double v) { if (std::isnan(v)) return 1; u64 m; unsigned short e; std::memcpy(&m, &v, 8); std::memcpy(&e, reinterpret_cast<char*>(&v) + 8, 2); return mix(m) ^ e; }

static thread_local Rng* t_rng;
static void nap()
{
	Rng& r = *t_rng;
	switch (r.below(4)) { case 0: sched_yield(); break; case 1: { volatile int x = 0; const int n = int(r.below(3000)); for (int i = 0; i < n; ++i) x = x + i; break; } default: break; }
}
template<typename T, typename C> T slow_fallback(const C* s, C** e) { nap(); const T v = floaxie::default_fallback<T, C>(s, e); nap(); return v; }

template<typename T, typename C> void parse_into(Res& r, const C* s, bool spy)
{
	C* e = nullptr;
	const auto x = spy ? floaxie::atof<T>(s, &e, slow_fallback<T, C>) : floaxie::atof<T>(s, &e);
	r.bits = vbits(x.value); r.status = int(x.status); r.end = e - s;
}
template<typename T, typename C> void print_into(Res& r, T v)
{
	C b[64]; r.end = long(floaxie::ftoa(v, b));
	for (int i = 0; i < 63 && b[i]; ++i) r.text += char(b[i]);
}
// atof() of characters the library has no default fallback for
template<typename T, typename C> T own_fallback(const C* s, C** e)
{
	std::string n; for (const C* p = s; *p; ++p) n += char(*p);
	char* q; nap();
	const T v = sizeof(T) == 4 ? T(std::strtof(n.c_str(), &q)) : T(std::strtod(n.c_str(), &q));
	if (e) *e = const_cast<C*>(s) + (q - n.c_str());
	return v;
}
template<typename T, typename C> void parse_other(Res& r, const std::string& t)
{
	const std::basic_string<C> w(t.begin(), t.end()); C* e = nullptr;
	const auto x = floaxie::atof<T>(w.c_str(), &e, own_fallback<T, C>);
	r.bits = vbits(x.value); r.status = int(x.status); r.end = e - w.c_str();
}
template<typename T, typename C> void parse_null(Res& r, const C* s)
{
	const auto x = floaxie::atof<T>(s, nullptr); r.bits = vbits(x.value); r.status = int(x.status);
}
#ifndef NO_DEFAULT
template<typename T, typename C> void whole_default(Res& r, const C* s)
{
	C* e = nullptr; r.bits = vbits(floaxie::default_fallback<T, C>(s, &e)); r.end = e - s;
}
#endif
template<typename S> void narrow_into(Res& r, const S& w) { for (auto x : w) r.text += char(x); r.end = long(w.size()); }
static Res perform(const Case& c)
{
	Res r;
	switch (c.op)
	{
	case print_d: print_into<double, char>(r, c.d); break;
	case print_f: print_into<float, char>(r, c.f); break;
	case print_wd: print_into<double, wchar_t>(r, c.d); break;
	case string_d: r.text = floaxie::to_string(c.d); break;
	case wstring_f: for (wchar_t x : floaxie::to_wstring(c.f)) r.text += char(x); break;
	case print_wf: print_into<float, wchar_t>(r, c.f); break;
	case print_16d: print_into<double, char16_t>(r, c.d); break;
	case print_32f: print_into<float, char32_t>(r, c.f); break;
	case string_f: r.text = floaxie::to_string(c.f); break;
	case wstring_d: narrow_into(r, floaxie::to_wstring(c.d)); break;
	case string_16d: narrow_into(r, floaxie::to_u16string(c.d)); break;
	case string_32f: narrow_into(r, floaxie::to_u32string(c.f)); break;
#ifndef NO_BITS
	case bits_d: { std::ostringstream o; o << floaxie::print_binary(c.d) << ' ' << floaxie::print_double_presentation(to_bits(c.d)) << ' ' << floaxie::print_binary(to_bits(c.f)); r.text = o.str(); break; }
#endif
#ifndef NO_FIELDS
	case fields_f: { std::ostringstream o; o << floaxie::diy_fp<float>(std::isfinite(c.f) ? std::fabs(c.f) : 1) << ' ' << floaxie::diy_fp<double>(std::isfinite(c.d) ? std::fabs(c.d) : 1); r.text = o.str(); break; }
#endif
	case parse_d: parse_into<double>(r, c.t.c_str(), false); break;
	case parse_f: parse_into<float>(r, c.t.c_str(), false); break;
	case parse_wd: parse_into<double>(r, c.w.c_str(), false); break;
	case parse_wf: parse_into<float>(r, c.w.c_str(), false); break;
	case parse_spy_d: parse_into<double>(r, c.t.c_str(), true); break;
	case parse_spy_f: parse_into<float>(r, c.t.c_str(), true); break;
	case from_string_d: { const auto x = floaxie::from_string<double>(c.t); r.bits = vbits(x.value); r.status = int(x.status); break; }
	case from_string_wf: { const auto x = floaxie::from_string<float>(c.w); r.bits = vbits(x.value); r.status = int(x.status); break; }
	case from_string_f: { const auto x = floaxie::from_string<float>(c.t); r.bits = vbits(x.value); r.status = int(x.status); break; }
	case from_string_wd: { const auto x = floaxie::from_string<double>(c.w); r.bits = vbits(x.value); r.status = int(x.status); break; }
	case parse_null_d: parse_null<double>(r, c.t.c_str()); break;
	case parse_null_wf: parse_null<float>(r, c.w.c_str()); break;
	case parse_16d: parse_other<double, char16_t>(r, c.t.c_str()); break;
	case parse_32f: parse_other<float, char32_t>(r, c.t.c_str()); break;
#ifndef NO_DEFAULT
	case default_d: whole_default<double>(r, c.t.c_str()); break;
	case default_wd: whole_default<double>(r, c.w.c_str()); break;
	case default_f: whole_default<float>(r, c.t.c_str()); break;
	case default_l: { char* e = nullptr; r.bits = lbits(floaxie::default_fallback<long double, char>(c.t.c_str(), &e)); r.end = e - c.t.c_str(); break; }
	case default_wl: { wchar_t* e = nullptr; r.bits = lbits(floaxie::default_fallback<long double, wchar_t>(c.w.c_str(), &e)); r.end = e - c.w.c_str(); break; }
#endif
	}
	return r;
}
static std::string describe(const Case& c)
{
	static const char* n[] = { "ftoa(double)", "ftoa(float)", "ftoa(double, wchar_t*)", "to_string(double)", "to_wstring(float)", "ftoa(float, wchar_t*)", "ftoa(double, char16_t*)", "ftoa(float, char32_t*)", "to_string(float)", "to_wstring(double)", "to_u16string(double)", "to_u32string(float)", "print_double_presentation()", "operator<<(diy_fp)", "atof<double>", "atof<float>", "atof<double>(wchar_t)", "atof<float>(wchar_t)", "atof<double>(fallback)", "atof<float>(fallback)", "from_string<double>", "from_string<float>(wstring)", "from_string<float>", "from_string<double>(wstring)", "atof<double>(null end)", "atof<float>(wchar_t, null end)", "atof<double>(char16_t, own fallback)", "atof<float>(char32_t, own fallback)", "default_fallback<double>", "default_fallback<double>(wchar_t)", "default_fallback<float>", "default_fallback<long double>", "default_fallback<long double>(wchar_t)" };
	return std::string(n[c.op]) + (prints(c.op) ? " of " + (single(c.op) ? ref::vshow(c.f) : ref::vshow(c.d)) : " of '" + show(c.t, 80) + "'");
}

struct Round
{
	u64 seed; unsigned threads; unsigned calls; bool same_order; bool jitter; bool crowd, relay; // very many threads; threads which come and go
	std::vector<Case> cases;
	std::atomic<unsigned> waiting{0};
	std::atomic<u64> ticket{0};
	std::atomic<int> in_flight{0}, overlap{0};
	std::atomic<bool> done{false};
	std::vector<std::vector<Res>> got;
	std::vector<std::vector<u32>> which, tick;
};
static Round* g_round;

static void on_signal(int)
{
	// a delay at an arbitrary instruction of a conversion
	const int e = errno; static std::atomic<unsigned> k{0};
	volatile unsigned x = 0; const unsigned n = (k.fetch_add(1, std::memory_order_relaxed) * 2654435761u) >> 17; // up to 32767
	for (unsigned i = 0; i < n; ++i) x = x + i;
	errno = e;
}

static void* worker(void* a)
{
	const unsigned id = unsigned(reinterpret_cast<std::size_t>(a));
	Round& R = *g_round;
	Rng r(mix(R.seed * 131 + id)); t_rng = &r;
	auto& got = R.got[id]; auto& which = R.which[id]; auto& tick = R.tick[id];
	// relaxed operations only: they must not order the threads for the race detector
	R.waiting.fetch_add(1, std::memory_order_relaxed);
	if (!R.relay) while (R.waiting.load(std::memory_order_relaxed) < R.threads) { if (R.crowd) usleep(200); else sched_yield(); }
	for (unsigned i = 0; i < R.calls; ++i)
	{
		const u32 k = R.same_order ? u32(i % R.cases.size()) : u32(r.below(R.cases.size()));
		tick.push_back(u32(R.ticket.fetch_add(1, std::memory_order_relaxed)));
		const int n = R.in_flight.fetch_add(1, std::memory_order_relaxed) + 1;
		if (n > R.overlap.load(std::memory_order_relaxed)) R.overlap.store(n, std::memory_order_relaxed);
		got.push_back(perform(R.cases[k]));
		R.in_flight.fetch_sub(1, std::memory_order_relaxed);
		which.push_back(k);
	}
	return nullptr;
}

static double finite_d(Rng& r) { return gen::value<double>(r, true); }

static void make_cases(Round& R)
{
	Rng r(mix(R.seed));
	R.threads = r.chance(3) ? 16 : r.chance(2) ? 8 : unsigned(r.range(2, 6));
	R.crowd = r.chance(5); R.relay = R.crowd && r.chance(2);
	if (R.crowd) R.threads = unsigned(r.chance(2) ? r.range(17, 80) : r.range(81, 300));
	R.same_order = r.chance(2);
	const int only = r.chance(3) ? int(r.below(ops)) : -1; // everyone does the same kind of thing
	const unsigned n = r.chance(4) ? unsigned(r.range(1, 4)) : unsigned(r.range(20, 80));
	for (unsigned i = 0; i < n; ++i)
	{
		Case c; c.op = only >= 0 && !r.chance(8) ? only : int(r.below(ops));
		c.d = finite_d(r); c.f = gen::value<float>(r, true);
		c.t = r.chance(2) ? gen::text<double>(r) : gen::text<float>(r);
		if (r.chance(3)) { c.t = gen::sign(r) + gen::number<double>(r, r.chance(2) ? 4 : r.chance(2) ? 5 : 9); } // near a rounding boundary: needs the fallback
		if (c.t.size() > 1500) c.t.resize(1500);
		c.w = ref::widen(c.t);
		R.cases.push_back(c);
	}
	R.calls = unsigned(opt().scale * (n < 5 ? 60 : 150));
	if (R.crowd) R.calls = unsigned(opt().scale * 1500 / R.threads);
	if (R.calls < 1) R.calls = 1;
}

struct Report { int bad; u64 calls, overlap, order, cases, threads, relay; char text[1600]; };

// runs in a fresh process
static void round_body(u64 seed, bool jitter, Report* out)
{
	static Round R; g_round = &R;
	R.seed = seed; R.jitter = jitter;
	make_cases(R);
	R.got.resize(R.threads); R.which.resize(R.threads); R.tick.resize(R.threads);
	for (unsigned i = 0; i < R.threads; ++i) { R.got[i].reserve(R.calls); R.which[i].reserve(R.calls); R.tick[i].reserve(R.calls); }
	if (jitter) { struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_RESTART; sigaction(SIGUSR1, &sa, nullptr); }
	std::vector<pthread_t> th(R.threads);
	for (unsigned i = 0; i < R.threads; ++i) pthread_create(&th[i], nullptr, worker, reinterpret_cast<void*>(std::size_t(i)));
	pthread_t jt; bool have = false;
	static std::vector<pthread_t>* ths; ths = &th;
	if (jitter)
		have = pthread_create(&jt, nullptr, [](void*) -> void*
		{
			Rng r(g_round->seed + 5);
			while (!g_round->done.load(std::memory_order_relaxed)) { pthread_kill((*ths)[r.below(ths->size())], SIGUSR1); for (volatile int i = 0, n = int(r.below(4000)); i < n; i = i + 1); }
			return nullptr;
		}, nullptr) == 0;
	if (jitter)
	{
		// threads must not end before the signalling one: they are joined after it
		while (R.ticket.load(std::memory_order_relaxed) < u64(R.threads) * R.calls) usleep(50);
		R.done.store(true, std::memory_order_relaxed);
		if (have) pthread_join(jt, nullptr);
	}
	for (auto& t : th) pthread_join(t, nullptr);

	// the interleaving observed: who made the k-th call
	std::vector<std::pair<u32, u32>> order;
	for (unsigned i = 0; i < R.threads; ++i) for (u32 t : R.tick[i]) order.emplace_back(t, i);
	std::sort(order.begin(), order.end());
	u64 h = R.threads; for (auto& p : order) h = mix(h ^ (u64(p.second) << 40) ^ p.first);
	out->order = h; out->overlap = u64(R.overlap.load()); out->calls = u64(R.threads) * R.calls; out->cases = R.cases.size(); out->threads = R.threads; out->relay = R.relay;

	Rng r(1); t_rng = &r;
	std::vector<Res> alone; for (auto& c : R.cases) alone.push_back(perform(c));
	for (unsigned i = 0; i < R.threads && !out->bad; ++i) for (std::size_t k = 0; k < R.got[i].size(); ++k)
	{
		const Res& x = alone[R.which[i][k]];
		if (!(R.got[i][k] == x))
		{
			out->bad = 1;
			std::snprintf(out->text, sizeof out->text, "thread %u, call %zu of %u threads: %s gave %s; alone: %s", i, k, R.threads, describe(R.cases[R.which[i][k]]).c_str(), R.got[i][k].show().c_str(), x.show().c_str());
			break;
		}
	}
	// against the reference too: alone isn't right by itself
	for (std::size_t k = 0; k < R.cases.size() && !out->bad; ++k)
	{
		const Case& c = R.cases[k];
		u64 want = 0; bool have_want = true;
		switch (c.op)
		{
		case parse_d: case parse_spy_d: case parse_wd: case from_string_d: case from_string_wd: case parse_null_d: case parse_16d: want = vbits(ref::expect<double>(c.t.c_str()).value); break;
		case parse_f: case parse_spy_f: case parse_wf: case from_string_wf: case from_string_f: case parse_null_wf: case parse_32f: want = vbits(ref::expect<float>(c.t.c_str()).value); break;
		default: have_want = false;
		}
		if (have_want && want != alone[k].bits) { out->bad = 2; std::snprintf(out->text, sizeof out->text, "after the concurrent phase %s gave %s", describe(c).c_str(), alone[k].show().c_str()); }
	}
}

static std::string slurp(int fd) { std::string r; char b[4096]; ::lseek(fd, 0, SEEK_SET); for (;;) { const ssize_t n = ::read(fd, b, sizeof b); if (n <= 0) break; r.append(b, std::size_t(n)); } return r; }

// returns whether something was found
static bool run_round(Shard& s, u64 seed, bool jitter, bool judge = true, bool again = false)
{
	char cs[40]; std::snprintf(cs, sizeof cs, "%llu", (unsigned long long)seed);
	s.begin(cs, std::strlen(cs)); --s.evaluations;
	Report* rep = static_cast<Report*>(shared_mem(sizeof(Report)));
	std::memset(rep, 0, sizeof *rep);
	const int fd = int(::memfd_create("err", 0));
	std::fflush(nullptr);
	const pid_t p = fork();
	if (p < 0) { std::perror("fork"); _exit(2); }
	if (p == 0)
	{
		if (fd >= 0) ::dup2(fd, 2);
		::alarm(50);
		round_body(seed, jitter, rep);
		::_exit(0);
	}
	int st = 0; while (::waitpid(p, &st, 0) < 0 && errno == EINTR);
	bool bad = false;
	if (rep->bad) { bad = true; if (judge) s.fail("result", cs, rep->text); }
	else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
	{
		const std::string e = fd >= 0 ? slurp(fd) : "";
		const std::size_t k = e.find("SUMMARY:"), w = e.find("WARNING: ThreadSanitizer");
		std::string m = w != std::string::npos ? e.substr(w, 600) : e.substr(0, 300);
		for (char& c : m) if (c == '\n') c = ' ';
		if (k != std::string::npos) m = e.substr(k, e.find('\n', k) - k) + " | " + m;
		if (e.find("FATAL: ThreadSanitizer") != std::string::npos || e.find("unexpected memory mapping") != std::string::npos) { std::fprintf(stderr, "%s\n", m.c_str()); _exit(2); }
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM && !again) { ::close(fd); ::munmap(rep, sizeof(Report)); return run_round(s, seed, jitter, judge, true); }
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) m = "conversions running in several threads didn't finish in 50 s, twice";
		else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { std::fprintf(stderr, "a round was killed\n"); _exit(2); }
		else if (m.empty()) m = "the process ended with status " + std::to_string(st);
		bad = true; if (judge) s.fail(w != std::string::npos ? "race" : "crash", cs, m);
	}
	s.evaluations += rep->calls; s.count("rounds"); if (rep->threads > 16) s.count("rounds_of_many_threads"); if (rep->relay) s.count("rounds_of_passing_threads"); s.maximum("threads_of_a_round", rep->threads); s.count("concurrent_calls", rep->calls);
	if (rep->overlap > 1) s.count("rounds_with_overlap");
	s.maximum("threads_in_conversions_at_once", rep->overlap);
	if (s.distinct(rep->order)) s.count("distinct_interleavings");
	::close(fd); ::munmap(rep, sizeof(Report));
	return bad;
}

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	const bool jitter = opt().extra["--jitter"] == "yes";
	const u64 rounds = std::strtoull(opt().extra["--rounds"].c_str(), nullptr, 10) * (opt().thorough ? 20 : 1);
	opt().jobs = std::max(1, opt().jobs / 4); // every round has threads of its own
	Program p; p.shards = 32;
	p.shard = [=](Shard& s)
	{
		for (u64 i = 0; i < (rounds + 31) / 32 && !s.stopped(); ++i)
		{
			const u64 seed = mix(opt().seed * 1000003 + s.index * 4099 + i) >> 1;
			if (i == 0) { Round R; R.seed = seed; make_cases(R); s.sample(std::to_string(R.threads) + " threads, " + std::to_string(R.cases.size()) + " cases, e.g. " + describe(R.cases[0])); }
			run_round(s, seed, jitter);
		}
	};
	p.one = [=](const std::string& c, Shard& s)
	{
		for (int i = 0; i < 40; ++i) if (run_round(s, std::strtoull(c.c_str(), nullptr, 10), jitter)) break;
	};
	return run(argc, argv, p);
}

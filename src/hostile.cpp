// Monitor of C14: parsing of arbitrary terminated text is memory safe.
// The text is seen by the library through a read-only mapping between
// inaccessible pages: its first character follows one or its terminator precedes
// one. In the sanitizer builds it lies in an exactly sized heap block as well.
// In the plain build every allocation is counted.
#include <floaxie/atof.h>
#include "gen.hpp"
#include <new>

using namespace vk;
u64 ref::oracle_disagreements = 0;

static thread_local long g_live = 0; static thread_local u64 g_allocs = 0;
#ifdef COUNT_ALLOC
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++g_live; ++g_allocs; return p; }
void operator delete(void* p) noexcept { if (p) { --g_live; std::free(p); } }
void operator delete(void* p, std::size_t) noexcept { if (p) { --g_live; std::free(p); } }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
#endif

// two views of the same memory: writable for the harness, read-only for the library
struct Views
{
	std::size_t size, page; char *rw, *ro;
	explicit Views(std::size_t bytes)
	{
		page = std::size_t(sysconf(_SC_PAGESIZE)); size = (bytes + page - 1) / page * page;
		const int fd = ::memfd_create("text", 0);
		if (fd < 0 || ::ftruncate(fd, off_t(size))) { std::perror("memfd"); _exit(2); }
		rw = static_cast<char*>(::mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
		char* hole = static_cast<char*>(::mmap(nullptr, size + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		if (rw == MAP_FAILED || hole == MAP_FAILED || ::mmap(hole + page, size, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { std::perror("mmap"); _exit(2); }
		ro = hole + page;
	}
};
static Views& views() { static Views v(std::size_t(9) << 20); return v; }

template<typename T, typename C> void call(Shard& s, const C* t, std::size_t n, const std::string& e, const char* where)
{
	C* end = nullptr;
	const long live = g_live;
	{
		const auto r = floaxie::atof<T>(t, &end);
		if (end < t || end > t + n) s.fail("endoutside", e, std::string(where) + ": end of the number reported outside the text (offset " + std::to_string(long(end - t)) + " of " + std::to_string(n) + ")");
		const int st = int(r.status);
		if (st < 0 || st > 2) s.fail("badstatus", e, "status is none of the enumerators");
	}
	{ const auto r = floaxie::atof<T>(t, nullptr, [](const C* a, C** b) { if (b) *b = const_cast<C*>(a); return T(1); }); (void)r; }
	if (g_live != live) s.fail("leak", e, "live allocations changed by " + std::to_string(g_live - live));
}

template<typename T, typename C> void attack(Shard& s, const std::basic_string<C>& t)
{
	std::string e(1, char((sizeof(T) == 8 ? 'd' : 'f') - (sizeof(C) > 1 ? 32 : 0)));
	e.append(reinterpret_cast<const char*>(t.data()), std::min<std::size_t>(t.size() * sizeof(C), 8000));
	s.begin(e);
	Views& v = views();
	const std::size_t bytes = (t.size() + 1) * sizeof(C);
	if (bytes > v.size) return;
	// terminator right before the inaccessible page, hostile digits in front
	const std::size_t off = v.size - bytes;
	const std::size_t pre = std::min<std::size_t>(off, 64);
	for (std::size_t i = 0; i < pre; ++i) v.rw[off - 1 - i] = "9.e1"[i & 3];
	std::memcpy(v.rw + off, t.c_str(), bytes);
	call<T, C>(s, reinterpret_cast<const C*>(v.ro + off), t.size(), e, "before a guard page");
	// first character right after the inaccessible page, hostile digits behind the terminator
	std::memcpy(v.rw, t.c_str(), bytes);
	if (bytes + 64 <= v.size) { C* q = reinterpret_cast<C*>(v.rw + bytes); for (int i = 0; i < 8; ++i) q[i] = C("9876e5.1"[i]); }
	call<T, C>(s, reinterpret_cast<const C*>(v.ro), t.size(), e, "after a guard page");
#if defined(__SANITIZE_ADDRESS__) || defined(HEAP_COPY)
	C* h = new C[t.size() + 1]; std::memcpy(h, t.c_str(), bytes);
	call<T, C>(s, h, t.size(), e, "in the heap");
	delete[] h;
#endif
	if (s.distinct(hash_bytes(t.data(), t.size() * sizeof(C), sizeof(T) * 16 + sizeof(C))))
		s.count(t.size() > 2048 ? "longer_than_limit" : t.size() > 300 ? "long" : t.size() > 30 ? "medium" : "short");
	s.maximum("max_length", t.size());
}

static std::string hostile(Rng& r, bool th)
{
	auto num = [&](std::size_t n) { std::string x; x.reserve(n); for (std::size_t i = 0; i < n; ++i) x += char('0' + r.below(10)); return x; };
	auto len = [&]() -> std::size_t { switch (r.below(8)) { case 0: return std::size_t(2030 + r.below(40)); case 1: return r.below(5000); case 2: return r.chance(th ? 20 : 60) ? r.below(th ? 2000000 : 300000) : r.below(3000); default: return r.below(60); } };
	switch (r.below(22))
	{
	case 0: return gen::text<double>(r);
	case 1: return gen::text<float>(r);
	case 2: return gen::noise(r, 40);
	case 3: return gen::noise(r, int(r.below(3000)));
	case 4: return gen::special(r);
	case 5: { static const char* w[] = { "1e", "1.5e-", "0e+", "1e-0", "-.5E", "123456789012345678901e" }; return w[r.below(6)] + num(len()); }
	case 6: return num(len());
	case 7: return std::string(len(), '0') + num(r.below(30)) + "." + std::string(len(), '0') + num(r.below(30));
	case 8: return "." + std::string(len(), '0') + num(r.below(40)) + "e" + std::to_string(r.below(100000));
	case 9: return num(1 + r.below(25)) + std::string(len(), '0') + (r.chance(2) ? "." : "") + num(r.below(25)) + gen::exp_part(r, r.range(-3000, 3000));
	case 10: { std::string t = num(len()); if (!t.empty()) t[r.below(t.size())] = "+-.eEnNiIaAfF() x"[r.below(17)]; return t; }
	case 11: return "nan(" + std::string(len(), "aZ0_9"[r.below(5)]) + (r.chance(2) ? ")" : "");
	case 12: { std::string t = r.chance(2) ? "infinity" : "nan(abc)"; t.resize(r.below(t.size() + 1)); return gen::sign(r) + t; }
	case 13: { std::string t; const std::size_t n = len(); for (std::size_t i = 0; i < n; ++i) t += char(1 + r.below(255)); return t; }
	case 14: return std::string(len(), '.');
	case 15: return std::string(len(), "+-eEniNI"[r.below(8)]);
	case 16: { std::string t = num(r.below(40)) + "." + num(r.below(40)) + "e" + std::to_string(long(r()) >> r.below(64)); return t; }
	case 17: { std::string t = gen::number<double>(r); t.resize(r.below(t.size() + 1)); return gen::sign(r) + t; }
	case 18: { std::string t = gen::number<double>(r); if (!t.empty()) t[r.below(t.size())] = char(1 + r.below(255)); return t; }
	case 19: return std::string(2000 + r.below(100), '0') + (r.chance(2) ? "." : "") + num(r.below(60));
	case 20: { std::string t = num(2000 + r.below(100)); t.insert(r.below(t.size()), "."); return t + "e5"; }
	default: { std::string t = "1" + std::string(r.below(2100), '0') + "." + std::string(r.below(2100), '0') + "1"; return t + gen::exp_part(r, r.range(-2200, 2200)); }
	}
}

static void attack_all(Shard& s, const std::string& t0)
{
	// embedded terminators end the text
	const std::string t = t0.c_str();
	attack<double, char>(s, t); attack<float, char>(s, t);
	std::wstring w = ref::widen(t);
	if (s.rng.chance(3))
	{
		if (!w.empty() && s.rng.chance(2))
		{
			// any value of the type, its limits and images of the ASCII characters included
			const std::size_t p = s.rng.chance(3) ? w.size() - 1 : s.rng.below(w.size());
			u32 c;
			switch (s.rng.below(5))
			{
			case 0: c = u32(s.rng()); break;
			case 1: c = (s.rng.chance(2) ? 0x80000000u : 0u) + u32(s.rng.range(-64, 128)); break;
			case 2: c = u32(w[p]) ^ (u32(1) << (7 + s.rng.below(25))); break;
			case 3: c = 0xffffffffu - u32(s.rng.below(256)); break;
			default: c = 1 + u32(s.rng.below(0x10ffff));
			}
			const wchar_t k = wchar_t(c ? c : 1);
			if (s.rng.chance(2)) w[p] = k; else w.insert(p + s.rng.below(2), 1, k);
			s.count("odd_wide_characters");
		}
		attack<double, wchar_t>(s, w); attack<float, wchar_t>(s, w);
	}
}

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	Program p; p.shards = 256;
	const bool th = opt().thorough;
	const u64 n = u64((th ? 200000 : 16000) * opt().scale);
	p.shard = [=](Shard& s)
	{
		for (u64 i = 0; i < n && !s.stopped(); ++i)
		{
			const std::string t = hostile(s.rng, th);
			if (i < 2) s.sample("'" + t + "'");
			attack_all(s, t);
		}
		// exponents of every magnitude, including all digit counts
		for (int k = 0; k < 200; ++k) attack_all(s, gen::sign(s.rng) + gen::digits(s.rng, 1 + k % 25) + (s.rng.chance(2) ? "e" : "e-") + std::to_string(s.rng() >> s.rng.below(64)) + (s.rng.chance(3) ? gen::digits(s.rng, 1 + int(s.rng.below(30))) : ""));
		for (long k = long(s.index) * 6 - 760; k < long(s.index) * 6 - 754; ++k) for (int d = 1; d < 24; ++d) attack_all(s, gen::digits(s.rng, d) + "e" + std::to_string(k));
		s.count("allocations_observed", g_allocs); g_allocs = 0;
	};
	p.one = [](const std::string& c, Shard& s)
	{
		if (c.empty()) return;
		if (c[0] == 'd') attack<double, char>(s, c.substr(1)); else if (c[0] == 'f') attack<float, char>(s, c.substr(1));
		else { std::wstring w((c.size() - 1) / 4, L' '); std::memcpy(&w[0], c.data() + 1, w.size() * 4); if (c[0] == 'D') attack<double, wchar_t>(s, w); else attack<float, wchar_t>(s, w); }
	};
	return run(argc, argv, p);
}

// Common machinery of the monitors: forked workers, shard scheduling, crash and
// hang attribution, counters, distinct-case counting, reporting.
//
// A harness is a program that defines two callbacks:
//   shard(Shard&)            - runs one deterministic slice of the workload
//   one(const string&, Shard&) - re-runs a single recorded case (replay)
// Work is done in forked children, so that whatever the code under test does
// (signal, sanitizer report, endless loop) is attributed to the case in flight.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cerrno>
#include <string>
#include <vector>
#include <map>
#include <atomic>
#include <functional>
#include <limits>
#include <type_traits>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>

namespace vk
{
using u64 = std::uint64_t;
using u32 = std::uint32_t;

struct Rng // xoshiro256** seeded by splitmix64
{
	u64 s[4];
	static u64 split(u64& x)
	{
		u64 z = (x += 0x9e3779b97f4a7c15ULL);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
		return z ^ (z >> 31);
	}
	explicit Rng(u64 seed = 1) { for (auto& x : s) x = split(seed); }
	static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
	u64 operator()()
	{
		const u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
		s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
		return r;
	}
	u64 below(u64 n) { return n ? (*this)() % n : 0; }
	int range(int a, int b) { return a + int(below(u64(b - a) + 1)); } // inclusive
	bool chance(unsigned one_in) { return below(one_in) == 0; }
};

inline u64 hash_bytes(const void* p, std::size_t n, u64 h = 0xcbf29ce484222325ULL)
{
	const unsigned char* c = static_cast<const unsigned char*>(p);
	while (n >= 8)
	{
		u64 x; std::memcpy(&x, c, 8);
		h = (h ^ x) * 0x9fb21c651e98df25ULL; h ^= h >> 29;
		c += 8; n -= 8;
	}
	u64 x = 0; std::memcpy(&x, c, n);
	h = (h ^ x ^ (u64(n) << 56)) * 0x9fb21c651e98df25ULL; h ^= h >> 32;
	h *= 0x9fb21c651e98df25ULL; h ^= h >> 29;
	return h;
}
inline u64 mix(u64 x) { return hash_bytes(&x, 8); }

inline std::string hex(const void* p, std::size_t n)
{
	static const char* d = "0123456789abcdef";
	std::string r; const unsigned char* c = static_cast<const unsigned char*>(p);
	for (std::size_t i = 0; i < n; ++i) { r += d[c[i] >> 4]; r += d[c[i] & 15]; }
	return r;
}
inline std::string unhex(const std::string& h)
{
	std::string r;
	for (std::size_t i = 0; i + 1 < h.size(); i += 2) r += char(std::stoi(h.substr(i, 2), nullptr, 16));
	return r;
}
// printable, one-line, tab-free, length-capped
inline std::string show(const std::string& s, std::size_t cap = 120)
{
	std::string r;
	for (unsigned char c : s)
	{
		if (r.size() > cap) { r += "...(" + std::to_string(s.size()) + " bytes)"; break; }
		if (c < 32 || c > 126 || c == '\\') { char b[8]; std::snprintf(b, 8, "\\x%02x", c); r += b; }
		else r += char(c);
	}
	return r;
}

constexpr std::size_t case_cap = 8192;
constexpr std::size_t max_workers = 64;
constexpr u64 distinct_bits = u64(1) << 29;

struct Slot
{
	std::atomic<u64> ticks;
	std::atomic<int> running;
	std::atomic<u64> shard;
	std::atomic<u32> len;
	char data[case_cap];
};

struct Shared
{
	std::atomic<u64> next;
	std::atomic<u64> violations;
	std::atomic<int> stop;
	Slot slots[max_workers];
};

struct Options
{
	u64 seed = 1;
	bool thorough = false;
	double scale = 1; // multiplies the number of random cases
	int jobs = 0;
	std::string out = "/dev/stdout";
	std::string one; bool has_one = false;
	std::string dir;
	unsigned hang_s = 120;
	std::map<std::string, std::string> extra;
};

inline Options& opt() { static Options o; return o; }

class Shard
{
public:
	Shard(u64 idx, Shared* sh, Slot* slot, std::atomic<u64>* bitmap, FILE* f)
		: rng(mix(opt().seed * 0x1000003ULL + idx) ^ mix(idx + 77)), index(idx), m_sh(sh), m_slot(slot), m_bitmap(bitmap), m_f(f) { }

	Rng rng;
	u64 index;

	// announces the case about to be executed against the code under test
	void begin(const void* p, std::size_t n)
	{
		if (m_slot)
		{
			if (n > case_cap) n = case_cap;
			std::memcpy(m_slot->data, p, n);
			m_slot->len.store(u32(n), std::memory_order_relaxed);
			m_slot->ticks.fetch_add(1, std::memory_order_relaxed);
		}
		++evaluations;
	}
	void begin(const std::string& s) { begin(s.data(), s.size()); }
	void tick() { if (m_slot) m_slot->ticks.fetch_add(1, std::memory_order_relaxed); }

	// name must be a string literal (looked up by address on the fast path)
	void count(const char* name, u64 n = 1)
	{
		for (auto& c : m_fast) if (c.first == name) { c.second += n; return; }
		m_fast.emplace_back(name, n);
	}
	void maximum(const char* name, u64 v) { auto& x = m_max[name]; if (v > x) x = v; }
	void minimum(const char* name, u64 v) { auto it = m_min.find(name); if (it == m_min.end()) m_min[name] = v; else if (v < it->second) it->second = v; }

	// counts a non-trivial case once (lower bound: hash collisions merge cases)
	bool distinct(u64 h)
	{
		if (!m_bitmap) { ++distinct_count; return true; }
		h = mix(h) & (distinct_bits - 1);
		const u64 bit = u64(1) << (h & 63);
		if (m_bitmap[h >> 6].load(std::memory_order_relaxed) & bit) return false;
		if (m_bitmap[h >> 6].fetch_or(bit, std::memory_order_relaxed) & bit) return false;
		++distinct_count;
		return true;
	}

	void sample(const std::string& s)
	{
		// at most a few per shard
		if (m_samples < 2) { ++m_samples; std::fprintf(m_f, "S\t%s\n", show(s, 260).c_str()); }
	}

	// key classifies the violation, cs replays it
	void fail(const std::string& key, const std::string& cs, const std::string& msg)
	{
		if (m_sh && m_sh->violations.fetch_add(1) > 400) { m_sh->stop = 1; }
		if (m_fails++ < 40)
		{
			std::fprintf(m_f, "V\t%s\t%s\t%s\n", key.c_str(), hex(cs.data(), cs.size()).c_str(), show(msg, 600).c_str());
			std::fflush(m_f);
		}
	}

	bool stopped() const { return m_sh && m_sh->stop.load(std::memory_order_relaxed); }

	void flush()
	{
		std::fprintf(m_f, "N\t%llu\t%llu\n", (unsigned long long)evaluations, (unsigned long long)distinct_count);
		for (auto& c : m_fast) m_counts[c.first] += c.second;
		m_fast.clear();
		for (auto& c : m_counts) std::fprintf(m_f, "C\t%s\t%llu\n", c.first.c_str(), (unsigned long long)c.second);
		for (auto& c : m_max) std::fprintf(m_f, "M\t%s\t%llu\n", c.first.c_str(), (unsigned long long)c.second);
		for (auto& c : m_min) std::fprintf(m_f, "m\t%s\t%llu\n", c.first.c_str(), (unsigned long long)c.second);
		std::fflush(m_f);
		m_counts.clear(); evaluations = distinct_count = 0;
	}

	u64 evaluations = 0, distinct_count = 0;
	u64 fails() const { return m_fails; }

private:
	Shared* m_sh; Slot* m_slot; std::atomic<u64>* m_bitmap; FILE* m_f;
	std::map<std::string, u64> m_counts, m_max, m_min;
	std::vector<std::pair<const char*, u64>> m_fast;
	unsigned m_samples = 0; u64 m_fails = 0;
};

struct Program
{
	u64 shards = 64;
	std::function<void(Shard&)> shard;
	std::function<void(const std::string&, Shard&)> one;
	// runs in the parent before forking: everything heavy and shared
	std::function<void()> prepare;
	// runs once in every worker before its first shard
	std::function<void()> worker_init;
};

inline void* shared_mem(std::size_t n)
{
	void* p = ::mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { std::perror("mmap"); std::exit(2); }
	return p;
}

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }

inline void parse_args(int argc, char** argv)
{
	Options& o = opt();
	for (int i = 1; i + 1 < argc; i += 2)
	{
		const std::string k = argv[i], v = argv[i + 1];
		if (k == "--seed") o.seed = std::strtoull(v.c_str(), nullptr, 10);
		else if (k == "--tier") o.thorough = v == "thorough";
		else if (k == "--scale") o.scale = std::atof(v.c_str());
		else if (k == "--jobs") o.jobs = std::atoi(v.c_str());
		else if (k == "--out") o.out = v;
		else if (k == "--one") { o.one = unhex(v); o.has_one = true; }
		else if (k == "--dir") o.dir = v;
		else if (k == "--hang") o.hang_s = unsigned(std::atoi(v.c_str()));
		else o.extra[k] = v;
	}
	if (o.jobs <= 0) { long n = sysconf(_SC_NPROCESSORS_ONLN); o.jobs = n > 0 ? int(n) : 4; }
	if (o.jobs > int(max_workers)) o.jobs = int(max_workers);
}

inline int run(int argc, char** argv, const Program& prog)
{
	parse_args(argc, argv);
	Options& o = opt();
	if (prog.prepare) prog.prepare();

	if (o.has_one)
	{
		if (prog.worker_init) prog.worker_init();
		FILE* f = std::fopen(o.out.c_str(), "a");
		if (!f) return 2;
		Shard s(0, nullptr, nullptr, nullptr, f);
		prog.one(o.one, s);
		s.flush();
		std::fprintf(f, "END\n");
		std::fclose(f);
		return 0;
	}

	Shared* sh = static_cast<Shared*>(shared_mem(sizeof(Shared)));
	std::atomic<u64>* bitmap = static_cast<std::atomic<u64>*>(shared_mem(distinct_bits / 8));
	const int jobs = o.jobs;
	std::vector<pid_t> pid(jobs, -1);
	std::vector<u64> last_tick(jobs, 0);
	std::vector<double> last_change(jobs, now());
	FILE* out = std::fopen(o.out.c_str(), "a");
	if (!out) return 2;
	std::fprintf(out, "T\t%llu\n", (unsigned long long)prog.shards);

	auto spawn = [&](int w)
	{
		std::fflush(out);
		const pid_t p = fork();
		if (p < 0) { std::perror("fork"); std::exit(2); }
		if (p == 0)
		{
			const std::string wf = o.out + ".w" + std::to_string(w);
			FILE* f = std::fopen(wf.c_str(), "a");
			const std::string ef = o.out + ".err" + std::to_string(w);
			const int fd = ::open(ef.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
			if (!f || fd < 0) _exit(2);
			::dup2(fd, 2);
			if (prog.worker_init) prog.worker_init();
			Slot& slot = sh->slots[w];
			for (;;)
			{
				const u64 idx = sh->next.fetch_add(1);
				if (idx >= prog.shards || sh->stop.load()) break;
				slot.shard = idx; slot.len = 0; slot.running = 1; slot.ticks.fetch_add(1);
				Shard s(idx, sh, &slot, bitmap, f);
				prog.shard(s);
				s.flush();
				std::fprintf(f, "D\t%llu\n", (unsigned long long)idx);
				std::fflush(f);
				slot.running = 0;
			}
			std::fclose(f);
			_exit(0);
		}
		pid[w] = p; last_change[w] = now(); last_tick[w] = sh->slots[w].ticks;
	};

	for (int w = 0; w < jobs; ++w) spawn(w);

	int alive = jobs, crashes = 0;
	while (alive)
	{
		int st = 0;
		const pid_t p = ::waitpid(-1, &st, WNOHANG);
		if (p > 0)
		{
			for (int w = 0; w < jobs; ++w) if (pid[w] == p)
			{
				pid[w] = -1; --alive;
				Slot& slot = sh->slots[w];
				if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
				{
					const bool hung = slot.running == 2;
					std::fprintf(out, "X\t%s\t%s\t%d\t%llu\n", hung ? "hang" : "crash",
						hex(slot.data, slot.len).c_str(), st, (unsigned long long)slot.shard.load());
					std::fflush(out);
					slot.running = 0;
					if (hung) sh->stop = true; // confirming takes long enough
					else if (++crashes < 12) { spawn(w); ++alive; }
				}
			}
			continue;
		}
		const double t = now();
		for (int w = 0; w < jobs; ++w) if (pid[w] > 0)
		{
			Slot& slot = sh->slots[w];
			const u64 k = slot.ticks;
			if (k != last_tick[w] || !slot.running) { last_tick[w] = k; last_change[w] = t; }
			else if (t - last_change[w] > double(o.hang_s) && slot.running == 1) { slot.running = 2; ::kill(pid[w], SIGKILL); }
		}
		::usleep(2000);
	}
	std::fprintf(out, "END\n");
	std::fclose(out);
	return 0;
}

// ---- guarded memory -------------------------------------------------------
// A block whose last byte is followed by an inaccessible page (and whose first
// page is preceded by one): overreads and overwrites fault at once, with no
// instrumentation of the code under test.
class Guarded
{
public:
	explicit Guarded(std::size_t bytes)
	{
		m_page = std::size_t(sysconf(_SC_PAGESIZE));
		m_size = (bytes + m_page - 1) / m_page * m_page;
		char* p = static_cast<char*>(::mmap(nullptr, m_size + 2 * m_page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		if (p == MAP_FAILED) { std::perror("mmap"); std::exit(2); }
		m_data = p + m_page;
		::mprotect(m_data, m_size, PROT_READ | PROT_WRITE);
	}
	std::size_t size() const { return m_size; }
	char* front() const { return m_data; }
	// the last n bytes before the guard page
	char* tail(std::size_t n) const { return m_data + m_size - n; }
	void readonly() const { ::mprotect(m_data, m_size, PROT_READ); }
	void writable() const { ::mprotect(m_data, m_size, PROT_READ | PROT_WRITE); }
private:
	char* m_data; std::size_t m_size, m_page;
};

template<typename T> T from_bits(typename std::conditional<sizeof(T) == 8, u64, u32>::type u) { T r; std::memcpy(&r, &u, sizeof r); return r; }
template<typename T> typename std::conditional<sizeof(T) == 8, u64, u32>::type to_bits(T v) { typename std::conditional<sizeof(T) == 8, u64, u32>::type u; std::memcpy(&u, &v, sizeof u); return u; }
} // namespace vk

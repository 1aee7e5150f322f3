// Texts of more characters than an int, or 32 bits, can count: exponents and
// n-char sequences have no documented limit of length. (Monitor of C09, C10, C14.)
// The middle of such a text is one piece of memory mapped again and again, so it
// takes address space only.
#include <floaxie/atof.h>
#include "gen.hpp"

using namespace vk;
u64 ref::oracle_disagreements = 0;

struct Case { const char *head; char fill; const char *tail; double value; int status; int left; }; // left: characters not consumed
static const Case g_cases[] =
{
	{ "1e", '0', "5", 1e5, 0, 0 },
	{ "-25e-", '0', "3x", -0.025, 0, 1 },
	{ "1e", '7', "", HUGE_VAL, 2, 0 },
	{ "-3.5e-", '9', " ", -0.0, 1, 1 },
	{ "0e", '9', "+", 0.0, 0, 1 },
	{ "nan(", '_', ")", NAN, 0, 0 },
	{ "-nan(", '7', "a)b", -NAN, 0, 1 },
	{ "nan(", 'z', "", NAN, 0, -1 }, // never closed, just the word is consumed
	{ "12E+", '0', "", 12.0, 0, 0 },
	{ "4.5", 'e', "1", 4.5, 0, -2 }, // nothing but the number
	{ "-7", ' ', "1", -7.0, 0, -3 },
};
constexpr int kinds = sizeof g_cases / sizeof *g_cases;

static bool g_asked;
static std::string g_check;
static bool is(const char* c) { return g_check == c; }
template<typename T, typename C> void giant(Shard& s, int kind, u64 units, const std::string& id)
{
	s.begin(id);
	const Case& k = g_cases[kind];
	const std::size_t page = std::size_t(sysconf(_SC_PAGESIZE)), piece = std::size_t(32) << 20;
	const std::size_t nh = std::strlen(k.head), nt = std::strlen(k.tail);
	const std::size_t mid = (units * sizeof(C) + piece - 1) / piece;
	// [page: head at its end][mid pieces][page: tail, terminator at its end][inaccessible]
	const int fd = ::memfd_create("giant", 0);
	if (fd < 0 || ::ftruncate(fd, off_t(piece + 2 * page))) { std::perror("memfd"); _exit(2); }
	char* rw = static_cast<char*>(::mmap(nullptr, piece + 2 * page, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
	char* hole = static_cast<char*>(::mmap(nullptr, mid * piece + 4 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	if (rw == MAP_FAILED || hole == MAP_FAILED) { std::perror("mmap"); _exit(2); }
	C* w = reinterpret_cast<C*>(rw);
	const std::size_t pu = page / sizeof(C), mu = piece / sizeof(C);
	for (std::size_t i = 0; i < pu; ++i) w[i] = i + nh < pu ? C('9') : C(k.head[i + nh - pu]);
	for (std::size_t i = 0; i < mu; ++i) w[pu + i] = C(k.fill);
	for (std::size_t i = 0; i < pu; ++i) { const std::size_t back = pu - 1 - i; w[pu + mu + i] = back == 0 ? C(0) : back <= nt ? C(k.tail[nt - back]) : C(k.fill); }
	char* at = hole + page;
	bool ok = ::mmap(at, page, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED; at += page;
	for (std::size_t i = 0; i < mid; ++i, at += piece) ok = ok && ::mmap(at, piece, PROT_READ, MAP_SHARED | MAP_FIXED, fd, off_t(page)) != MAP_FAILED;
	ok = ok && ::mmap(at, page, PROT_READ, MAP_SHARED | MAP_FIXED, fd, off_t(page + piece)) != MAP_FAILED;
	if (!ok) { std::perror("mmap"); _exit(2); }
	const C* t = reinterpret_cast<const C*>(hole + 2 * page) - nh;
	const C* z = reinterpret_cast<const C*>(at + page) - 1; // terminator
	const u64 n = u64(z - t);
	g_asked = false;
	C* e = nullptr; s.tick();
	const auto r = floaxie::atof<T>(t, &e, +[](const C* a, C** b) { g_asked = true; if (b) *b = const_cast<C*>(a); return T(42); });
	s.tick();
	const std::string what = std::string("'") + k.head + "' with " + std::to_string(n - nh - nt) + " times '" + k.fill + "' and '" + k.tail + "' as " + ref::tn<T>::name() + ": ";
	const u64 want = k.left >= 0 ? n - u64(k.left) : k.left == -1 ? 3 : k.left == -2 ? 3 : 2;
	if (e < t || e > z) { if (is("C14")) s.fail("endoutside", id, what + "end is outside the text"); }
	else if (is("C09") && u64(e - t) != want) s.fail("end", id, what + "consumed " + std::to_string(u64(e - t)) + " of " + std::to_string(n) + " characters, expected " + std::to_string(want));
	if (g_asked) s.count("fallback_asked");
	else if (is("C10"))
	{
		const T v = T(k.value);
		if (std::isnan(v) ? !std::isnan(r.value) : r.value != v) s.fail("value", id, what + "value is " + ref::vshow(r.value));
		if (std::signbit(r.value) != std::signbit(k.value)) s.fail("sign", id, what + "sign of the value is wrong");
		if (int(r.status) != k.status) s.fail("status", id, what + "status is " + ref::status_name(int(r.status)));
	}
	s.count("giants"); s.maximum("giant_length", n); s.distinct(hash_bytes(id.data(), id.size()));
	s.sample(what + "consumed " + std::to_string(u64(e - t)));
	::munmap(hole, mid * piece + 4 * page); ::munmap(rw, piece + 2 * page); ::close(fd);
}
static void run_case(Shard& s, const std::string& id)
{
	const char t = id[0]; char* q; const int kind = int(std::strtol(id.c_str() + 1, &q, 10)); const u64 units = std::strtoull(q, nullptr, 10);
	if (kind < 0 || kind >= kinds || units > u64(1) << 34) return;
	switch (t) { case 'd': giant<double, char>(s, kind, units, id); break; case 'f': giant<float, char>(s, kind, units, id); break; case 'D': giant<double, wchar_t>(s, kind, units, id); break; case 'F': giant<float, wchar_t>(s, kind, units, id); break; default: break; }
}

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	g_check = opt().extra["--check"];
	std::vector<std::string> ids;
	auto add = [&](char t, u64 n) { for (int k = 0; k < kinds; ++k) ids.push_back(std::string(1, t) + std::to_string(k) + " " + std::to_string(n)); };
	const u64 g31 = (u64(1) << 31) - 3, g32 = (u64(1) << 32) + 5;
	if (opt().thorough) { for (char t : { 'd', 'f', 'D', 'F' }) { add(t, g31); add(t, g32); add(t, g32 + g31); } }
	else if (is("C09")) { add('d', g32); add('F', g31); }
	else if (is("C10")) { add('f', g32); add('D', g31); }
	else { add('d', g31); add('D', g31); }
	Program p; p.shards = ids.size();
	p.shard = [&](Shard& s) { run_case(s, ids[s.index]); };
	p.one = [](const std::string& c, Shard& s) { if (c.size() > 3) run_case(s, c); };
	return run(argc, argv, p);
}

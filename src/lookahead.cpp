// Monitor of C29: parsing reads no character after the one that decides where the
// number ends. The text is placed without a terminator, so that its deciding
// character is the last one before an inaccessible page, read-only.
#include <floaxie/atof.h>
#include "gen.hpp"

using namespace vk;
u64 ref::oracle_disagreements = 0;

struct Views
{
	std::size_t size, page; char *rw, *ro;
	explicit Views(std::size_t bytes)
	{
		page = std::size_t(sysconf(_SC_PAGESIZE)); size = (bytes + page - 1) / page * page;
		const int fd = ::memfd_create("text", 0);
		if (fd < 0 || ::ftruncate(fd, off_t(size))) { std::perror("memfd"); _exit(2); }
		rw = static_cast<char*>(::mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
		char* hole = static_cast<char*>(::mmap(nullptr, size + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		if (rw == MAP_FAILED || hole == MAP_FAILED || ::mmap(hole + page, size, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { std::perror("mmap"); _exit(2); }
		ro = hole + page;
	}
};
static Views& views() { static Views v(std::size_t(3000) * 4); return v; }

// number of characters a scanner going from left to right has to see
static std::size_t needed(const std::string& t)
{
	const char* s = t.c_str();
	std::size_t i = 0;
	if (s[0] == '+' || s[0] == '-') ++i;
	if (ref::is_ci(s[i], 'n') || ref::is_ci(s[i], 'i'))
	{
		const char* w = ref::is_ci(s[i], 'n') ? "nan" : "infinity";
		std::size_t j = 0;
		while (w[j] && ref::is_ci(s[i + j], w[j])) ++j;
		if (w[j]) return i + j + 1;     // up to the first difference
		if (w[0] == 'i') return i + j;  // complete
		if (s[i + 3] != '(') return i + 4;
		j = i + 4;
		while (ref::is_digit(s[j]) || (s[j] >= 'a' && s[j] <= 'z') || (s[j] >= 'A' && s[j] <= 'Z') || s[j] == '_') ++j;
		return j + 1;
	}
	bool any = false;
	while (ref::is_digit(s[i])) { ++i; any = true; }
	if (s[i] == '.') { ++i; while (ref::is_digit(s[i])) { ++i; any = true; } }
	if (any && ref::is_ci(s[i], 'e'))
	{
		++i;
		if (s[i] == '+' || s[i] == '-') ++i;
		while (ref::is_digit(s[i])) ++i;
	}
	return i + 1;
}

static long g_asked = 0;
template<typename T, typename C> static T own(const C* s, C** e)
{
	// reads what it needs only
	++g_asked;
	const std::size_t n = ref::scan(s).end; if (e) *e = const_cast<C*>(s + n);
	return T(1);
}

template<typename T, typename C> static void check(Shard& s, const std::string& t, char kind)
{
	std::string e(1, kind); e += t; s.begin(e);
	const std::size_t n = std::min(needed(t), t.size() + 1); // the terminator may be the deciding character
	if (n > 2049) return;
	Views& v = views();
	C* w = reinterpret_cast<C*>(v.rw + v.size) - n;
	for (std::size_t i = 0; i < n; ++i) w[i] = C((unsigned char)t.c_str()[i]);
	const C* text = reinterpret_cast<const C*>(v.ro + v.size) - n;
	const ref::Scan sc = ref::scan(t.c_str());
	C* end = nullptr;
	auto judge = [&](const char* form)
	{
		if (std::size_t(end - text) != sc.end) s.fail("end", e, std::string(form) + " of '" + show(t) + "' cut after the deciding character: consumed " + std::to_string(long(end - text)) + " instead of " + std::to_string(sc.end));
	};
	if constexpr (std::is_same<C, char>::value || std::is_same<C, wchar_t>::value)
	{
		const auto r = floaxie::atof<T>(text, &end); judge("parsing");
		{ const auto x = ref::expect<T>(t.c_str()); if (!ref::same(x.value, r.value) || int(x.status) != int(r.status)) s.fail("value", e, "parsing of '" + show(t) + "' cut after the deciding character gives " + ref::vshow(r.value) + " instead of " + ref::vshow(x.value)); }
		(void)floaxie::atof<T>(text, nullptr);
	}
	else
	{
		const long asked = g_asked;
		(void)floaxie::atof<T>(text, &end, own<T, C>); judge(asked == g_asked ? "parsing" : "parsing with a fallback");
	}
	if (s.distinct(hash_bytes(t.data(), std::min(t.size(), n), u64(kind))))
	{
		s.count("texts_without_terminator");
		s.count(n > t.size() ? "decided_by_terminator" : sc.kind == ref::number ? (n > sc.end + 1 ? "exponent_looked_into" : "number_then_other_character") : sc.kind == ref::nothing ? "not_a_number" : "special");
	}
}
static void check_all(Shard& s, const std::string& t0)
{
	const std::string t = t0.c_str();
	check<double, char>(s, t, 'd'); check<float, char>(s, t, 'f'); check<double, wchar_t>(s, t, 'D'); check<float, wchar_t>(s, t, 'F');
	if (s.rng.chance(4)) { check<double, char16_t>(s, t, 'u'); check<float, char32_t>(s, t, 'U'); }
}

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	Program p; p.shards = 64;
	const u64 n = u64((opt().thorough ? 1500000 : 60000) * opt().scale);
	p.shard = [=](Shard& s)
	{
		Rng& r = s.rng;
		for (u64 i = 0; i < n && !s.stopped(); ++i)
		{
			std::string t;
			switch (r.below(8))
			{
			case 0: t = gen::special(r); break;
			case 1: t = gen::noise(r, 12); break;
			case 2: t = gen::sign(r) + gen::number<double>(r) + "e+-"[r.below(3)] + "x"; break;
			case 3: t = gen::sign(r) + gen::number<float>(r) + gen::suffix(r); break;
			case 4: t = gen::text<float>(r); break;
			default: t = gen::text<double>(r); break;
			}
			if (r.chance(8)) { t = t.c_str(); t.resize(r.below(t.size() + 1)); }
			if (r.chance(3)) t += "; "; // mostly decided by another character
			if (i < 2) s.sample("'" + t + "' decided by its character " + std::to_string(needed(t.c_str())));
			check_all(s, t);
		}
		// every prefix of telling texts, followed by every character
		static const char* tell[] = { "-12.5e-10", "+0.0e0", "nan(aZ_9)", "-Infinity", ".5E+5", "00123456789012345678901234567890.1", "1234567890123456789.00000001e5" };
		for (u64 k = s.index; k < 7 * 34; k += 64)
		{
			std::string t = tell[k % 7]; if (k / 7 > t.size()) continue;
			t.resize(k / 7); for (int c = 1; c < 256; ++c) check_all(s, t + char(c));
			s.count("every_character_sweeps");
		}
	};
	p.one = [](const std::string& c, Shard& s)
	{
		const std::string t = c.substr(1);
		switch (c[0]) { case 'd': check<double, char>(s, t, 'd'); break; case 'f': check<float, char>(s, t, 'f'); break; case 'D': check<double, wchar_t>(s, t, 'D'); break; case 'F': check<float, wchar_t>(s, t, 'F'); break;
		case 'u': check<double, char16_t>(s, t, 'u'); break; case 'U': check<float, char32_t>(s, t, 'U'); break; }
	};
	return run(argc, argv, p);
}

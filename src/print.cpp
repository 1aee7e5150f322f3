// Monitors of the printing side: C01, C02, C03, C05 (one per run, --check).
#include <floaxie/ftoa.h>
#include "gen.hpp"
#include <cinttypes>

using namespace vk;
u64 ref::oracle_disagreements = 0;

template<typename T> using U = typename gen::P<T>::U;
static std::string g_check;

template<typename T> std::string enc(T v) { std::string s(1, sizeof(T) == 8 ? 'd' : 'f'); const U<T> u = to_bits(v); s.append(reinterpret_cast<const char*>(&u), sizeof u); return s; }

constexpr std::size_t room = 128;
struct Text { char b[room]; std::size_t len; const char* begin() const { return b + 16; } };

// prints into the middle of a filled buffer, so that a wrong terminator shows
template<typename T> inline void print(T v, Text& t, unsigned char fill)
{
	std::memset(t.b, fill, room);
	floaxie::ftoa(v, t.b + 16);
	t.b[room - 1] = 0;
	t.len = std::strlen(t.begin());
}
template<typename T> inline std::string what(T v, const Text& t) { return std::string(ref::tn<T>::name()) + " " + ref::vshow(v) + " printed as '" + std::string(t.begin(), t.len) + "'"; }

// ---- C01/C02: reads back
template<typename T> inline void reread(Shard& s, T v, unsigned char fill, bool cross)
{
	Text t; print(v, t, fill);
	if (v == 0)
	{
		if (t.len != 1 || *t.begin() != '0') s.fail("zero", enc(v), what(v, t));
		return;
	}
	T back = 0;
	const char* e = t.begin() + t.len;
	const auto fc = std::from_chars(t.begin(), e, back);
	bool ok = fc.ec == std::errc() && fc.ptr == e && to_bits(back) == to_bits(v);
	if (!ok || cross)
	{
		char* ce; const T c = sizeof(T) == 8 ? T(std::strtod(t.begin(), &ce)) : T(std::strtof(t.begin(), &ce));
		const bool ok2 = ce == e && to_bits(c) == to_bits(v);
		if (ok != ok2 && (fc.ec == std::errc() && fc.ptr == e)) { ++ref::oracle_disagreements; s.count("oracle_disagreements"); return; }
		if (ok2) ok = ref::scan(t.begin()).kind == ref::number && ref::scan(t.begin()).end == t.len;
		s.count("cross_checked");
	}
	if (!ok) s.fail("reread", enc(v), what(v, t) + " which reads back as " + ref::vshow(back));
}

// ---- C03: canonical notation
template<typename T> inline void notation(Shard& s, T v, unsigned char fill)
{
	Text t; print(v, t, fill);
	const std::string x(t.begin(), t.len);
	std::string want;
	if (std::isnan(v)) { want = "nan"; s.count("nan"); }
	else if (std::isinf(v)) { want = v > 0 ? "inf" : "-inf"; s.count("inf"); }
	else if (v == 0) { want = "0"; s.count("zero"); }
	else
	{
		// take the number apart leniently, then rebuild it by the documented rules
		std::string d; long point = -1, exp10 = 0; bool seen_e = false, bad = false;
		std::size_t i = !x.empty() && x[0] == '-' ? 1 : 0;
		for (; i < x.size() && !bad; ++i)
		{
			if (ref::is_digit(x[i])) d += x[i];
			else if (x[i] == '.' && point < 0) point = long(d.size());
			else if (x[i] == 'e') { seen_e = true; char* e; exp10 = std::strtol(x.c_str() + i + 1, &e, 10); bad = *e || !(ref::is_digit(x[i + 1]) || x[i + 1] == '-'); break; }
			else bad = true;
		}
		if (bad || d.empty()) { s.fail("notation", enc(v), what(v, t) + ": not a number"); return; }
		if (point < 0) point = long(d.size());
		std::size_t lead = d.find_first_not_of('0');
		if (lead == std::string::npos) { s.fail("notation", enc(v), what(v, t) + ": no significant digit"); return; }
		d.erase(0, lead); point -= long(lead);
		if (seen_e && d.back() == '0' && d.size() > 1) { s.fail("notation", enc(v), what(v, t) + ": trailing zero"); return; }
		while (d.size() > 1 && d.back() == '0') d.pop_back();
		const long n = long(d.size()), dot = point + exp10; // value = 0.d * 10^dot
		if (v < 0) want = "-";
		if (std::max(dot, n - dot) <= 16)
		{
			if (dot <= 0) { want += "0." + gen::zeros(std::size_t(-dot)) + d; s.count("decimal_below_one"); }
			else if (n <= dot) { want += d + gen::zeros(std::size_t(dot - n)); s.count("decimal_integer"); }
			else { want += d.substr(0, dot) + "." + d.substr(dot); s.count("decimal_fraction"); }
			if (std::max(dot, n - dot) == 16) s.count("layout_limit_16");
		}
		else
		{
			want += d[0]; if (n > 1) want += "." + d.substr(1);
			char b[40]; std::snprintf(b, sizeof b, "e%s%02ld", dot - 1 < 0 ? "-" : "", std::labs(dot - 1)); want += b;
			s.count(std::labs(dot - 1) >= 100 ? "scientific_3_digit_exponent" : std::labs(dot - 1) < 10 ? "scientific_1_digit_value" : "scientific_2_digit_exponent");
			if (std::max(dot, n - dot) == 17) s.count("layout_limit_17");
		}
	}
	if (x != want) s.fail("notation", enc(v), what(v, t) + ", expected '" + want + "'");
}

// ---- C05: shortness
template<typename T> inline bool shortness(Shard& s, T v, bool rate)
{
	if (v == 0) return true;
	Text t; print(v, t, 0x55);
	const int n = ref::sig_digits(t.begin(), t.len);
	s.maximum(sizeof(T) == 8 ? "max_digits_double" : "max_digits_float", u64(n));
	if (n > gen::P<T>::digits) s.fail("toolong", enc(v), what(v, t) + ": " + std::to_string(n) + " significant digits");
	if (!rate) return true;
	char b[64]; const auto r = std::to_chars(b, b + 64, v, std::chars_format::scientific);
	const int m = ref::sig_digits(b, std::size_t(r.ptr - b));
	s.count(sizeof(T) == 8 ? "rate_double_total" : "rate_float_total");
	if (n > m) s.count(sizeof(T) == 8 ? "rate_double_longer" : "rate_float_longer");
	return n <= m;
}

template<typename T> void eval(Shard& s, T v, unsigned char fill, bool cross)
{
	const std::string e = enc(v);
	s.begin(e);
	if (g_check == "C03") notation(s, v, fill);
	else if (g_check == "C05") { if (std::isfinite(v)) shortness(s, v, false); }
	else { if (std::isfinite(v)) reread(s, v, fill, cross); }
	s.distinct(hash_bytes(e.data(), e.size()));
}

// every binary exponent with telling mantissas
template<typename T> void structured(Shard& s, u64 from, u64 to, int randoms)
{
	constexpr int mb = gen::P<T>::mbits; const U<T> mm = (U<T>(1) << mb) - 1;
	for (u64 e = from; e < to; ++e)
	{
		std::vector<U<T>> ms;
		for (U<T> k = 0; k < 20; ++k) { ms.push_back(k); ms.push_back(mm - k); ms.push_back((mm >> 1) + k); ms.push_back((mm >> 1) - k); }
		for (int b = 0; b < mb; ++b) { ms.push_back(U<T>(1) << b); ms.push_back((U<T>(1) << b) - 1); ms.push_back(mm ^ (U<T>(1) << b)); ms.push_back((mm << b) & mm); ms.push_back((U<T>(1) << b) | 1); ms.push_back((U<T>(1) << b) + (U<T>(1) << (mb - 1))); }
		for (int k = 0; k < randoms; ++k) ms.push_back(U<T>(s.rng()) & mm);
		for (auto m : ms) for (int sg = 0; sg < 2; ++sg)
			eval<T>(s, from_bits<T>(U<T>((U<T>(sg) << (sizeof(T) * 8 - 1)) | (U<T>(e) << mb) | (m & mm))), (unsigned char)(s.rng()), (m & 63) == 1);
		s.count(sizeof(T) == 8 ? "binary_exponents_double" : "binary_exponents_float");
	}
}

template<typename T> void randoms(Shard& s, u64 n)
{
	for (u64 i = 0; i < n && !s.stopped(); ++i)
	{
		const T v = gen::value<T>(s.rng, g_check == "C03");
		if (i == 0) { Text t; print(v, t, 'x'); s.sample(std::string(ref::tn<T>::name()) + " " + ref::vshow(v) + " -> " + std::string(t.begin(), t.len)); }
		eval<T>(s, v, (unsigned char)(s.rng()), (i & 63) == 0);
	}
}

// C02: all 2^31 magnitudes, both signs
static void exhaustive_float(Shard& s, u32 from, u32 count)
{
	Text p, n; const unsigned char fill = (unsigned char)s.rng();
	std::memset(p.b, fill, room); std::memset(n.b, fill, room);
	u64 done = 0;
	for (u32 i = 0; i < count; ++i)
	{
		const u32 u = from + i;
		if ((u & 0x7f800000u) == 0x7f800000u) continue;
		if ((i & 1023) == 0) { const std::string e = enc(from_bits<float>(u)); s.begin(e); s.evaluations += 1023 * 2 + 1; if (s.stopped()) return; }
		const float v = from_bits<float>(u);
		floaxie::ftoa(v, p.b + 16);
		floaxie::ftoa(-v, n.b + 16);
		const std::size_t lp = ::strnlen(p.b + 16, room - 16);
		++done;
		if (u == 0)
		{
			if (std::strcmp(p.b + 16, "0") || std::strcmp(n.b + 16, "0")) s.fail("zero", enc(v), "zero printed as something else");
			continue;
		}
		float back; const char* e = p.b + 16 + lp;
		const auto fc = std::from_chars(p.b + 16, (const char*)e, back);
		if (!(fc.ec == std::errc() && fc.ptr == e && to_bits(back) == u)) reread(s, v, fill, true);
		// the negative text is either the same with a minus, or has to read back on its own
		if (n.b[16] != '-' || std::memcmp(n.b + 17, p.b + 16, lp + 1)) reread(s, -v, fill, true);
		if ((i & 511) == 7) reread(s, v, fill, true);
	}
	s.distinct_count += done * 2;
	s.count("float_magnitudes_enumerated", done);
}

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	g_check = opt().extra["--check"];
	Program p;
	const bool th = opt().thorough;
	const double sc = opt().scale;
	if (g_check == "C02")
	{
		p.shards = 2048;
		p.shard = [](Shard& s) { exhaustive_float(s, u32(s.index << 20), u32(1) << 20); if (s.index % 256 == 0) randoms<float>(s, 1); };
	}
	else if (g_check == "C01")
	{
		p.shards = 512;
		const u64 n = u64((th ? 4000000. : 400000.) * sc);
		p.shard = [n, th](Shard& s) { structured<double>(s, s.index * 4, std::min<u64>(2047, s.index * 4 + 4), th ? 4000 : 400); randoms<double>(s, n); };
	}
	else if (g_check == "C03")
	{
		p.shards = 512;
		const u64 n = u64((th ? 400000. : 40000.) * sc);
		p.shard = [n, th](Shard& s)
		{
			structured<double>(s, s.index * 4, std::min<u64>(2048, s.index * 4 + 4), th ? 1000 : 150);
			if (s.index < 256) structured<float>(s, s.index, s.index + 1, th ? 4000 : 600);
			randoms<double>(s, n); randoms<float>(s, n);
			// short decimals around every layout limit
			for (int i = 0; i < 3000; ++i)
			{
				char b[64]; std::string d = gen::digits(s.rng, s.rng.range(1, 17));
				std::snprintf(b, sizeof b, "0.%se%d", d.c_str(), s.rng.range(-20, 22));
				eval<double>(s, std::strtod(b, nullptr), (unsigned char)s.rng(), false);
				eval<float>(s, std::strtof(b, nullptr), (unsigned char)s.rng(), false);
				eval<double>(s, -std::strtod(b, nullptr), (unsigned char)s.rng(), false);
			}
		};
	}
	else if (g_check == "C05")
	{
		p.shards = 512;
		const u64 n = u64((th ? 400000. : 60000.) * sc);
		p.shard = [n, th](Shard& s)
		{
			structured<double>(s, s.index * 4, std::min<u64>(2047, s.index * 4 + 4), th ? 2000 : 300);
			if (s.index < 255) structured<float>(s, s.index, s.index + 1, th ? 20000 : 3000);
			randoms<double>(s, n); randoms<float>(s, n);
			for (u64 i = 0; i < n; ++i)
			{
				const double d = gen::uniform_bits<double>(s.rng); s.begin(enc(d)); shortness(s, d, true); s.distinct(to_bits(d));
				const float f = gen::uniform_bits<float>(s.rng); s.begin(enc(f)); shortness(s, f, true); s.distinct(to_bits(f));
			}
		};
	}
	else return 2;
	p.one = [](const std::string& c, Shard& s)
	{
		if (c.size() == 9) { u64 u; std::memcpy(&u, c.data() + 1, 8); eval<double>(s, from_bits<double>(u), 0x5a, true); }
		else if (c.size() == 5) { u32 u; std::memcpy(&u, c.data() + 1, 4); eval<float>(s, from_bits<float>(u), 0x5a, true); }
	};
	return run(argc, argv, p);
}

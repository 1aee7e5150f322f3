// C21: one deterministic workload; a digest per block of cases, to be compared
// between the build configurations.
//   config TEXTS VALUES [kind block]   (the latter dumps the results of one block)
#include <floaxie/ftoa.h>
#include <floaxie/atof.h>
#include "config_common.hpp"
#include <cstdio>
#include <cstdlib>
#include <vector>

static const std::size_t block = 64;
static std::string g_now;
static void say(const char* k, std::size_t b, const Out& o) { std::printf("B\t%s\t%zu\t%016llx\n", k, b, (unsigned long long)o.h); }

// conversions during static initialization and destruction work too
struct Early { std::string s; double v; Early() : s(floaxie::to_string(0.1)), v(floaxie::atof<double>("1.5e3", nullptr)) { } ~Early() { if (floaxie::to_string(2.5) != "2.5" || floaxie::from_string<float>(std::string("0.75")) != 0.75f) std::_Exit(3); } };
static Early g_early;

int main(int argc, char** argv)
{
	if (argc < 3) return 2;
	if (g_early.s != "0.1" || g_early.v != 1500) { std::printf("EARLY\t%s\n", g_early.s.c_str()); return 4; }
	const std::string kind = argc > 3 ? argv[3] : ""; const std::size_t only = argc > 4 ? std::strtoul(argv[4], nullptr, 10) : std::size_t(-1);
	std::FILE* f = std::fopen(argv[1], "rb"); if (!f) return 2;
	std::uint32_t len; std::vector<char> buf; std::size_t n = 0; Out o; unsigned long units = 0;
	while (std::fread(&len, 4, 1, f) == 1)
	{
		buf.resize(len + 1); if (len && std::fread(buf.data(), 1, len, f) != len) return 2; buf[len] = 0;
		const std::size_t b = n / block; ++n;
		if (only != std::size_t(-1) && !(kind == "text" && only == b)) continue;
		const std::string t(buf.data()); std::wstring w; for (unsigned char c : t) w += wchar_t(c);
		Out x, y; x.dump = y.dump = only != std::size_t(-1);
		parsing_here(t, w, x); parsing_unit(t, w, y);
		if (x.h != y.h) { std::printf("UNITS\ttext\t%s\n", t.c_str()); ++units; }
		if (x.dump) { std::printf("C\t"); for (unsigned char c : t) std::printf("%02x", c); std::printf("\t%s\n", x.text.c_str()); }
		o.num(x.h);
		if (n % block == 0) { say("text", b, o); o = Out(); }
	}
	say("text", n / block, o); o = Out();
	std::fclose(f); f = std::fopen(argv[2], "rb"); if (!f) return 2;
	double d; float s; std::size_t m = 0;
	while (std::fread(&d, 8, 1, f) == 1 && std::fread(&s, 4, 1, f) == 1)
	{
		const std::size_t b = m / block; ++m;
		if (only != std::size_t(-1) && !(kind == "value" && only == b)) continue;
		Out x, y; x.dump = y.dump = only != std::size_t(-1);
		printing_here(d, s, x); printing_unit(d, s, y);
		if (x.h != y.h) { std::printf("UNITS\tvalue\t%a %a\n", d, double(s)); ++units; }
		if (x.dump) std::printf("C\t%a %a\t%s\n", d, double(s), x.text.c_str());
		o.num(x.h);
		if (m % block == 0) { say("value", b, o); o = Out(); }
	}
	say("value", m / block, o);
	std::printf("DONE\t%zu\t%zu\t%lu\n", n, m, units);
	return 0;
}

// MemorySanitizer run: every byte the library reads has been written, every byte
// of its results is initialized. Cases come from a file (see gencases.cpp), so
// that nothing but the library runs here.
//   msan text|value FILE
// The templates of the C++ library that lie compiled in libstdc++.so (std::string,
// streams) are not instrumented there, what they write would look unwritten: have
// them compiled here, with instrumentation, whichever of them the library uses.
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <floaxie/atof.h>
#include <floaxie/ftoa.h>
#include <sanitizer/msan_interface.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <unistd.h>

static unsigned char g_case[9000]; static unsigned g_len; static char g_kind;
static void on_death()
{
	static const char* d = "0123456789abcdef"; static char b[20100]; unsigned k = 0;
	std::memcpy(b, "\nMSAN-CASE ", 11); k = 11; b[k++] = g_kind; b[k++] = ' ';
	for (unsigned i = 0; i < g_len && i < sizeof g_case; ++i) { b[k++] = d[g_case[i] >> 4]; b[k++] = d[g_case[i] & 15]; }
	b[k++] = '\n'; (void)!::write(2, b, k);
}

template<typename T, typename C> static unsigned parse(const unsigned char* t, unsigned n)
{
	C* h = static_cast<C*>(std::malloc((n + 1) * sizeof(C)));
	for (unsigned i = 0; i < n; ++i) h[i] = sizeof(C) == 1 ? C(char(t[i])) : C(t[i]);
	h[n] = C(0);
	C* e;
	auto r = floaxie::atof<T>(h, &e);
	__msan_check_mem_is_initialized(&r.value, sizeof r.value);
	__msan_check_mem_is_initialized(&r.status, sizeof r.status);
	__msan_check_mem_is_initialized(&e, sizeof e);
	const unsigned k = unsigned(e - h) + unsigned(int(r.status)) + (r.value > 0);
	auto q = floaxie::atof<T>(h, nullptr);
	__msan_check_mem_is_initialized(&q.value, sizeof q.value);
	std::free(h);
	return k;
}
template<typename T, typename C> static unsigned print(T v)
{
	constexpr std::size_t M = floaxie::max_buffer_size<T>();
	C* b = static_cast<C*>(std::malloc(M * sizeof(C))); // uninitialized
	std::size_t n = floaxie::ftoa(v, b);
	__msan_check_mem_is_initialized(&n, sizeof n);
	if (n >= M) std::abort();
	__msan_check_mem_is_initialized(b, (n + 1) * sizeof(C));
	std::free(b);
	return unsigned(n);
}

int main(int argc, char** argv)
{
	if (argc < 3) return 2;
	__sanitizer_set_death_callback(on_death);
	FILE* f = std::fopen(argv[2], "rb"); if (!f) return 2;
	static unsigned char buf[65536];
	unsigned long cases = 0, sum = 0;
	if (argv[1][0] == 't')
	{
		std::uint32_t l;
		while (std::fread(&l, 4, 1, f) == 1)
		{
			if (l > sizeof buf || std::fread(buf, 1, l, f) != l) return 2;
			g_len = l < sizeof g_case ? l : sizeof g_case; std::memcpy(g_case, buf, g_len);
			g_kind = 'd'; sum += parse<double, char>(buf, l); g_kind = 'f'; sum += parse<float, char>(buf, l);
			g_kind = 'D'; sum += parse<double, wchar_t>(buf, l); g_kind = 'F'; sum += parse<float, wchar_t>(buf, l);
			++cases;
		}
	}
	else
	{
		double d; float s;
		while (std::fread(&d, 8, 1, f) == 1 && std::fread(&s, 4, 1, f) == 1)
		{
			g_kind = 'd'; std::memcpy(g_case, &d, 8); g_len = 8;
			sum += print<double, char>(d); sum += print<double, wchar_t>(d); sum += print<double, char16_t>(d); sum += print<double, char32_t>(d);
			g_kind = 'f'; std::memcpy(g_case, &s, 4); g_len = 4;
			sum += print<float, char>(s); sum += print<float, wchar_t>(s); sum += print<float, char16_t>(s); sum += print<float, char32_t>(s);
			++cases;
		}
	}
	std::printf("CASES %lu %lu\n", cases, sum);
	return 0;
}

// Coverage guided workload (libFuzzer) with the same oracles as the other monitors.
// The property is chosen by the environment variable VK_CHECK.
#include <floaxie/atof.h>
#include <floaxie/ftoa.h>
#include "ref.hpp"
#include "gen.hpp"

using namespace vk;
u64 ref::oracle_disagreements = 0;

static const char* check() { static const char* c = std::getenv("VK_CHECK"); return c ? c : "C14"; }
static bool is(const char* c) { return !std::strcmp(check(), c); }

static void bad(const std::string& key, const std::string& msg)
{
	std::fprintf(stderr, "VK-FAIL\t%s\t%s\n", key.c_str(), show(msg, 500).c_str());
	std::fflush(stderr);
	std::abort();
}

template<typename T, typename C> void text(const unsigned char* d, std::size_t n)
{
	std::string t;
	for (std::size_t i = 0; i < n && d[i]; ++i) t += char(d[i]);
	C* h = new C[t.size() + 1];
	for (std::size_t i = 0; i < t.size(); ++i) h[i] = sizeof(C) == 1 ? C(t[i]) : C((unsigned char)t[i]);
	h[t.size()] = C(0);
	C* end = nullptr;
	const auto r = floaxie::atof<T>(h, &end);
	const long e = long(end - h);
	delete[] h;
	if (e < 0 || e > long(t.size())) bad("endoutside", "end of the number outside the text");
	if (t.size() > 2040 || is("C14")) return;
	const auto x = ref::expect<T>(t.c_str());
	const std::string m = std::string(ref::tn<T>::name()) + (sizeof(C) > 1 ? " wide '" : " '") + t + "' gave " + ref::vshow(r.value) + ", " + ref::status_name(int(r.status)) + ", " + std::to_string(e) + " characters; expected " + ref::vshow(x.value) + ", " + ref::status_name(int(x.status)) + ", " + std::to_string(x.end);
	if ((is("C07") || is("C08")) && x.kind == ref::number && !ref::same(r.value, x.value)) bad("value", m);
	if (is("C09") && (e != long(x.end) || (x.kind == ref::nothing && (r.value != 0 || int(r.status))))) bad("extent", m);
	if (is("C10") && (int(r.status) != int(x.status) || (x.status && !ref::same(r.value, x.value)))) bad("status", m);
	if (is("C11"))
	{
		if ((x.kind == ref::nan_ || x.kind == ref::inf_) ? (!ref::same(r.value, x.value) || int(r.status) || e != long(x.end)) : (std::isnan(r.value) || (std::isinf(r.value) && x.status != ref::st_overflow))) bad("special", m);
	}
}

template<typename T> void value(const unsigned char* d)
{
	T v; std::memcpy(&v, d, sizeof v);
	const std::size_t M = floaxie::max_buffer_size<T>();
	char* h = new char[M]; std::memset(h, 0x7e, M);
	const std::size_t n = floaxie::ftoa(v, h);
	const std::size_t len = ::strnlen(h, M);
	const std::string t(h, len); delete[] h;
	const std::string m = std::string(ref::tn<T>::name()) + " " + ref::vshow(v) + " printed as '" + t + "', returned length " + std::to_string(n);
	if (len == M || n != len) bad("length", m);
	if (is("C04") || !std::isfinite(v)) return;
	const T back = ref::c_strto(t.c_str(), T());
	if ((is("C01") || is("C02")) && (v == 0 ? t != "0" : to_bits(back) != to_bits(v) || ref::scan(t.c_str()).end != t.size())) bad("reread", m + ", reads back as " + ref::vshow(back));
	if (is("C05") && ref::sig_digits(t.c_str(), t.size()) > gen::P<T>::digits) bad("toolong", m);
	if (is("C15") && v != 0)
	{
		char* e; const auto r = floaxie::atof<T>(t.c_str(), &e);
		if (to_bits(r.value) != to_bits(v) || int(r.status) || *e) bad("circle", m + ", parsed back as " + ref::vshow(r.value));
	}
}

extern "C" int LLVMFuzzerTestOneInput(const unsigned char* d, std::size_t n)
{
	if (is("C01") || is("C02") || is("C04") || is("C05") || is("C15"))
	{
		if (n >= 8) value<double>(d);
		if (n >= 4 && !is("C01")) value<float>(d);
		return 0;
	}
	if (!n) return 0;
	if (is("C07")) { text<double, char>(d, n); return 0; }
	if (is("C08")) { text<float, char>(d, n); return 0; }
	switch (d[0] & 3)
	{
	case 0: text<double, char>(d + 1, n - 1); break;
	case 1: text<float, char>(d + 1, n - 1); break;
	case 2: text<double, wchar_t>(d + 1, n - 1); break;
	default: text<float, wchar_t>(d + 1, n - 1); break;
	}
	return 0;
}

// C21: shared by the units of the configuration monitor. C++14, no library headers here.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
struct Out
{
	std::uint64_t h = 0xcbf29ce484222325ull; bool dump = false; std::string text;
	void add(const void* p, std::size_t n) { const unsigned char* c = static_cast<const unsigned char*>(p); for (std::size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; } }
	void num(std::uint64_t v) { add(&v, 8); if (dump) { text += ' '; text += std::to_string(v); } }
	void str(const std::string& s) { num(s.size()); add(s.data(), s.size()); if (dump) { text += ' '; text += s; } }
};
inline std::uint64_t norm(double v) { if (v != v) return 1; std::uint64_t u; std::memcpy(&u, &v, 8); return u; }
inline std::uint64_t norm(float v) { if (v != v) return 1; std::uint32_t u; std::memcpy(&u, &v, 4); return u; }

// unit including only the printing header
void printing_unit(double d, float f, Out& o);
// unit including only the parsing header
void parsing_unit(const std::string& t, const std::wstring& w, Out& o);
// the same, from a unit including both
void printing_here(double d, float f, Out& o);
void parsing_here(const std::string& t, const std::wstring& w, Out& o);

template<typename C> std::string narrow(const std::basic_string<C>& s)
{
	std::string r; for (std::size_t i = 0; i < s.size(); ++i) r += std::uint32_t(s[i]) < 128 ? char(s[i]) : '?'; return r;
}

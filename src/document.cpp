// Monitor of C32: documents of many numbers. A writer prints values and copies
// foreign numbers one after another into one buffer, separators taking the place
// of the terminators; a reader walks through it with the pointer to the text
// being moved by the parser itself. The log of what was written is compared with
// the log of what was read: order, count, bits, extents. Tables of fixed fields
// are rewritten in random order and read again.
#include <floaxie/atof.h>
#include <floaxie/ftoa.h>
#include "gen.hpp"

using namespace vk;
u64 ref::oracle_disagreements = 0;

enum Kind : unsigned char { own_double, own_float, foreign, word };
struct Token { Kind kind; u64 bits; std::size_t at, len; };

template<typename C> std::string narrow(const C* b, const C* e) { std::string r; for (; b < e; ++b) r += u32(*b) < 256 ? char(*b) : '\x7f'; return r; }
template<typename C> const char* cname() { return sizeof(C) == 1 ? "" : " (wchar_t)"; }
template<typename C, typename T> std::string alone(T v)
{
	C b[96]; std::memset(static_cast<void*>(b), '#', sizeof b);
	const std::size_t n = floaxie::ftoa(v, b); std::size_t len = 0; while (len < 96 && b[len]) ++len;
	return n == len ? narrow(b, b + len) : "?";
}
template<typename C> Guarded& arena() { static Guarded g(sizeof(C) << 20); return g; }

static std::string around(const std::string& d, std::size_t at, std::size_t len = 40) { const std::size_t from = at > 20 ? at - 20 : 0; return "..." + show(d.substr(from, at - from), 60) + "[" + show(d.substr(at, len), 80) + "]..."; }

// one number at d[at], read in place
template<typename T, typename C> std::size_t read_one(Shard& s, const std::string& c, const std::string& d, C* base, std::size_t at, const char* how, T* out = nullptr)
{
	const ref::Expected<T> x = ref::expect<T>(d.c_str() + at);
	C* p = base + at;
	const auto r = floaxie::atof<T>(p, &p);
	if (out) *out = r.value;
	const std::size_t end = std::size_t(p - base);
	if (end != at + x.end) s.fail("extent", c, std::string(how) + cname<C>() + ": reading " + ref::tn<T>::name() + " at " + around(d, at, x.end + 4) + " took " + std::to_string(long(end) - long(at)) + " characters instead of " + std::to_string(x.end));
	else if (x.kind != ref::nothing && !ref::same(r.value, x.value)) s.fail("value", c, std::string(how) + cname<C>() + ": " + ref::tn<T>::name() + " at " + around(d, at, x.end) + " was read as " + ref::vshow(r.value) + " instead of " + ref::vshow(x.value));
	else if (int(r.status) != int(x.status)) s.fail("status", c, std::string(how) + cname<C>() + ": " + ref::tn<T>::name() + " at " + around(d, at, x.end) + " has status " + ref::status_name(int(r.status)));
	return x.end;
}

static const char* const g_seps[] = { ",", " ", "\n", "\t", ";", "]", ", ", "\r\n", "/", ":", "|", "\"", "}", ")", " , ", "x", "f", "=", "_", "," };
static const char* const g_words[] = { "null", "true", "x", "#", "-", "+", ".", "e5", "in", "na", "--1", "+-2", "-.", ".e1", "NULL", "\xff", "_1", "i", "n", "," };

template<typename C> void document(Shard& s, u64 seed)
{
	Rng r(seed);
	std::string c(reinterpret_cast<const char*>(&seed), 8); c += sizeof(C) == 1 ? 'n' : 'w'; s.begin(c);
	Guarded& g = arena<C>();
	const std::size_t room = g.size() / sizeof(C);
	const std::size_t n = 1 + r.below(r.chance(64) ? 6000 : r.chance(4) ? 400 : 40);
	const int style = int(r.below(5)); // 0, 1: any; 2: one separator; 3: signs separate; 4: terminated strings in a row
	const char* const one_sep = g_seps[r.below(20)];
	// the writer; filled from the front, the last number ends close to the guard page
	std::memset(g.front(), r.chance(2) ? '9' : r.chance(2) ? 0 : 0xff, std::min(g.size(), sizeof(C) * (n * 64 + 4096)));
	C* b = reinterpret_cast<C*>(g.front());
	std::string d; std::vector<Token> log; log.reserve(n);
	constexpr std::size_t M = std::max(floaxie::max_buffer_size<double>(), floaxie::max_buffer_size<float>());
	for (std::size_t i = 0; i < n; ++i)
	{
		Token t; t.at = d.size(); t.bits = 0;
		const u64 k = r.below(16);
		t.kind = k < 6 ? own_double : k < 11 ? own_float : k < 15 || style == 3 ? foreign : word;
		std::string text;
		if (t.kind == foreign)
		{
			do text = r.chance(12) ? std::string(r.chance(2) ? "-" : "") + (r.chance(2) ? "nan" : "Infinity") : r.chance(2) ? gen::sign(r) + gen::number<double>(r) : gen::sign(r) + gen::number<float>(r); while (text.size() > 2048 || (text.size() > 400 && !r.chance(8)));
			if (style == 3 && text[0] != '-' && text[0] != '+') text = "+" + text;
		}
		else if (t.kind == word) text = g_words[r.below(20)];
		if (d.size() + text.size() + M + 8 > room) break;
		if (t.kind == own_double || t.kind == own_float)
		{
			// style 3: a sign must tell the numbers apart
			std::string before;
			std::size_t len;
			if (t.kind == own_double)
			{
				const double v = gen::value<double>(r, true); t.bits = to_bits(v);
				if (style == 3 && i && (v == 0 || !std::signbit(v) || std::isnan(v))) { b[d.size()] = C('+'); d += '+'; t.at = d.size(); }
				text = alone<C>(v); len = floaxie::ftoa(v, b + t.at);
			}
			else
			{
				const float v = gen::value<float>(r, true); t.bits = to_bits(v);
				if (style == 3 && i && (v == 0 || !std::signbit(v) || std::isnan(v))) { b[d.size()] = C('+'); d += '+'; t.at = d.size(); }
				text = alone<C>(v); len = floaxie::ftoa(v, b + t.at);
			}
			const std::string here = narrow(b + t.at, b + t.at + std::min(len, M));
			if (len != text.size() || here != text) { s.fail("written", c, std::string("written as '") + here + "' (" + std::to_string(len) + " characters) after other text, but as '" + text + "' alone" + cname<C>()); return; }
			if (b[t.at + len] != C(0)) { s.fail("terminator", c, "'" + here + "' isn't terminated" + cname<C>()); return; }
			s.count("values_written");
		}
		else for (std::size_t j = 0; j < text.size(); ++j) b[t.at + j] = C((unsigned char)text[j]);
		t.len = text.size(); d += text; log.push_back(t);
		std::string sep = style == 2 ? one_sep : style == 4 ? std::string(1, '\0') : style == 3 ? "" : g_seps[r.below(20)];
		if (style == 4 && r.chance(8)) sep += '\0';
		for (char x : sep) { b[d.size()] = C((unsigned char)x); d += x; }
	}
	b[d.size()] = C(0);
	// nothing written before was changed by what was written later
	for (std::size_t i = 0; i < d.size(); ++i) if (b[i] != C((unsigned char)d[i])) { s.fail("overwritten", c, "after the whole document was written, at " + std::to_string(i) + ": " + around(d, i) + " became " + show(narrow(b + i, b + std::min(i + 40, d.size())), 80) + cname<C>()); return; }
	// put the document right before the guard page
	C* const q = reinterpret_cast<C*>(g.tail((d.size() + 1) * sizeof(C)));
	if (q != b) std::memmove(q, b, (d.size() + 1) * sizeof(C));
	b = q;
	// the reader, in order
	std::size_t at = 0, taken = 0;
	for (const Token& t : log)
	{
		at = t.at; // separators are skipped by the caller
		std::size_t len;
		if (t.kind == own_float)
		{
			float v; len = read_one<float>(s, c, d, b, at, "in order", &v); const float w = from_bits<float>(u32(t.bits));
			if (std::isnan(w) ? !std::isnan(v) : w == 0 ? v != 0 : to_bits(v) != to_bits(w)) s.fail("conserved", c, "float " + ref::vshow(w) + " was written, " + ref::vshow(v) + " was read at " + around(d, at, t.len) + cname<C>());
			if (len == t.len) ++taken;
		}
		else if (t.kind == own_double)
		{
			double v; len = read_one<double>(s, c, d, b, at, "in order", &v); const double w = from_bits<double>(t.bits);
			if (std::isnan(w) ? !std::isnan(v) : w == 0 ? v != 0 : to_bits(v) != to_bits(w)) s.fail("conserved", c, "double " + ref::vshow(w) + " was written, " + ref::vshow(v) + " was read at " + around(d, at, t.len) + cname<C>());
			if (len == t.len) ++taken;
		}
		else if (r.chance(2)) read_one<double>(s, c, d, b, at, "in order");
		else read_one<float>(s, c, d, b, at, "in order");
		s.count("read_in_order");
		if ((s.index & 3) == 0) s.tick();
	}
	s.evaluations += log.size();
	s.count("read_back_whole", taken);
	// a lexer: from one end to the other with no knowledge of the tokens
	std::size_t numbers = 0; long steps = 0;
	{
		C* p = b; std::size_t pos = 0;
		while (pos < d.size())
		{
			const ref::Expected<double> x = ref::expect<double>(d.c_str() + pos);
			C* const was = p;
			const auto v = floaxie::atof<double>(p, &p);
			if (p - was != long(x.end)) { s.fail("lexer", c, "walking through: " + around(d, pos, x.end + 4) + " took " + std::to_string(p - was) + " characters instead of " + std::to_string(x.end) + cname<C>()); return; }
			if (x.kind != ref::nothing && !ref::same(v.value, x.value)) { s.fail("lexer", c, "walking through: " + around(d, pos, x.end) + " was read as " + ref::vshow(v.value) + " instead of " + ref::vshow(x.value) + cname<C>()); return; }
			++steps;
			if (x.end) { ++numbers; pos += x.end; } else { ++pos; ++p; }
		}
	}
	s.count("lexed_numbers", numbers);
	// anywhere, in any order
	for (std::size_t k = 0; k < std::min<std::size_t>(n, 60); ++k)
	{
		const std::size_t pos = r.chance(2) && !log.empty() ? log[r.below(log.size())].at : r.below(d.size() + 1);
		if (r.chance(2)) read_one<double>(s, c, d, b, pos, "anywhere"); else read_one<float>(s, c, d, b, pos, "anywhere");
		s.count("read_anywhere");
	}
	// written anew from what was read, the document doesn't change any more
	if (r.chance(4))
	{
		std::basic_string<C> again, third;
		for (const Token& t : log)
		{
			if (t.kind == word) continue;
			if (t.kind == own_float)
			{
				C buf[M]; const auto v = floaxie::atof<float>(b + t.at, nullptr); const std::size_t k = floaxie::ftoa(v.value, buf);
				const auto w = floaxie::atof<float>(buf, nullptr); again.append(buf, k); third += floaxie::to_basic_string<float, C>(w.value);
			}
			else
			{
				C buf[M]; const auto v = floaxie::atof<double>(b + t.at, nullptr); const std::size_t k = floaxie::ftoa(v.value, buf);
				const auto w = floaxie::atof<double>(buf, nullptr); again.append(buf, k); third += floaxie::to_basic_string<double, C>(w.value);
			}
			again += C('\n'); third += C('\n');
		}
		if (again != third)
		{
			std::size_t i = 0; while (i < again.size() && i < third.size() && again[i] == third[i]) ++i;
			const std::string x = narrow(again.data(), again.data() + again.size()), y = narrow(third.data(), third.data() + third.size());
			s.fail("rewritten", c, "written anew from what was read: " + around(x, i) + ", and once more: " + (i < y.size() ? around(y, i) : std::string("end")) + cname<C>());
		}
		s.count("rewritten");
	}
	s.maximum("longest_document", d.size()); s.maximum("most_numbers", log.size());
	if (s.distinct(hash_bytes(d.data(), d.size()))) { s.count("documents"); s.count(style == 3 ? "separated_by_signs" : style == 4 ? "terminated_in_a_row" : style == 2 ? "one_separator" : "mixed_separators"); }
	if (s.rng.chance(40)) s.sample(show(d, 200));
}

// a table of adjacent fields of the documented size, rewritten in random order
template<typename T, typename C> void table(Shard& s, u64 seed)
{
	Rng r(seed ^ 0x7461626c65ULL);
	std::string c(reinterpret_cast<const char*>(&seed), 8); c += sizeof(C) == 1 ? (sizeof(T) == 8 ? 'd' : 'f') : (sizeof(T) == 8 ? 'D' : 'F'); s.begin(c);
	constexpr std::size_t M = floaxie::max_buffer_size<T>();
	Guarded& g = arena<C>();
	const std::size_t n = 1 + r.below(48);
	C* const b = reinterpret_cast<C*>(g.tail(n * M * sizeof(C)));
	std::vector<T> held(n, T(0)); std::vector<char> set(n, 0);
	std::vector<std::string> text(n);
	for (std::size_t i = 0; i < n * M; ++i) b[i] = C('8');
	const std::size_t writes = n * (2 + r.below(4));
	auto look = [&](std::size_t f, const char* when)
	{
		if (!set[f]) { for (std::size_t j = 0; j < M; ++j) if (b[f * M + j] != C('8')) { s.fail("field", c, "a field never written changed" + std::string(cname<C>())); return; } return; }
		const C* const p = b + f * M; std::size_t len = 0; while (len < M && p[len]) ++len;
		if (len == M || narrow(p, p + len) != text[f]) { s.fail("field", c, std::string(ref::tn<T>::name()) + " field holding '" + text[f] + "' is '" + narrow(p, p + len) + "' " + when + cname<C>()); return; }
		C* q = b + f * M; const auto v = floaxie::atof<T>(q, &q);
		if (std::isnan(held[f]) ? !std::isnan(v.value) : held[f] == 0 ? v.value != 0 : to_bits(v.value) != to_bits(held[f])) s.fail("field", c, std::string(ref::tn<T>::name()) + " " + ref::vshow(held[f]) + " in field '" + text[f] + "' was read as " + ref::vshow(v.value) + " " + when + cname<C>());
		else if (q != p + len) s.fail("field", c, "reading field '" + text[f] + "' took " + std::to_string(q - p) + " characters" + cname<C>());
		s.count("fields_read");
	};
	for (std::size_t k = 0; k < writes; ++k)
	{
		const std::size_t f = r.below(n);
		held[f] = gen::value<T>(r, true); set[f] = 1; text[f] = alone<C>(held[f]);
		floaxie::ftoa(held[f], b + f * M); s.count("fields_written");
		if (r.chance(4)) { look(r.below(n), "after another one was written"); }
		if (f) look(f - 1, "after the next one was written");
		if (f + 1 < n) look(f + 1, "after the previous one was written");
		++s.evaluations;
	}
	for (std::size_t f = 0; f < n; ++f) look(f, "in the end");
	s.distinct(mix(seed) ^ (sizeof(T) * 3 + sizeof(C)));
	s.count("tables");
}

static void both(Shard& s, u64 seed)
{
	document<char>(s, seed); document<wchar_t>(s, mix(seed) ^ 1);
	switch (seed & 3) { case 0: table<double, char>(s, seed); break; case 1: table<float, char>(s, seed); break; case 2: table<double, wchar_t>(s, seed); break; default: table<float, wchar_t>(s, seed); }
}

int main(int argc, char** argv)
{
	parse_args(argc, argv);
	Program p; p.shards = 512;
	const u64 n = std::max<u64>(2, u64((opt().thorough ? 4000 : 200) * opt().scale));
	p.shard = [=](Shard& s) { for (u64 i = 0; i < n && !s.stopped(); ++i) both(s, s.rng()); };
	p.one = [](const std::string& c, Shard& s)
	{
		if (c.size() < 9) return;
		u64 seed; std::memcpy(&seed, c.data(), 8);
		for (int k = 0; k < 3; ++k) switch (c[8])
		{
		case 'n': document<char>(s, seed); break;
		case 'w': document<wchar_t>(s, seed); break;
		case 'd': table<double, char>(s, seed); break;
		case 'f': table<float, char>(s, seed); break;
		case 'D': table<double, wchar_t>(s, seed); break;
		case 'F': table<float, wchar_t>(s, seed); break;
		}
	};
	return run(argc, argv, p);
}

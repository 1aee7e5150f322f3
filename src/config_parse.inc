template<typename T, typename C> static void parse_one(const std::basic_string<C>& s, Out& o)
{
	C* e = nullptr;
	{ const auto r = floaxie::atof<T>(s.c_str(), &e); o.num(norm(r.value)); o.num(std::uint64_t(int(r.status))); o.num(std::uint64_t(e - s.c_str())); }
	{ const auto r = floaxie::atof<T>(s.c_str(), nullptr); o.num(norm(r.value)); o.num(std::uint64_t(int(r.status))); }
	{ const auto r = floaxie::from_string<T>(s); o.num(norm(r.value)); o.num(std::uint64_t(int(r.status))); }
	{ const auto r = floaxie::atof<T>(s.c_str(), &e, floaxie::default_fallback<T, C>); o.num(norm(T(r))); o.num(std::uint64_t(int(r.status))); o.num(std::uint64_t(e - s.c_str())); }
}
static void parse_all(const std::string& t, const std::wstring& w, Out& o)
{
	parse_one<double>(t, o); parse_one<float>(t, o); parse_one<double>(w, o); parse_one<float>(w, o);
}

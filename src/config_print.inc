template<typename T, typename C> static void print_one(T v, Out& o)
{
	C b[64]; for (int i = 0; i < 64; ++i) b[i] = C('#');
	o.num(floaxie::ftoa(v, b)); b[63] = 0; o.str(narrow<C>(b));
}
template<typename T> static void print_all(T v, Out& o)
{
	o.num(floaxie::max_buffer_size<T>());
	print_one<T, char>(v, o); print_one<T, wchar_t>(v, o); print_one<T, char16_t>(v, o); print_one<T, char32_t>(v, o);
	o.str(floaxie::to_string(v)); o.str(narrow(floaxie::to_wstring(v))); o.str(narrow(floaxie::to_u16string(v))); o.str(narrow(floaxie::to_u32string(v)));
	o.str(floaxie::to_basic_string<T, char>(v));
}

#include <floaxie/atof.h>
#include <floaxie/ftoa.h>
#include "config_common.hpp"
#include "config_print.inc"
#include "config_parse.inc"
void printing_here(double d, float f, Out& o) { print_all(d, o); print_all(f, o); }
void parsing_here(const std::string& t, const std::wstring& w, Out& o) { parse_all(t, w, o); }

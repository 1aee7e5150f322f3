#include <floaxie/atof.h>
#include "config_common.hpp"
#include "config_parse.inc"
void parsing_unit(const std::string& t, const std::wstring& w, Out& o) { parse_all(t, w, o); }

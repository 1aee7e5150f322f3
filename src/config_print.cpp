#include <floaxie/ftoa.h>
#include "config_common.hpp"
#include "config_print.inc"
void printing_unit(double d, float f, Out& o) { print_all(d, o); print_all(f, o); }

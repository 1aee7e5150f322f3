// C21: a public header included first and alone, twice
#include HEADER
#include HEADER
int header_alone() { return 0; }

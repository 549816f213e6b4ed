// K03 with the address sanitizer
#define K03A 1
#include "k03.cc"

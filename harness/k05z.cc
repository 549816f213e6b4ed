#define K05Z 1
#include "k05.cc"

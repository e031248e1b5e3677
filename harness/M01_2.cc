#define PART2
#include "M01.cc"

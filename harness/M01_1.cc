#define PART1
#include "M01.cc"

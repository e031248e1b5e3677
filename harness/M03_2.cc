#define PART2
#include "M03.cc"

#define PART1
#include "M03.cc"

#define PART3
#include "M01.cc"

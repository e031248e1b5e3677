#define PART3
#include "M03.cc"

#define D01_ACTION 2
#define D01_ON 1
#include "D01.h"

#define D01_ACTION 2
#define D01_ON 0
#include "D01.h"

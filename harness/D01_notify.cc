#define D01_ACTION 1
#define D01_ON 1
#include "D01.h"

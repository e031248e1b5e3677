#include "A02.h"
VP_INST("long_cpp", 300, a02::property<long, at::cpp, long>);
VP_INST("uchar_strong_pun", 200, a02::property<unsigned char, at::strong::pun, int>);

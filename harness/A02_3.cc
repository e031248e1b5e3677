#include "A02.h"
VP_INST("unsigned_lock", 300, a02::property<unsigned, at::lock, unsigned>);
VP_INST("longlong_serial", 300, a02::property<long long, at::serial, int>);

#include "A02.h"
VP_INST("double_strong", 300, a02::property<double, at::strong, double>);
VP_INST("float_weak_pun_int", 200, a02::property<float, at::weak::pun, int>);
VP_INST("longdouble_weak", 200, a02::property<long double, at::weak, double>);

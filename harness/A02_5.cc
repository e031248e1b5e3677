#include "A02.h"
VP_INST("pointer_cpp", 300, a02::property<int *, at::cpp, std::ptrdiff_t>);
VP_INST("pointer_strong", 200, a02::property<int *, at::strong, int>);
VP_INST("double_lock", 200, a02::property<double, at::lock, int>);

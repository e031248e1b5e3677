#include "A02.h"
VP_INST("int_strong", 300, a02::property<int, at::strong, int>);
VP_INST("short_weak", 200, a02::property<short, at::weak, int>);
VP_INST("int_weak_longlong", 200, a02::property<int, at::weak, long long>);

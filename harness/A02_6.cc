#include "A02.h"
VP_INST("user_strong", 300, a02::property<a02::User, at::strong, a02::By>);
VP_INST("user_lock", 200, a02::property<a02::User, at::lock, a02::By>);
VP_INST("user_weak_pun", 200, a02::property<a02::User, at::weak::pun, a02::By>);

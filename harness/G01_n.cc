// G01, second unit: the free normals of geometry/normal.h
#include "vp.h"
#include "ristra/math/vector.h"
#include "ristra/geometry/normal.h"
namespace rg = ristra::geometry;
namespace rm = ristra::math;
VP_PROP(normal_of_points, 800) {
  const double u = *vp::scale();
  auto a = vp::times(u, *vp::vec<double>(3, vp::dyadic(1 << 12, 64)));
  auto b = vp::times(u, *vp::vec<double>(3, vp::dyadic(1 << 12, 64)));
  VP_CASE(a != b, "a=" << vp::str(a) << " b=" << vp::str(b));
  vp::run([&] {
    rm::vector<double, 2> p{a[0], a[1]}, q{b[0], b[1]};
    auto n = rg::normal(p, q);
    VP_EQ(n[0], a[1] - b[1], "2D normal x");
    VP_EQ(n[1], b[0] - a[0], "2D normal y");
    rm::vector<double, 3> x{a[0], a[1], a[2]}, y{b[0], b[1], b[2]};
    auto m = rg::normal(x, y);
    VP_EQ(m[0], a[1] * b[2] - a[2] * b[1], "3D normal x");
    VP_EQ(m[1], a[2] * b[0] - a[0] * b[2], "3D normal y");
    VP_EQ(m[2], a[0] * b[1] - a[1] * b[0], "3D normal z");
  });
}

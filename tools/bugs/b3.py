H = '#include <cstdio>\n#include <cmath>\n#include <vector>\n#include <string>\n#include <iostream>\n'
EL = dict(flags="-I_build/main", libs="ristra/elements/elements.cc")
BUGS = [
dict(id="m03-exp-norm", property="M03",
  edits=[("ristra/math/matrix.h",
          "    T mat_norm            = infinity_norm( mat );",
          "    T mat_norm            = std::abs( trace_matrix( mat ) );")],
  needs="a matrix whose off-diagonal entries are much larger than its trace",
  breaks="the exponential of such a matrix is not scaled down far enough and is inaccurate",
  demo=H + '''#include "ristra/math/matrix.h"
using namespace ristra::math;
int main() {
  matrix<double, 2, 2> a(0);
  a(0, 1) = 5;
  a(1, 0) = 5;
  auto e = exponential(a);
  return std::abs(e(0, 0) - std::cosh(5.0)) < 1e-8 && std::abs(e(0, 1) - std::sinh(5.0)) < 1e-8 ? 0 : 1;
}
'''),
dict(id="g03-volume-fan", property="G03",
  edits=[("ristra/geometry/shapes/polyhedron.h",
          """      // face midpoint
      auto xm = math::average( points );

      // for each face edge
      auto po = std::prev( points.end() );
      for ( auto pn=points.begin(); pn!=points.end(); pn++ ) {
        // get normal
        auto n = triangle<3>::normal( *po, *pn, xm );
        // dot with any coordinate""",
          """      // any point of the face
      const auto & xm = points.front();

      // for each face edge
      auto po = std::prev( points.end() );
      for ( auto pn=points.begin(); pn!=points.end(); pn++ ) {
        // get normal
        auto n = triangle<3>::normal( *po, *pn, xm );
        // dot with any coordinate""")],
  needs="a polyhedron with a face that is not planar",
  breaks="the volume is that of another body than the faces describe for the centroid and the hexahedron",
  demo=H + '''#include "ristra/math/vector.h"
#include "ristra/geometry/shapes/polyhedron.h"
using P = ristra::math::vector<double, 3>;
int main() {
  // a cube whose top is warped; starting a face elsewhere changes nothing
  P v[8] = {{0., 0., 0.}, {1., 0., 0.}, {1., 1., 0.}, {0., 1., 0.}, {0., 0., 1.}, {1., 0., 1.}, {1., 1., 2.}, {0., 1., 1.}};
  int f[6][4] = {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}};
  double vol[4];
  for(int s = 0; s < 4; ++s) {
    ristra::geometry::shapes::polyhedron<P> h;
    for(auto & q : f) {
      std::vector<P> pts;
      for(int k = 0; k < 4; ++k)
        pts.push_back(v[q[(k + s) % 4]]);
      h.insert(pts.begin(), pts.end());
    }
    vol[s] = h.volume();
  }
  return std::abs(vol[0] - vol[1]) < 1e-12 && std::abs(vol[0] - vol[2]) < 1e-12 && std::abs(vol[0] - 1.25) < 1e-12 ? 0 : 1;
}
'''),
dict(id="m04-scalar-type", property="M04",
  edits=[("ristra/math/tuple.h", "                           tup = tup * rhs;", "                           tup *= static_cast< std::decay_t<decltype(tup)> >( rhs );")],
  needs="multiplies_equal of a tuple with an integer component by a fractional number",
  breaks="integer components are multiplied by the truncated factor",
  demo=H + '''#include "ristra/math/array.h"
#include "ristra/math/tuple.h"
using namespace ristra::math;
int main() {
  std::tuple<int, double> t(4, 4.0);
  multiplies_equal(t, 2.5);
  return std::get<0>(t) == 10 && std::get<1>(t) == 10.0 ? 0 : 1;
}
'''),
dict(id="g01-divide", property="G01",
  edits=[("ristra/utils/dimensioned_array.h",
          "    dimensioned_array__ tmp(*this);\n    tmp /= val;\n",
          "    dimensioned_array__ tmp(*this);\n    tmp *= TYPE(1) / val;\n")],
  needs="dividing a vector with integer components by a number",
  breaks="the quotient is zero instead of the componentwise one",
  demo=H + '''#include "ristra/geometry/point.h"
#include "ristra/geometry/space_vector.h"
int main() {
  ristra::geometry::space_vector<int, 3> v{9, 6, 3};
  auto q = v / 3;
  return q[0] == 3 && q[1] == 2 && q[2] == 1 ? 0 : 1;
}
'''),
dict(id="e02-digit", property="E02",
  edits=[("ristra/elements/elements.cc", "   g7[1] = -0.7415311855993945;", "   g7[1] = -0.7415311859593945;")],
  needs="the seven-point Gauss rule and an integrand of high degree, or a close look at its points",
  breaks="a point of the seven-point rule is off in its tenth digit, so the rule is no longer exact to rounding",
  demo=H + '''#include "ristra/elements/elements.h"
int main() {
  double s = 0;
  for(int i = 1; i <= 7; ++i) {
    double x, w;
    int m = i, p = 7;
    ristra::elements::LineGaussRuleInfo(x, w, m, p);
    s += w * std::pow(x, 12);
  }
  return std::abs(s - 2.0 / 13) < 1e-14 ? 0 : 1;
}
''', **EL),
dict(id="e03-det4", property="E03",
  edits=[("ristra/elements/elements.cc",
          "          - J_matrix[0][2] * J_matrix[1][0] * J_matrix[2][3] * J_matrix[3][1] \n",
          "          - J_matrix[0][2] * J_matrix[1][0] * J_matrix[2][1] * J_matrix[3][3] \n")],
  needs="a four-dimensional mapping that mixes all directions",
  breaks="one term of the determinant of the 4D jacobian is wrong",
  demo=H + '''#include "ristra/elements/elements.h"
int main() {
  using VV = std::vector<std::vector<double>>;
  // one node per row and partials that pick it out: J is the vertex matrix
  VV v{{0, 0, 1, 0}, {1, 0, 0, 0}, {0, 0, 0, 1}, {0, 1, 0, 0}}, p(4, std::vector<double>(4, 0)), j(4, std::vector<double>(4));
  for(int i = 0; i < 4; ++i) p[i][i] = 1;
  double d = 0;
  int n = 4, dim = 4;
  ristra::elements::jacobian4D(j, d, v, p, n, dim);
  return std::abs(d - (-1)) < 1e-12 ? 0 : 1;
}
''', **EL),
]

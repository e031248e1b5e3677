// G03: solids - volume, centroid and midpoint of tetrahedra, hexahedra, polyhedra.
#include "vp.h"
#include <array>
#include <cassert>
#include <iostream>
#include "ristra/geometry/shapes/hexahedron.h"
#include "ristra/geometry/shapes/polyhedron.h"
#include "ristra/geometry/shapes/tetrahedron.h"
#include "ristra/math/vector.h"
namespace sh = ristra::geometry::shapes;
namespace rm = ristra::math;
using LD = long double;

namespace {
using P = rm::vector<double, 3>;
using V = std::array<LD, 3>;
V operator+(V a, V b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
V operator-(V a, V b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
V operator*(LD s, V a) { return {s * a[0], s * a[1], s * a[2]}; }
V cross(V a, V b) {
  return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
LD dot(V a, V b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
V lift(const P & p) { return {p[0], p[1], p[2]}; }
constexpr double eps = std::numeric_limits<double>::epsilon();
std::string show(const std::vector<P> & v) {
  std::ostringstream os;
  os << std::setprecision(17);
  for(auto & p : v)
    os << '(' << p[0] << ',' << p[1] << ',' << p[2] << ") ";
  return os.str();
}
void near3(const P & got, V want, double tol, const char * what) {
  for(int d = 0; d < 3; ++d)
    VP_NEAR(got[d], double(want[d]), tol, what << " component " << d);
}
// Faces fanned about their vertex average; signed tetrahedra from a fixed apex.
struct Solid {
  LD vol = 0, S = 0;
  V c{0, 0, 0}, facemid{0, 0, 0};
  Solid(const std::vector<P> & pts, const std::vector<std::vector<int>> & faces) {
    V apex = lift(pts[0]), m{0, 0, 0};
    for(auto & q : pts)
      for(int d = 0; d < 3; ++d)
        S = std::max(S, std::abs(LD(q[d])));
    for(auto & f : faces) {
      V xm{0, 0, 0};
      for(int i : f)
        xm = xm + (LD(1) / f.size()) * lift(pts[i]);
      facemid = facemid + (LD(1) / faces.size()) * xm;
      for(std::size_t k = 0; k < f.size(); ++k) {
        V a = lift(pts[f[k]]), b = lift(pts[f[(k + 1) % f.size()]]);
        LD v = dot(a - apex, cross(b - apex, xm - apex)) / 6;
        vol += v;
        m = m + (v / 4) * (a + b + xm + apex);
      }
    }
    c = (1 / vol) * m;
  }
};
const std::vector<std::vector<int>> hexfaces = {{0, 1, 2, 3}, {4, 7, 6, 5}, {0, 4, 5, 1},
  {1, 5, 6, 2}, {2, 6, 7, 3}, {3, 7, 4, 0}};
rc::Gen<std::vector<double>> offset() {
  return rc::gen::oneOf(rc::gen::just(std::vector<double>{0, 0, 0}),
    vp::vec<double>(3, vp::dyadic(4000, 8)));
}
double unit = 1; // of length, drawn per case
P mk(double x, double y, double z) { x *= unit; y *= unit; z *= unit; P p; p[0] = x; p[1] = y; p[2] = z; return p; }
// a hexahedron in the library's vertex order: affine image of a perturbed cube
std::vector<P> hexa() {
  unit = *vp::scale();
  auto A = *vp::vec<int>(9, vp::range(-8, 8));
  auto off = *offset();
  int amp = *rc::gen::element(0, 8, 17, 24);
  auto jit = *vp::vec<int>(24, vp::range(-amp, amp));
  vp::tag("distortion " + std::to_string(amp) + "/32");
  bool distort = true;
  static const int c[8][3] = {{0, 0, 0}, {0, 1, 0}, {1, 1, 0}, {1, 0, 0}, {0, 0, 1}, {0, 1, 1},
    {1, 1, 1}, {1, 0, 1}};
  std::vector<P> p;
  for(int i = 0; i < 8; ++i) {
    double x[3];
    for(int d = 0; d < 3; ++d) {
      x[d] = off[d];
      for(int k = 0; k < 3; ++k)
        x[d] += A[3 * d + k] / 4. * (c[i][k] * 32 + (distort ? jit[3 * i + k] : 0)) / 32.;
    }
    p.push_back(mk(x[0], x[1], x[2]));
  }
  return p;
}
} // namespace

VP_PROP(tetrahedron, 2500) {
  unit = *vp::scale();
  auto c = *vp::vec<double>(12, rc::gen::oneOf(vp::dyadic(256, 8), vp::dyadic(4, 1)));
  auto off = *offset();
  std::vector<P> p;
  for(int i = 0; i < 4; ++i)
    p.push_back(mk(c[3 * i] + off[0], c[3 * i + 1] + off[1], c[3 * i + 2] + off[2]));
  V a = lift(p[1]) - lift(p[0]), b = lift(p[2]) - lift(p[0]), d = lift(p[3]) - lift(p[0]);
  LD v = std::abs(dot(a, cross(b, d))) / 6;
  LD S = 0;
  for(auto & q : p)
    for(int k = 0; k < 3; ++k)
      S = std::max(S, std::abs(LD(q[k])));
  VP_CASE(v > 0, show(p));
  double tv = 16 * 24 * eps * double(S * S * S);
  vp::run([&] {
    VP_NEAR(sh::tetrahedron::volume(p[0], p[1], p[2], p[3]), double(v), tv, "tetrahedron::volume");
    V m = LD(0.25) * (lift(p[0]) + lift(p[1]) + lift(p[2]) + lift(p[3]));
    near3(sh::tetrahedron::midpoint(p[0], p[1], p[2], p[3]), m, 8 * eps * double(S), "tetrahedron::midpoint");
    near3(sh::tetrahedron::centroid(p[0], p[1], p[2], p[3]), m, 8 * eps * double(S), "tetrahedron::centroid");
    VP_NEAR(sh::tetrahedron::volume(p[2], p[0], p[3], p[1]), double(v), tv, "volume of the relabelled tetrahedron");
    sh::polyhedron<P> h;
    h.insert({p[0], p[2], p[1]});
    h.insert({p[0], p[1], p[3]});
    h.insert({p[1], p[2], p[3]});
    h.insert({p[0], p[3], p[2]});
    VP_NEAR(h.volume(), double(v), tv, "volume of the tetrahedron as a polyhedron");
    if(v > 1e4 * tv)
      near3(h.centroid(), m, tv * double(S) * 8 / double(v), "centroid of the tetrahedron as a polyhedron");
  });
}

VP_PROP(hexahedron, 4000) {
  auto p = hexa();
  Solid r(p, hexfaces);
  double S = double(r.S), v = double(std::abs(r.vol));
  double tv = 1000 * eps * S * S * S;
  bool has_c = v > 1e4 * tv;
  VP_CASE(has_c, show(p));
  if(!has_c)
    vp::tag("degenerate");
  vp::run([&] {
    VP_NEAR(sh::hexahedron::volume(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]), v, tv, "hexahedron::volume");
    // a mirror image and a relabelling have the same volume
    VP_NEAR(sh::hexahedron::volume(p[4], p[5], p[6], p[7], p[0], p[1], p[2], p[3]), v, tv, "volume of the mirrored hexahedron");
    VP_NEAR(sh::hexahedron::volume(p[1], p[2], p[3], p[0], p[5], p[6], p[7], p[4]), v, tv, "volume of the turned hexahedron");
    V m{0, 0, 0};
    for(auto & q : p)
      m = m + LD(0.125) * lift(q);
    near3(sh::hexahedron::midpoint(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]), m, 16 * eps * S, "hexahedron::midpoint");
    sh::polyhedron<P> h;
    for(auto & f : hexfaces)
      h.insert({p[f[0]], p[f[1]], p[f[2]], p[f[3]]});
    VP_NEAR(h.volume(), v, tv, "volume of the hexahedron as a polyhedron");
    near3(h.midpoint(), r.facemid, 32 * eps * S, "polyhedron::midpoint");
    near3(sh::polyhedron<P>::midpoint(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]), m, 32 * eps * S, "polyhedron::midpoint(vertices)");
    if(has_c) {
      double tc = 8 * tv * S / v;
      near3(sh::hexahedron::centroid(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]), r.c, tc, "hexahedron::centroid");
      near3(h.centroid(), r.c, tc, "centroid of the hexahedron as a polyhedron");
    }
  });
}

// A prism over an n-gon base: polyhedron with faces of different sizes.
template<int LO, int HI>
void prism() {
  unit = *vp::scale();
  auto n = *vp::range(LO, HI);
  auto base = *vp::vec<double>(2 * n, vp::dyadic(128, 8));
  auto h = *vp::dyadic(64, 4);
  auto sx = *vp::dyadic(64, 8);
  auto sy = *vp::dyadic(64, 8);
  auto off = *offset();
  auto way = *vp::range(0, 2);
  std::vector<P> p;
  for(int lvl = 0; lvl < 2; ++lvl)
    for(int i = 0; i < n; ++i)
      p.push_back(mk(base[2 * i] + lvl * sx + off[0], base[2 * i + 1] + lvl * sy + off[1], lvl * h + off[2]));
  std::vector<std::vector<int>> faces;
  std::vector<int> bot, top;
  for(int i = 0; i < n; ++i) {
    bot.push_back(n - 1 - i);
    top.push_back(n + i);
    faces.push_back({i, (i + 1) % n, n + (i + 1) % n, n + i});
  }
  faces.push_back(bot);
  faces.push_back(top);
  if(*vp::coin()) // orientation of the whole surface does not matter
    for(auto & f : faces)
      std::reverse(f.begin(), f.end());
  Solid r(p, faces);
  LD a = 0;
  for(int i = 0; i < n; ++i)
    a += (LD(base[2 * i]) * base[2 * ((i + 1) % n) + 1] - LD(base[2 * ((i + 1) % n)]) * base[2 * i + 1]) / 2;
  double S = double(r.S), v = double(std::abs(a * h)) * unit * unit * unit;
  double tv = 1000 * n * eps * S * S * S;
  bool has_c = v > 1e4 * tv;
  VP_CASE(has_c && n > 3, "n=" << n << " " << show(n > 8 ? std::vector<P>(p.begin(), p.begin() + 4) : p));
  vp::run([&] {
    sh::polyhedron<P> s;
    for(auto & f : faces) {
      std::vector<P> q;
      for(int i : f)
        q.push_back(p[i]);
      if(way == 0)
        s.insert(q.begin(), q.end());
      else if(way == 1)
        s.insert(ristra::utils::array_ref<P>(q));
      else {
        const P * b = q.data();
        s.insert(b, b + q.size());
      }
    }
    VP_NEAR(s.volume(), v, tv, "polyhedron::volume (base area times height)");
    near3(s.midpoint(), r.facemid, (64 + 8 * n) * eps * S, "polyhedron::midpoint");
    if(has_c)
      near3(s.centroid(), r.c, 8 * tv * S / v, "polyhedron::centroid");
  });
}
VP_INST("prism", 2000, prism<3, 7>);
VP_INST("prism_many", 40, prism<8, 400>);

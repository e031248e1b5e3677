// G02: planar shapes - area, centroid, midpoint and normal in 2D and 3D.
#include "vp.h"
#include <array>
#include <cassert>
#include <iostream>
#include <list>
#include <deque>
#include "ristra/geometry/area.h"
#include "ristra/geometry/centroid.h"
#include "ristra/geometry/shapes/polygon.h"
#include "ristra/geometry/shapes/quadrilateral.h"
#include "ristra/geometry/shapes/triangle.h"
#include "ristra/math/vector.h"
namespace rg = ristra::geometry;
namespace sh = ristra::geometry::shapes;
namespace rm = ristra::math;
using LD = long double;

namespace {
template<class T, std::size_t N>
using P = rm::vector<T, N>;
using V = std::array<LD, 3>;
V operator+(V a, V b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
V operator-(V a, V b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
V operator*(LD s, V a) { return {s * a[0], s * a[1], s * a[2]}; }
V cross(V a, V b) {
  return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
LD len(V a) { return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
template<class Pt>
V lift(const Pt & p) {
  V v{0, 0, 0};
  for(std::size_t i = 0; i < p.size(); ++i)
    v[i] = p[i];
  return v;
}
// One coordinate pair (x,y) in [-64,64] in steps of 1/8, plus a common offset.
struct Pair {
  int x, y, z;
};
std::ostream & operator<<(std::ostream & os, const Pair & p) {
  return os << '(' << p.x / 8. << ',' << p.y / 8. << ',' << p.z / 8. << ')';
}
rc::Gen<Pair> pairs(int m) {
  return rc::gen::apply([](int x, int y, int z) { return Pair{x, y, z}; }, vp::range(-m, m),
    vp::range(-m, m), vp::range(-m, m));
}
rc::Gen<std::vector<Pair>> vertices(int lo, int hi) {
  auto any = rc::gen::oneOf(vp::vec<Pair>(lo, hi, rc::gen::oneOf(pairs(512), pairs(24))),
    vp::vec<Pair>(lo, hi, pairs(3))); // axis-aligned, collinear and repeated vertices
  return rc::gen::map(rc::gen::pair(any, vp::range(0, 9)), [](std::pair<std::vector<Pair>, int> q) {
    if(q.second == 0) // a vertex twice in a row
      q.first[1] = q.first[0];
    if(q.second == 1) // closed explicitly
      q.first.back() = q.first.front();
    return q.first;
  });
}
std::string brief(const std::vector<Pair> & v) {
  if(v.size() <= 12)
    return vp::str(v);
  return std::to_string(v.size()) + " vertices from " + vp::str(v[0]) + " " + vp::str(v[1]) + " to " + vp::str(v.back());
}

// references: fan of signed triangles about the first vertex, long double
struct Ref2 {
  LD area = 0;
  V c{0, 0, 0}, mid{0, 0, 0};
  LD S = 0;
  template<class L>
  Ref2(const L & pts) {
    std::vector<V> p;
    for(auto & q : pts)
      p.push_back(lift(q));
    for(auto & v : p) {
      mid = mid + (LD(1) / p.size()) * v;
      S = std::max(S, std::max(std::abs(v[0]), std::abs(v[1])));
    }
    V m{0, 0, 0};
    for(std::size_t i = 1; i + 1 < p.size(); ++i) {
      LD a = cross(p[i] - p[0], p[i + 1] - p[0])[2] / 2;
      area += a;
      m = m + (a / 3) * (p[0] + p[i] + p[i + 1]);
    }
    c = (1 / area) * m;
  }
};
template<class T>
double eps() { return std::numeric_limits<T>::epsilon(); }

template<class T, class Pt>
void near2(const Pt & got, V want, double tol, const char * what) {
  for(std::size_t d = 0; d < got.size(); ++d)
    VP_NEAR(got[d], double(want[d]), tol, what << " component " << d);
}

template<class T, std::size_t N>
std::vector<P<T, N>> points(const std::vector<Pair> & v, Pair off, double u = 1) {
  std::vector<P<T, N>> r;
  for(auto & q : v) {
    P<T, N> p;
    p[0] = T(u * (q.x + off.x) / 8);
    p[1] = T(u * (q.y + off.y) / 8);
    if constexpr(N == 3)
      p[2] = T(u * (q.z + off.z) / 8);
    r.push_back(p);
  }
  return r;
}
} // namespace

template<class T, int LO = 3, int HI = 9>
void poly2d() {
  auto v = *vertices(LO, HI);
  auto off = *pairs(*vp::coin() ? 0 : (std::is_same_v<T, float> ? 40 : 4000));
  const double u = std::is_same_v<T, double> ? *vp::scale() : *vp::scale(14);
  VP_CASE(v.size() > 3, "unit=" << u << " off=" << off << " v=" << brief(v));
  auto p = points<T, 2>(v, off, u);
  Ref2 r(p);
  double A = double(std::abs(r.area)), S = double(r.S), n = double(v.size()), e = eps<T>();
  double ta = 8 * n * e * S * S, tm = 4 * n * e * S;
  bool has_c = A > 64 * n * e * S * S;
  double tc = has_c ? 64 * n * e * S * S * S / A : 0;
  if(!has_c)
    vp::tag("degenerate");
  vp::run([&] {
    std::list<P<T, 2>> l(p.begin(), p.end());
    std::deque<P<T, 2>> q(p.begin(), p.end());
    using G = sh::polygon<2>;
    VP_NEAR(G::area(p), A, ta, "polygon<2>::area(vector)");
    VP_NEAR(G::area(l), A, ta, "polygon<2>::area(list)");
    VP_NEAR(G::area(q.begin(), q.end()), A, ta, "polygon<2>::area(iterators)");
    VP_NEAR(rg::area(p), A, ta, "area(vector)");
    VP_NEAR(rg::area_2d(q), A, ta, "area_2d(deque)");
    near2<T>(G::normal(p), V{0, r.area, 0}, ta, "polygon<2>::normal(vector)");
    near2<T>(G::normal(l.begin(), l.end()), V{0, r.area, 0}, ta, "polygon<2>::normal(iterators)");
    near2<T>(G::midpoint(p), r.mid, tm, "polygon<2>::midpoint(vector)");
    near2<T>(G::midpoint(l), r.mid, tm, "polygon<2>::midpoint(list)");
    near2<T>(G::midpoint(p.begin(), p.end()), r.mid, tm, "polygon<2>::midpoint(iterators)");
    if(has_c) {
      near2<T>(G::centroid(p), r.c, tc, "polygon<2>::centroid(vector)");
      near2<T>(G::centroid(l), r.c, tc, "polygon<2>::centroid(list)");
      near2<T>(G::centroid(q.begin(), q.end()), r.c, tc, "polygon<2>::centroid(iterators)");
      near2<T>(rg::centroid(p), r.c, tc, "centroid(vector)");
      near2<T>(rg::centroid_2d(q), r.c, tc, "centroid_2d(deque)");
    }
    if(p.size() == 3) {
      using R = sh::triangle<2>;
      VP_NEAR(R::area(p[0], p[1], p[2]), A, ta, "triangle<2>::area");
      VP_NEAR(G::area(p[0], p[1], p[2]), A, ta, "polygon<2>::area(3)");
      near2<T>(R::normal(p[0], p[1], p[2]), V{0, r.area, 0}, ta, "triangle<2>::normal");
      near2<T>(R::midpoint(p[0], p[1], p[2]), r.mid, tm, "triangle<2>::midpoint");
      near2<T>(R::centroid(p[0], p[1], p[2]), r.mid, tm, "triangle<2>::centroid");
      near2<T>(G::midpoint(p[0], p[1], p[2]), r.mid, tm, "polygon<2>::midpoint(3)");
      if(has_c)
        near2<T>(G::centroid(p[0], p[1], p[2]), r.c, tc, "polygon<2>::centroid(3)");
    }
    if(p.size() == 4) {
      using R = sh::quadrilateral<2>;
      VP_NEAR(R::area(p[0], p[1], p[2], p[3]), A, ta, "quadrilateral<2>::area");
      VP_NEAR(R::area(p), A, ta, "quadrilateral<2>::area(vector)");
      VP_NEAR(rg::area(p[0], p[1], p[2], p[3]), A, ta, "area(4)");
      near2<T>(R::normal(p[0], p[1], p[2], p[3]), V{0, r.area, 0}, ta, "quadrilateral<2>::normal");
      near2<T>(R::midpoint(p[0], p[1], p[2], p[3]), r.mid, tm, "quadrilateral<2>::midpoint");
      if(has_c) {
        near2<T>(R::centroid(p[0], p[1], p[2], p[3]), r.c, tc, "quadrilateral<2>::centroid");
        near2<T>(rg::centroid(p[0], p[1], p[2], p[3]), r.c, tc, "centroid(4)");
      }
    }
    if(p.size() == 6) {
      VP_NEAR(G::area(p[0], p[1], p[2], p[3], p[4], p[5]), A, ta, "polygon<2>::area(6)");
      VP_NEAR(rg::area(p[0], p[1], p[2], p[3], p[4], p[5]), A, ta, "area(6)");
      near2<T>(G::normal(p[0], p[1], p[2], p[3], p[4], p[5]), V{0, r.area, 0}, ta, "polygon<2>::normal(6)");
      near2<T>(G::midpoint(p[0], p[1], p[2], p[3], p[4], p[5]), r.mid, tm, "polygon<2>::midpoint(6)");
      if(has_c) {
        near2<T>(G::centroid(p[0], p[1], p[2], p[3], p[4], p[5]), r.c, tc, "polygon<2>::centroid(6)");
        near2<T>(rg::centroid(p[0], p[1], p[2], p[3], p[4], p[5]), r.c, tc, "centroid(6)");
      }
    }
    // inputs are not modified
    auto p2 = points<T, 2>(v, off, u);
    for(std::size_t i = 0; i < p.size(); ++i)
      VP_ASSERT(p[i][0] == p2[i][0] && p[i][1] == p2[i][1], "vertex " << i << " was modified");
  });
}
VP_INST("poly2d_d", 2500, poly2d<double>);
VP_INST("poly2d_f", 800, poly2d<float>);
VP_INST("poly2d_many", 60, poly2d<double, 10, 700>);

// Metamorphic: the start vertex does not matter, reversal flips the normal.
VP_PROP(poly2d_relations, 1000) {
  auto v = *vertices(3, 8);
  auto k = *vp::range<int>(1, int(v.size()) - 1);
  const double u = *vp::scale();
  VP_CASE(v.size() > 3, "unit=" << u << " rotate by " << k << " v=" << vp::str(v));
  vp::run([&] {
    auto p = points<double, 2>(v, Pair{0, 0, 0}, u);
    auto q = p;
    std::rotate(q.begin(), q.begin() + k, q.end());
    auto w = p;
    std::reverse(w.begin(), w.end());
    using G = sh::polygon<2>;
    VP_EQ(G::area(p), G::area(q), "area after rotating the vertex list"); // exact arithmetic
    VP_EQ(G::area(p), G::area(w), "area after reversing the vertex list");
    VP_EQ(G::normal(p)[1], G::normal(q)[1], "normal after rotating");
    VP_EQ(G::normal(p)[1], -G::normal(w)[1], "normal after reversing");
    VP_EQ(std::abs(G::normal(p)[1]), G::area(p), "length of the normal is the area");
  });
}

// ---- 3D
namespace {
struct Ref3 {
  LD area = 0, S = 0;
  V n{0, 0, 0}, c{0, 0, 0}, mid{0, 0, 0};
  template<class L>
  Ref3(const L & pts) {
    std::vector<V> p;
    for(auto & q : pts)
      p.push_back(lift(q));
    for(auto & v : p) {
      mid = mid + (LD(1) / p.size()) * v;
      for(int d = 0; d < 3; ++d)
        S = std::max(S, std::abs(v[d]));
    }
    V m{0, 0, 0};
    for(std::size_t i = 0; i < p.size(); ++i) {
      V a = p[i], b = p[(i + 1) % p.size()];
      V t = LD(0.5) * cross(b - a, mid - a);
      n = n + t;
      area += len(t);
      m = m + (len(t) / 3) * (a + b + mid);
    }
    c = (1 / area) * m;
  }
};
} // namespace

template<class T, int LO = 3, int HI = 8>
void poly3d() {
  auto v = *vertices(LO, HI);
  auto off = *pairs(*vp::coin() ? 0 : std::is_same_v<T, float> ? 40 : 2000);
  bool planar = *vp::coin();
  auto cu = *vp::vec<int>(6, vp::range(-3, 3));
  const double u = std::is_same_v<T, double> ? *vp::scale() : *vp::scale(14);
  std::vector<P<T, 3>> p;
  if(planar) { // p = off + x*u + y*w, exact
    vp::tag("planar");
    for(auto & q : v) {
      P<T, 3> t;
      for(int d = 0; d < 3; ++d)
        t[d] = u * ((q.x * cu[d] + q.y * cu[3 + d]) / 16. + (d == 0 ? off.x : d == 1 ? off.y : off.z) / 8.);
      p.push_back(t);
    }
  }
  else
    p = points<T, 3>(v, off, u);
  std::ostringstream desc;
  if(p.size() > 12)
    desc << p.size() << " vertices from ";
  for(auto & q : p)
    if(&q < &p[12 < p.size() ? 3 : p.size() - 1] + 1)
      desc << '(' << q[0] << ',' << q[1] << ',' << q[2] << ") ";
  Ref3 r(p);
  VP_CASE(p.size() > 3 && r.area > 0, desc.str());
  double A = double(r.area), S = double(r.S), n = double(p.size()), e = eps<T>();
  // a triangle's area carries a relative error through its cross product
  double ta = 32 * n * e * S * S, tm = 4 * n * e * S;
  bool has_c = A > (std::is_same_v<T, float> ? 1e2 : 1e4) * ta;
  double tc = has_c ? 64 * n * e * S * S * S / A : 0;
  vp::run([&] {
    using G = sh::polygon<3>;
    std::list<P<T, 3>> l(p.begin(), p.end());
    auto nrm = [&](const auto & got, const char * w) { near2<T>(got, r.n, ta, w); };
    if(p.size() == 3) {
      using R = sh::triangle<3>;
      VP_NEAR(R::area(p[0], p[1], p[2]), A, ta, "triangle<3>::area");
      nrm(R::normal(p[0], p[1], p[2]), "triangle<3>::normal");
      near2<T>(R::midpoint(p[0], p[1], p[2]), r.mid, tm, "triangle<3>::midpoint");
      near2<T>(R::centroid(p[0], p[1], p[2]), r.mid, tm, "triangle<3>::centroid");
    }
    else {
      VP_NEAR(G::area(p), A, ta, "polygon<3>::area(vector)");
      VP_NEAR(G::area(l.begin(), l.end()), A, ta, "polygon<3>::area(iterators)");
      nrm(G::normal(p), "polygon<3>::normal(vector)");
      nrm(G::normal(l), "polygon<3>::normal(list)");
      if(has_c) {
        near2<T>(G::centroid(p), r.c, tc, "polygon<3>::centroid(vector)");
        near2<T>(G::centroid(l), r.c, tc, "polygon<3>::centroid(list)");
      }
    }
    near2<T>(G::midpoint(p), r.mid, tm, "polygon<3>::midpoint(vector)");
    near2<T>(G::midpoint(l.begin(), l.end()), r.mid, tm, "polygon<3>::midpoint(iterators)");
    if(p.size() == 4) {
      using R = sh::quadrilateral<3>;
      VP_NEAR(R::area(p[0], p[1], p[2], p[3]), A, ta, "quadrilateral<3>::area");
      nrm(R::normal(p[0], p[1], p[2], p[3]), "quadrilateral<3>::normal");
      near2<T>(R::midpoint(p[0], p[1], p[2], p[3]), r.mid, tm, "quadrilateral<3>::midpoint");
      if(has_c)
        near2<T>(R::centroid(p[0], p[1], p[2], p[3]), r.c, tc, "quadrilateral<3>::centroid");
    }
    if(p.size() == 5) {
      VP_NEAR(G::area(p[0], p[1], p[2], p[3], p[4]), A, ta, "polygon<3>::area(5)");
      nrm(G::normal(p[0], p[1], p[2], p[3], p[4]), "polygon<3>::normal(5)");
      near2<T>(G::midpoint(p[0], p[1], p[2], p[3], p[4]), r.mid, tm, "polygon<3>::midpoint(5)");
      if(has_c)
        near2<T>(G::centroid(p[0], p[1], p[2], p[3], p[4]), r.c, tc, "polygon<3>::centroid(5)");
    }
  });
}
VP_INST("poly3d", 3000, poly3d<double>);
VP_INST("poly3d_f", 600, poly3d<float>);
VP_INST("poly3d_many", 60, poly3d<double, 9, 500>);

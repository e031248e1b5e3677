// G01: points and space vectors.
#include "vp.h"
#include <array>
#include <cassert>
#include <algorithm>
#include <iostream>
#include <list>
#include "ristra/geometry/point.h"
#include "ristra/geometry/space_vector.h"
namespace rg = ristra::geometry;
namespace ru = ristra::utils;
using LD = long double;
using rg::operator*;

namespace {
constexpr double eps = std::numeric_limits<double>::epsilon();
rc::Gen<double> num() {
  return rc::gen::weightedOneOf<double>({{5, vp::dyadic(1 << 12, 64)}, {2, vp::dyadic(6, 1)},
    {1, rc::gen::element(0.0, 1.0, -1.0)}});
}
rc::Gen<double> nonzero() { // power of two times sign: exact division
  return rc::gen::map(vp::range(0, 13), [](int k) {
    return (k & 1 ? -1.0 : 1.0) * std::ldexp(1.0, (k >> 1) - 3);
  });
}
template<std::size_t N>
rg::point<double, N> pt(const std::vector<double> & v) {
  rg::point<double, N> p;
  for(std::size_t i = 0; i < N; ++i)
    p[i] = v[i];
  return p;
}
template<class T, std::size_t N>
rg::space_vector<T, N> sv(const std::vector<T> & v) {
  rg::space_vector<T, N> p;
  for(std::size_t i = 0; i < N; ++i)
    p[i] = v[i];
  return p;
}
} // namespace

template<std::size_t N>
void points() {
  const double u = *vp::scale();
  auto a = vp::times(u, *vp::vec<double>(N, num()));
  auto b = vp::times(u, *vp::vec<double>(N, num()));
  auto c = vp::times(u, *vp::vec<double>(N, num()));
  VP_CASE(a != b, "a=" << vp::str(a) << " b=" << vp::str(b) << " c=" << vp::str(c));
  vp::run([&] {
    auto p = pt<N>(a), q = pt<N>(b), r = pt<N>(c);
    LD d2 = 0;
    for(std::size_t i = 0; i < N; ++i)
      d2 += LD(a[i] - b[i]) * LD(a[i] - b[i]);
    double d = double(std::sqrt(d2));
    VP_NEAR(rg::distance(p, q), d, 8 * eps * d, "distance");
    VP_EQ(rg::distance(p, q), rg::distance(q, p), "distance is symmetric");
    VP_EQ(rg::distance(p, p), 0.0, "distance to itself");
    if(a != b)
      VP_ASSERT(rg::distance(p, q) > 0, "distinct points have a positive distance");
    VP_ASSERT(rg::distance(p, r) <= (rg::distance(p, q) + rg::distance(q, r)) * (1 + 16 * eps),
      "triangle inequality");
    auto m = rg::midpoint(p, q);
    for(std::size_t i = 0; i < N; ++i) {
      VP_EQ(m[i], (a[i] + b[i]) / 2, "midpoint component " << i);
      VP_EQ(p[i], a[i], "operand changed");
      VP_EQ(q[i], b[i], "operand changed");
    }
    auto g = rg::centroid({p, q, r});
    for(std::size_t i = 0; i < N; ++i)
      VP_NEAR(g[i], double((LD(a[i]) + b[i] + c[i]) / 3),
        4 * eps * std::abs((a[i] + b[i] + c[i]) / 3), "vertex average of three points");
  });
}
VP_INST("points1", 500, points<1>);
VP_INST("points2", 500, points<2>);
VP_INST("points3", 500, points<3>);
VP_INST("points4", 300, points<4>);

// space vectors against plain std::array arithmetic, with aliasing operands
template<class T, std::size_t N>
void vectors() {
  const double u = std::is_same_v<T, double> ? *vp::scale() : std::is_same_v<T, float> ? *vp::scale(14) : 1.0;
  auto gen = [u] {
    if constexpr(std::is_integral_v<T>)
      return vp::range<T>(-1000, 1000);
    else
      return rc::gen::map(num(), [u](double d) { return T(u * d); });
  };
  auto a = *vp::vec<T>(N, gen());
  auto bb = *vp::vec<T>(N, gen());
  for(auto & x : bb)
    if(x == T(0))
      x = T(1);
  auto b = bb;
  T s = *gen();
  T nz = T(*vp::range(0, 1) ? 4 : -2);
  VP_CASE(a != b, "a=" << vp::str(a) << " b=" << vp::str(b) << " s=" << vp::str(s) << " nz=" << vp::str(nz));
  vp::run([&] {
    auto x = sv<T, N>(a), y = sv<T, N>(b);
    const auto & cx = x;
    VP_EQ(x.size(), N, "size");
    for(std::size_t i = 0; i < N; ++i)
      VP_ASSERT(&x[i] == &cx[i] && &x[int(i)] == &x[i], "indexing");
    if constexpr(N >= 3)
      VP_ASSERT(&x[ru::axis::z] == &x[2], "axis z");
    if constexpr(N >= 2)
      VP_ASSERT(&x[ru::axis::y] == &x[1], "axis y");
    VP_ASSERT(&x[ru::axis::x] == &x[0], "axis x");
    auto chk = [&](const auto & got, auto f, const char * w) {
      for(std::size_t i = 0; i < N; ++i)
        VP_EQ(T(got[i]), T(f(i)), w << " component " << i);
    };
    chk(x + y, [&](auto i) { return a[i] + b[i]; }, "a+b");
    chk(x - y, [&](auto i) { return a[i] - b[i]; }, "a-b");
    chk(x + x, [&](auto i) { return a[i] + a[i]; }, "a+a");
    chk(x - x, [&](auto i) { return T(0); }, "a-a");
    chk(x * s, [&](auto i) { return a[i] * s; }, "a*s");
    chk(x / nz, [&](auto i) { return a[i] / nz; }, "a/s");
    chk(x, [&](auto i) { return a[i]; }, "operand afterwards");
    chk(y, [&](auto i) { return b[i]; }, "operand afterwards");
#define COMP(op)                                                               \
  {                                                                            \
    auto z = x;                                                                \
    auto & r = (z op y);                                                       \
    VP_ASSERT(&r == &z, #op " returns its left operand");                      \
    chk(z, [&](auto i) { T t = a[i]; t op b[i]; return t; }, "a" #op "b");     \
    z = y;                                                                     \
    z op z;                                                                    \
    chk(z, [&](auto i) { T t = b[i]; t op b[i]; return t; }, "b" #op "b");     \
    z = x;                                                                     \
    auto & r2 = (z op nz);                                                     \
    VP_ASSERT(&r2 == &z, #op " scalar returns its left operand");              \
    chk(z, [&](auto i) { T t = a[i]; t op nz; return t; }, "a" #op "s");       \
  }
    COMP(+=)
    COMP(-=)
    COMP(*=)
    COMP(/=)
    auto z = x;
    z = s;
    chk(z, [&](auto) { return s; }, "a=s");
    z = y;
    chk(z, [&](auto i) { return b[i]; }, "a=b");
    auto & zz = z;
    z = zz;
    chk(z, [&](auto i) { return b[i]; }, "a=a");
    rg::space_vector<T, N> f(s);
    chk(f, [&](auto) { return s; }, "fill");
    auto p = rg::point<T, N>();
    for(std::size_t i = 0; i < N; ++i)
      p[i] = a[i];
    chk(rg::point_to_vector(p), [&](auto i) { return a[i]; }, "point_to_vector");
    std::ostringstream os, want;
    os << x;
    want << "[";
    for(std::size_t i = 0; i < N; ++i)
      want << " " << a[i];
    want << " ]";
    VP_EQ(os.str(), want.str(), "printing");
    T d = 0;
    for(std::size_t i = 0; i < N; ++i)
      d += a[i] * b[i];
    if constexpr(std::is_integral_v<T>)
      VP_EQ(rg::dot(x, y), d, "dot");
    else {
      LD e = 0, m = 0;
      for(std::size_t i = 0; i < N; ++i) {
        e += LD(a[i]) * LD(b[i]);
        m += std::abs(LD(a[i]) * LD(b[i]));
      }
      VP_NEAR(rg::dot(x, y), double(e), 8 * std::numeric_limits<T>::epsilon() * double(m), "dot");
    }
    VP_EQ(rg::dot(x, y), rg::dot(y, x), "dot is symmetric");
    if constexpr(!std::is_integral_v<T>) {
      LD q = 0, s2 = 0;
      for(std::size_t i = 0; i < N; ++i) {
        q += LD(a[i]) * a[i];
        s2 = std::max(s2, std::max(std::abs(LD(a[i])), std::abs(LD(b[i]))));
      }
      double e = std::numeric_limits<T>::epsilon();
      VP_NEAR(rg::magnitude(x), double(std::sqrt(q)), 8 * e * double(std::sqrt(q)), "magnitude");
      if constexpr(N <= 3) {
        LD c[3] = {0, 0, 0};
        auto g = [&](const std::vector<T> & v, std::size_t i) { return i < N ? LD(v[i]) : LD(0); };
        c[0] = g(a, 1) * g(b, 2) - g(a, 2) * g(b, 1);
        c[1] = g(a, 2) * g(b, 0) - g(a, 0) * g(b, 2);
        c[2] = g(a, 0) * g(b, 1) - g(a, 1) * g(b, 0);
        double cm = double(std::sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]));
        VP_NEAR(rg::cross_magnitude(x, y), cm, 16 * e * double(s2 * s2), "cross_magnitude");
        VP_ASSERT(rg::cross_magnitude(x, y) >= 0, "cross_magnitude is not negative");
        if constexpr(N == 3) {
          auto n = rg::normal(x, y);
          for(int i = 0; i < 3; ++i)
            VP_NEAR(n[i], double(c[i]), 16 * e * double(s2 * s2), "normal component " << i);
        }
      }
    }
  });
}
VP_INST("vec_d1", 300, vectors<double, 1>);
VP_INST("vec_d2", 500, vectors<double, 2>);
VP_INST("vec_d3", 500, vectors<double, 3>);
VP_INST("vec_d5", 300, vectors<double, 5>);
VP_INST("vec_f3", 300, vectors<float, 3>);
VP_INST("vec_i3", 400, vectors<int, 3>);

VP_PROP(construct, 500) {
  auto a = vp::times(*vp::scale(), *vp::vec<double>(4, num()));
  VP_CASE(a[0] != a[1], "a=" << vp::str(a));
  vp::run([&] {
    rg::space_vector<double, 2> v2(a[0], a[1]);
    rg::space_vector<double, 3> v3{a[0], a[1], a[2]};
    rg::space_vector<double, 4> v4(a[0], a[1], a[2], a[3]);
    rg::space_vector<double, 4> c4(v4);
    for(int i = 0; i < 4; ++i) {
      if(i < 2)
        VP_EQ(v2[i], a[i], "variadic constructor");
      if(i < 3)
        VP_EQ(v3[i], a[i], "list constructor");
      VP_EQ(c4[i], a[i], "copy");
    }
    auto p = pt<2>(a), q = pt<2>({a[2], a[3]});
    auto n = rg::normal(p, q);
    VP_EQ(n[0], p[1] - q[1], "2D normal x");
    VP_EQ(n[1], q[0] - p[0], "2D normal y");
  });
}

// M02: averages, extrema, products, norms and directions of small vectors.
#include "vp.h"
#include <array>
#include <deque>
#include <list>
#include "ristra/math/array.h"
#include "ristra/math/general.h"
#include "ristra/math/multi_array.h"
#include "ristra/math/vector.h"
#include "ristra/math/constants.h"
namespace rm = ristra::math;
using rm::array;

namespace {
using LD = long double;
rc::Gen<double> num() { // exact in sums and products of a few
  return rc::gen::weightedOneOf<double>({{5, vp::dyadic(1 << 12, 64)}, {1, vp::dyadic(4, 1)},
    {1, rc::gen::element(0.0, 1.0, -1.0)}});
}
constexpr double eps = std::numeric_limits<double>::epsilon();
template<class V>
LD dotl(const V & a, const V & b) {
  LD r = 0;
  for(std::size_t i = 0; i < a.size(); ++i)
    r += LD(a[i]) * LD(b[i]);
  return r;
}
template<std::size_t N>
array<double, N> mk(const std::vector<double> & v) {
  array<double, N> a;
  for(std::size_t i = 0; i < N; ++i)
    a[i] = v[i];
  return a;
}
} // namespace

VP_PROP(average_int, 2500) {
  auto v = *vp::vec<int>(1, 20, vp::range(-1000, 1000));
  bool neg = false;
  for(int x : v)
    neg |= x < 0;
  if(neg)
    vp::tag("has negative");
  VP_CASE(v.size() >= 2, "v=" << vp::str(v));
  vp::run([&] {
    int sum = 0;
    for(int x : v)
      sum += x;
    int want = sum / int(v.size());
    VP_EQ(rm::average(v), want, "average(vector)");
    std::list<int> l(v.begin(), v.end());
    VP_EQ(rm::average(l), want, "average(list)");
    VP_EQ(rm::average(l.begin(), l.end()), want, "average(first,last)");
    if(v.size() >= 3)
      VP_EQ(rm::average(v.begin() + 1, v.end() - 1), (sum - v.front() - v.back()) / int(v.size() - 2),
        "average(inner range)");
    if(v.size() >= 2)
      VP_EQ(rm::average(v[0], v[1]), (v[0] + v[1]) / 2, "average(a,b)");
    if(v.size() >= 3)
      VP_EQ(rm::average(v[0], v[1], v[2]), (v[0] + v[1] + v[2]) / 3, "average(a,b,c)");
    if(v.size() >= 5)
      VP_EQ(rm::average(v[0], v[1], v[2], v[3], v[4]),
        (v[0] + v[1] + v[2] + v[3] + v[4]) / 5, "average(5 values)");
  });
}
VP_PROP(average_real, 2500) {
  const double u = *vp::scale();
  auto v = vp::times(u, *vp::vec<double>(1, 20, num()));
  VP_CASE(v.size() >= 2, "v=" << vp::str(v));
  vp::run([&] {
    LD sum = 0;
    for(double x : v)
      sum += x;
    auto near = [&](double got, LD s, std::size_t n, const char * w) {
      VP_NEAR(got, double(s / LD(n)), 4 * eps * std::abs(double(s / LD(n))), w);
    };
    near(rm::average(v), sum, v.size(), "average(vector)");
    std::deque<double> l(v.begin(), v.end());
    near(rm::average(l), sum, v.size(), "average(deque)");
    near(rm::average(l.begin(), l.end()), sum, v.size(), "average(first,last)");
    near(rm::average(v.data(), v.data() + v.size()), sum, v.size(), "average(pointers)");
    auto p = [&](std::size_t n) {
      LD s = 0;
      for(std::size_t i = 0; i < n; ++i)
        s += v[i];
      return s;
    };
    if(v.size() >= 2)
      near(rm::average(v[0], v[1]), p(2), 2, "average(a,b)");
    if(v.size() >= 3)
      near(rm::average(v[0], v[1], v[2]), p(3), 3, "average(a,b,c)");
    if(v.size() >= 4)
      near(rm::average(v[0], v[1], v[2], v[3]), p(4), 4, "average(4 values)");
    if(v.size() >= 7)
      near(rm::average(v[0], v[1], v[2], v[3], v[4], v[5], v[6]), p(7), 7, "average(7 values)");
    // of points
    std::vector<array<double, 2>> pts;
    for(double x : v)
      pts.push_back(array<double, 2>(x, 2 * x + u));
    LD sum2 = 2 * sum + u * LD(v.size());
    auto c = rm::average(pts);
    near(c[0], sum, v.size(), "average(points).x");
    near(c[1], sum2, v.size(), "average(points).y");
    c = rm::average(pts.begin(), pts.end());
    near(c[0], sum, v.size(), "average(range of points).x");
    near(c[1], sum2, v.size(), "average(range of points).y");
    if(pts.size() >= 2) {
      c = rm::average(pts[0], pts[1]);
      near(c[0], p(2), 2, "average(point,point).x");
      near(c[1], 2 * p(2) + 2 * LD(u), 2, "average(point,point).y");
    }
    if(pts.size() >= 3) {
      c = rm::average(pts[0], pts[1], pts[2]);
      near(c[0], p(3), 3, "average(3 points).x");
      near(c[1], 2 * p(3) + 3 * LD(u), 3, "average(3 points).y");
    }
  });
}
VP_PROP(extrema, 2000) {
  auto v = *vp::vec<int>(6, vp::range(-4, 4));
  auto w = *vp::vec<int>(6, vp::range(-4, 4));
  auto n = *vp::range(1, 6);
  VP_CASE(v != w, "v=" << vp::str(v) << " w=" << vp::str(w) << " n=" << n);
  vp::run([&] {
    array<int, 6> a, b;
    for(int i = 0; i < 6; ++i) {
      a[i] = v[i];
      b[i] = w[i];
    }
    std::size_t lo = 0, hi = 0;
    for(std::size_t i = 1; i < 6; ++i) {
      if(v[i] < v[lo])
        lo = i;
      if(v[i] > v[hi])
        hi = i;
    }
    VP_EQ(std::size_t(rm::min_element(a) - a.begin()), lo, "min_element(array)");
    VP_EQ(std::size_t(rm::max_element(a) - a.begin()), hi, "max_element(array)");
    const std::vector<int> & cv = v;
    VP_EQ(std::size_t(rm::min_element(v) - cv.begin()), lo, "min_element(vector)");
    VP_EQ(std::size_t(rm::max_element(v) - cv.begin()), hi, "max_element(vector)");
    auto mn = rm::min(a, b), mx = rm::max(a, b);
    for(int i = 0; i < 6; ++i) {
      VP_EQ(mn[i], v[i] < w[i] ? v[i] : w[i], "elementwise min " << i);
      VP_EQ(mx[i], v[i] > w[i] ? v[i] : w[i], "elementwise max " << i);
    }
    rm::multi_array<int, 2, 3> ma, mb;
    ma.assign(v.begin(), v.end());
    mb.assign(w.begin(), w.end());
    auto mmn = rm::min(ma, mb), mmx = rm::max(ma, mb);
    for(int i = 0; i < 6; ++i) {
      VP_EQ(mmn[i], v[i] < w[i] ? v[i] : w[i], "matrix min " << i);
      VP_EQ(mmx[i], v[i] > w[i] ? v[i] : w[i], "matrix max " << i);
    }
    std::vector<int> sv(v.begin(), v.begin() + n), sw(w.begin(), w.begin() + n);
    auto vn = rm::min(sv, sw), vx = rm::max(sv, sw);
    VP_EQ(vn.size(), std::size_t(n), "min(vector) size");
    VP_EQ(vx.size(), std::size_t(n), "max(vector) size");
    for(int i = 0; i < n; ++i) {
      VP_EQ(vn[i], v[i] < w[i] ? v[i] : w[i], "vector min " << i);
      VP_EQ(vx[i], v[i] > w[i] ? v[i] : w[i], "vector max " << i);
    }
  });
}
template<std::size_t N>
static void products() {
  auto v = vp::times(*vp::scale(), *vp::vec<double>(N, num()));
  auto w = vp::times(*vp::scale(), *vp::vec<double>(N, num()));
  bool nz = false;
  for(double x : v)
    nz |= x != 0;
  VP_CASE(nz, "v=" << vp::str(v) << " w=" << vp::str(w));
  vp::run([&] {
    auto a = mk<N>(v), b = mk<N>(w);
    LD d = dotl(v, w), aa = dotl(v, v), sc = 0, del = 0;
    for(std::size_t i = 0; i < N; ++i) {
      sc += std::abs(LD(v[i]) * w[i]);
      del += (LD(v[i]) - w[i]) * (LD(v[i]) - w[i]);
    }
    double tol = 8 * eps * double(sc);
    VP_NEAR(rm::dot_product(a, b), double(d), tol, "dot_product(array)");
    VP_NEAR(rm::dot_product(v, w), double(d), tol, "dot_product(vector)");
    VP_NEAR(rm::dot_product(v.begin(), v.end(), w.begin()), double(d), tol,
      "dot_product(iterators)");
    VP_EQ(rm::dot_product(a, b), rm::dot_product(b, a), "dot_product is symmetric");
    double m = double(std::sqrt(aa));
    VP_NEAR(rm::magnitude(a), m, 8 * eps * m, "magnitude(array)");
    VP_NEAR(rm::magnitude(v), m, 8 * eps * m, "magnitude(vector)");
    VP_NEAR(rm::abs(a), m, 8 * eps * m, "abs(array)");
    VP_NEAR(rm::abs(v), m, 8 * eps * m, "abs(vector)");
    double dm = double(std::sqrt(del));
    VP_NEAR(rm::delta_magnitude(a, b), dm, 8 * eps * dm, "delta_magnitude");
    if(nz) {
      auto u = rm::unit(a);
      VP_NEAR(rm::magnitude(u), 1.0, 16 * eps, "magnitude(unit)");
      for(std::size_t i = 0; i < N; ++i)
        VP_NEAR(u[i], v[i] / m, 16 * eps, "unit " << i);
    }
    // reflection about the plane with normal n = w (made unit)
    if(dotl(w, w) > 0) {
      auto n = rm::unit(b);
      auto r = rm::reflect(a, n);
      LD dn = dotl(a, n);
      for(std::size_t i = 0; i < N; ++i)
        VP_NEAR(r[i], double(LD(v[i]) - 2 * dn * LD(n[i])), 64 * eps * m, "reflect " << i);
      auto rr = rm::reflect(r, n);
      for(std::size_t i = 0; i < N; ++i)
        VP_NEAR(rr[i], v[i], 256 * eps * m, "reflect twice " << i);
    }
  });
}
VP_INST("products_1", 300, products<1>);
VP_INST("products_2", 1500, products<2>);
VP_INST("products_3", 1500, products<3>);
VP_INST("products_6", 800, products<6>);
VP_PROP(products_matrix, 600) {
  auto v = vp::times(*vp::scale(), *vp::vec<double>(6, num()));
  auto w = vp::times(*vp::scale(), *vp::vec<double>(6, num()));
  VP_CASE(v != w, "v=" << vp::str(v) << " w=" << vp::str(w));
  vp::run([&] {
    rm::multi_array<double, 3, 2> a, b;
    a.assign(v.begin(), v.end());
    b.assign(w.begin(), w.end());
    double m = double(std::sqrt(dotl(v, v)));
    VP_NEAR(rm::magnitude(a), m, 8 * eps * m, "magnitude(matrix)");
    double sc = 0;
    for(int i = 0; i < 6; ++i)
      sc += std::abs(v[i] * w[i]);
    VP_NEAR(rm::dot_product(a, b), double(dotl(v, w)), 8 * eps * sc, "dot_product(matrix)");
  });
}
VP_PROP(cross, 2500) {
  auto v = vp::times(*vp::scale(), *vp::vec<double>(9, num()));
  VP_CASE(v[0] != 0 && v[3] != 0, "v=" << vp::str(v));
  vp::run([&] {
    array<double, 2> p(v[0], v[1]), q(v[2], v[3]);
    LD c2 = LD(v[0]) * v[3] - LD(v[1]) * v[2];
    double s2 = std::abs(v[0] * v[3]) + std::abs(v[1] * v[2]);
    VP_NEAR(rm::cross_product(p, q), double(c2), 4 * eps * s2, "2D cross product");
    auto nn = rm::normal(p, q);
    VP_EQ(nn[0], v[1] - v[3], "2D normal x");
    VP_EQ(nn[1], v[2] - v[0], "2D normal y");
    array<double, 3> a(v[0], v[1], v[2]), b(v[3], v[4], v[5]), c(v[6], v[7], v[8]);
    auto x = rm::cross_product(a, b);
    double sa = std::sqrt(double(dotl(a, a))), sb = std::sqrt(double(dotl(b, b))),
           sc = std::sqrt(double(dotl(c, c)));
    LD w[3];
    for(int i = 0; i < 3; ++i) {
      int j = (i + 1) % 3, k = (i + 2) % 3;
      w[i] = LD(a[j]) * b[k] - LD(a[k]) * b[j];
      VP_NEAR(x[i], double(w[i]), 4 * eps * sa * sb, "3D cross product " << i);
    }
    auto y = rm::cross_product(b, a);
    for(int i = 0; i < 3; ++i)
      VP_NEAR(x[i], -y[i], 4 * eps * sa * sb, "cross product is antisymmetric " << i);
    LD t = w[0] * c[0] + w[1] * c[1] + w[2] * c[2];
    double tt = 32 * eps * sa * sb * sc;
    VP_NEAR(rm::triple_product(a, b, c), double(t), tt, "triple product");
    VP_NEAR(rm::triple_product(b, c, a), double(t), tt, "triple product, rotated");
    VP_NEAR(rm::triple_product(b, a, c), double(-t), tt, "triple product, swapped");
  });
}
VP_PROP(powers_and_sign, 2000) {
  auto x = *vp::scale() * *num();
  auto i = *vp::range(-1000, 1000);
  auto big = *vp::range<std::int64_t>(-2000000, 2000000), bigger = *vp::range<std::int64_t>(-3000000000, 3000000000);
  VP_CASE(x != 0 && i != 0, "x=" << x << " i=" << i);
  vp::run([&] {
    VP_EQ(rm::sqr(x), x * x, "sqr");
    VP_EQ(rm::sqr(i), i * i, "sqr(int)");
    VP_EQ(rm::cube(i), i * i * i, "cube(int)");
    VP_EQ(std::int64_t(rm::cube(big)), big * big * big, "cube(int64)");
    VP_EQ(std::int64_t(rm::sqr(bigger)), bigger * bigger, "sqr(int64)");
    VP_EQ(int(rm::sgn(bigger)), bigger > 0 ? 1 : bigger < 0 ? -1 : 0, "sgn(int64)");
    VP_EQ(int(rm::sgn(unsigned(i < 0 ? 0 : i))), i > 0 ? 1 : 0, "sgn(unsigned)");
    VP_NEAR(rm::cube(x), double(LD(x) * x * x), 4 * eps * std::abs(x * x * x), "cube");
    VP_EQ(rm::sgn(x), x > 0 ? 1 : x < 0 ? -1 : 0, "sgn");
    VP_EQ(rm::sgn(i), i > 0 ? 1 : i < 0 ? -1 : 0, "sgn(int)");
    VP_EQ(rm::sgn(-x), -rm::sgn(x), "sgn is odd");
    VP_EQ(rm::sgn(0.0 * x), 0, "sgn(0)");
    VP_NEAR(rm::pi, 3.14159265358979323846, 4 * eps, "pi");
  });
}

// ---- other element types: integers are exact, reals within their precision
template<class T, class U>
static void mixed() {
  auto v = *vp::vec<int>(4, vp::range(-200, 200));
  auto w = *vp::vec<int>(4, vp::range(-200, 200));
  VP_CASE(v != w, "v=" << vp::str(v) << " w=" << vp::str(w));
  vp::run([&] {
    // a fractional part for the real types
    auto conv = [](auto t, int k) {
      using X = decltype(t);
      return std::is_integral<X>::value ? X(k) : X(k) / X(8);
    };
    array<T, 4> a;
    array<U, 4> b;
    rm::multi_array<T, 2, 2> ma;
    rm::multi_array<U, 2, 2> mb;
    LD del = 0;
    for(int i = 0; i < 4; ++i) {
      ma[i] = a[i] = conv(T(), v[i]);
      mb[i] = b[i] = conv(U(), w[i]);
      del += (LD(a[i]) - LD(b[i])) * (LD(a[i]) - LD(b[i]));
    }
    double m = double(std::sqrt(del));
    double tol = (std::is_same<decltype(T() * U()), float>::value ? 8 * double(std::numeric_limits<float>::epsilon()) : 8 * eps) * m;
    VP_NEAR(rm::delta_magnitude(a, b), m, tol, "delta_magnitude");
    VP_NEAR(rm::delta_magnitude(b, a), m, tol, "delta_magnitude, swapped");
    VP_NEAR(rm::delta_magnitude(ma, mb), m, tol, "delta_magnitude of matrices");
    VP_EQ(double(rm::delta_magnitude(a, a)), 0.0, "delta_magnitude of a point and itself");
  });
}
VP_INST("delta_int_double", 300, mixed<int, double>);
VP_INST("delta_float_double", 300, mixed<float, double>);
VP_INST("delta_double_float", 200, mixed<double, float>);
VP_INST("delta_int_int", 300, mixed<int, int>);
VP_INST("delta_long_int", 200, mixed<long, int>);
VP_INST("delta_float_float", 200, mixed<float, float>);
VP_INST("delta_int_float", 200, mixed<int, float>);

template<class T>
static void exact() { // small enough to be exact in T
  const int K = sizeof(T) == 2 ? 15 : std::is_same<T, float>::value ? 100 : 300;
  auto g = rc::gen::map(vp::range(-K, K), [](int k) { return T(k); });
  auto v = *vp::vec<T>(9, g);
  auto n = *vp::range(1, 9);
  VP_CASE(v[0] != T(0) && v[4] != T(0), "v=" << vp::str(v) << " n=" << n);
  vp::run([&] {
    array<T, 3> a(v[0], v[1], v[2]), b(v[3], v[4], v[5]), c(v[6], v[7], v[8]);
    array<T, 2> p(v[0], v[1]), q(v[2], v[3]);
    using L = long long;
    auto at = [&](int i) { return L(v[i]); };
    VP_EQ(rm::cross_product(p, q), T(at(0) * at(3) - at(1) * at(2)), "2D cross product");
    auto nn = rm::normal(p, q);
    VP_EQ(nn[0], T(at(1) - at(3)), "2D normal x");
    VP_EQ(nn[1], T(at(2) - at(0)), "2D normal y");
    auto x = rm::cross_product(a, b);
    L dot = 0, trip = 0, aa = 0;
    for(int i = 0; i < 3; ++i) {
      int j = (i + 1) % 3, k = (i + 2) % 3;
      L xi = at(j) * at(3 + k) - at(k) * at(3 + j);
      VP_EQ(x[i], T(xi), "3D cross product " << i);
      dot += at(i) * at(3 + i);
      aa += at(i) * at(i);
      trip += xi * at(6 + i);
    }
    VP_EQ(rm::dot_product(a, b), T(dot), "dot product");
    // |triple| <= 6 K^3: beyond a float's 24 bits
    if(!std::is_same<T, float>::value && sizeof(T) > 2)
      VP_EQ(L(rm::triple_product(a, b, c)), trip, "triple product");
    std::vector<T> s(v.begin(), v.begin() + n), r(v.rbegin(), v.rbegin() + n);
    L sd = 0, sum = 0;
    for(int i = 0; i < n; ++i) {
      sd += at(i) * at(8 - i);
      sum += at(i);
    }
    if(sizeof(T) > 2) {
      VP_EQ(L(rm::dot_product(s, r)), sd, "dot product of vectors");
      VP_EQ(L(rm::dot_product(s.begin(), s.end(), r.begin())), sd, "dot product of ranges");
    }
    VP_EQ(std::size_t(rm::max_element(s) - s.cbegin()),
      std::size_t(std::max_element(s.begin(), s.end()) - s.begin()), "max_element");
    if(std::is_integral<T>::value) {
      VP_EQ(L(rm::average(s)), sum / n, "average");
      VP_EQ(L(rm::average(s.begin(), s.end())), sum / n, "average of a range");
      // whatever the element type, the length of an integer vector is the root's integer part
      VP_EQ(L(rm::magnitude(a)), L(std::sqrt(LD(aa))), "magnitude");
    }
  });
}
VP_INST("exact_int", 1000, exact<int>);
VP_INST("exact_long", 600, exact<long>);
VP_INST("exact_float", 600, exact<float>);
VP_INST("exact_double", 600, exact<double>);
VP_INST("exact_short", 300, exact<short>);

VP_PROP(float_products, 1000) {
  auto k = *vp::vec<int>(6, vp::range(-100000, 100000));
  VP_CASE(k[0] && k[4], "k=" << vp::str(k));
  vp::run([&] {
    const double fe = std::numeric_limits<float>::epsilon();
    array<float, 3> a, b;
    for(int i = 0; i < 3; ++i) {
      a[i] = float(k[i]) / 64;
      b[i] = float(k[3 + i]) / 64;
    }
    LD d = dotl(a, b), m = std::sqrt(dotl(a, a)), mb = std::sqrt(dotl(b, b));
    VP_NEAR(rm::dot_product(a, b), double(d), 8 * fe * double(m * mb), "float dot product");
    VP_NEAR(rm::magnitude(a), double(m), 8 * fe * double(m), "float magnitude");
    if(m > 0) {
      auto u = rm::unit(a);
      for(int i = 0; i < 3; ++i)
        VP_NEAR(u[i], double(LD(a[i]) / m), 16 * fe, "float unit " << i);
      if(mb > 0) {
        auto n = rm::unit(b);
        auto r = rm::reflect(a, n);
        LD dn = dotl(a, n);
        for(int i = 0; i < 3; ++i)
          VP_NEAR(r[i], double(LD(a[i]) - 2 * dn * LD(n[i])), 64 * fe * double(m), "float reflect " << i);
      }
    }
  });
}

// ---- long vectors
template<std::size_t N>
static void long_array(const std::vector<int> & v, const std::vector<int> & w) {
  if(v.size() < N)
    return;
  auto pa = std::make_unique<array<int, N>>(), pb = std::make_unique<array<int, N>>();
  auto & a = *pa;
  auto & b = *pb;
  long dot = 0, aa = 0, dd = 0;
  std::size_t lo = 0, hi = 0;
  for(std::size_t i = 0; i < N; ++i) {
    a[i] = v[i];
    b[i] = w[i];
    dot += long(v[i]) * w[i];
    aa += long(v[i]) * v[i];
    dd += long(v[i] - w[i]) * (v[i] - w[i]);
    if(v[i] < v[lo])
      lo = i;
    if(v[i] > v[hi])
      hi = i;
  }
  VP_EQ(rm::dot_product(a, b), int(dot), "dot product of " << N);
  VP_EQ(rm::magnitude(a), int(std::sqrt(double(aa))), "magnitude of " << N);
  VP_NEAR(rm::delta_magnitude(a, b), std::sqrt(double(dd)), 1e-9 * std::sqrt(double(dd)), "delta_magnitude of " << N);
  VP_EQ(std::size_t(rm::min_element(a) - a.begin()), lo, "min_element of " << N);
  VP_EQ(std::size_t(rm::max_element(a) - a.begin()), hi, "max_element of " << N);
  auto mn = rm::min(a, b), mx = rm::max(a, b);
  for(std::size_t i = 0; i < N; ++i) {
    VP_EQ(mn[i], std::min(v[i], w[i]), "min of " << N << " at " << i);
    VP_EQ(mx[i], std::max(v[i], w[i]), "max of " << N << " at " << i);
  }
}
VP_PROP(large, 80) {
  auto n = *vp::large(70000);
  auto seed = *vp::range(0, 1 << 30);
  VP_CASE(true, "n=" << n << " seed=" << seed);
  vp::run([&] {
    vp::Lcg g(seed);
    std::vector<int> v(n), w(n);
    for(int i = 0; i < n; ++i) {
      v[i] = g.upto(201) - 100;
      w[i] = g.upto(201) - 100;
    }
    long sum = 0, dot = 0, aa = 0;
    for(int i = 0; i < n; ++i) {
      sum += v[i];
      dot += long(v[i]) * w[i];
      aa += long(v[i]) * v[i];
    }
    VP_EQ(rm::average(v), int(sum / n), "average of " << n);
    std::list<int> l(v.begin(), v.end());
    VP_EQ(rm::average(l.begin(), l.end()), int(sum / n), "average of a list of " << n);
    VP_EQ(rm::dot_product(v, w), int(dot), "dot product of vectors of " << n);
    VP_EQ(rm::magnitude(v), int(std::sqrt(double(aa))), "magnitude of a vector of " << n);
    std::vector<double> x(v.begin(), v.end());
    VP_NEAR(rm::average(x), double(sum) / n, 1e-12, "real average of " << n);
    VP_NEAR(rm::average(x.begin(), x.end()), double(sum) / n, 1e-12, "real average of a range of " << n);
    VP_EQ(rm::dot_product(x.begin(), x.end(), w.begin()), double(dot), "real dot product of " << n);
    auto mn = rm::min(v, w), mx = rm::max(v, w);
    VP_EQ(mn.size(), v.size(), "min size");
    VP_EQ(mx.size(), v.size(), "max size");
    for(int i = 0; i < n; ++i) {
      VP_EQ(mn[i], std::min(v[i], w[i]), "min at " << i);
      VP_EQ(mx[i], std::max(v[i], w[i]), "max at " << i);
    }
    long_array<127>(v, w);
    long_array<128>(v, w);
    long_array<255>(v, w);
    long_array<256>(v, w);
    long_array<257>(v, w);
    long_array<1000>(v, w);
    long_array<32768>(v, w);
    long_array<65535>(v, w);
    long_array<65536>(v, w);
    long_array<66000>(v, w);
  });
}
VP_PROP(average_many_arguments, 200) {
  auto v = *vp::vec<int>(17, vp::range(-1000, 1000));
  VP_CASE(v[16] != 0, "v=" << vp::str(v));
  vp::run([&] {
    long s = 0;
    for(int x : v)
      s += x;
    VP_EQ(rm::average(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11],
            v[12], v[13], v[14], v[15], v[16]), int(s / 17), "average(17 values)");
    auto c = v; // arguments are left alone
    VP_EQ(rm::average(long(v[0]), long(v[1]), long(v[2])), (long(v[0]) + v[1] + v[2]) / 3, "average of rvalues");
    VP_EQ(v, c, "arguments changed");
  });
}

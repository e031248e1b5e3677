// M01: small arrays and multi-dimensional arrays compute element by element.
#include "vp.h"
#include <array>
#include <sstream>
#include "ristra/math/array.h"
#include "ristra/math/multi_array.h"
#include "ristra/math/matrix.h"
using namespace ristra::math;

namespace {
// Per type: values whose sums, differences and products are exact, divisors
// whose quotients are compared within 4 ulp for floating point.
// other magnitudes: sums and products of two still do not overflow
template<class T>
rc::Gen<T> wide() {
  if constexpr(std::is_floating_point_v<T>)
    return rc::gen::apply([](int k, int e) { return std::ldexp(T(k), e); }, vp::range(-800, 800),
      vp::range(sizeof(T) == 4 ? -30 : -200, sizeof(T) == 4 ? 30 : 200));
  else
    return sizeof(T) == 8 ? vp::range<T>(T(-2000000000), T(2000000000)) : vp::range<T>(T(-30000), T(30000));
}
template<class T>
rc::Gen<T> value() {
  if constexpr(std::is_floating_point_v<T>)
    return rc::gen::weightedOneOf<T>({{4, rc::gen::map(vp::range(-800, 800), [](int k) { return T(k) / T(16); })},
      {1, wide<T>()}});
  else
    return rc::gen::weightedOneOf<T>({{4, vp::range<T>(T(-90), T(90))}, {1, wide<T>()}});
}
template<class T>
rc::Gen<T> divisor() {
  if constexpr(std::is_floating_point_v<T>)
    return rc::gen::weightedOneOf<T>(
      {{4, rc::gen::map(vp::range(1, 800), [](int k) { return T(k % 2 ? k : -k) / T(16); })},
        {1, rc::gen::map(wide<T>(), [](T x) { return x == 0 ? T(1) : x; })}});
  else
    return rc::gen::weightedOneOf<T>({{4, rc::gen::map(vp::range(1, 20), [](int k) { return T(k % 2 ? k : -k); })},
      {1, rc::gen::map(wide<T>(), [](T x) { return x == 0 ? T(1) : x; })}});
}
template<class T>
bool eq_div(T got, T want) {
  if constexpr(std::is_floating_point_v<T>)
    return std::abs(got - want) <= 4 * std::numeric_limits<T>::epsilon() * std::abs(want);
  else
    return got == want;
}
template<class A, class F>
void each(const A & got, F want, const char * what) {
  for(std::size_t i = 0; i < got.size(); ++i) {
    auto w = want(i);
    if(!(got.data()[i] == w))
      VP_FAIL(what << ": element " << i << " is " << vp::str(got.data()[i]) << ", expected "
                   << vp::str(w));
  }
}
template<class A, class F>
void each_div(const A & got, F want, const char * what) {
  using T = typename A::value_type;
  for(std::size_t i = 0; i < got.size(); ++i) {
    T w = want(i);
    if(!eq_div<T>(got.data()[i], w))
      VP_FAIL(what << ": element " << i << " is " << vp::str(got.data()[i]) << ", expected "
                   << vp::str(w));
  }
}

// Everything array and multi_array share. A is the type, A2 the same shape with
// another element type.
template<class A, class A2>
void algebra() {
  using T = typename A::value_type;
  using T2 = typename A2::value_type;
  constexpr std::size_t n = A::size();
  auto x = *vp::vec<T>(n, value<T>());
  auto y = *vp::vec<T>(n, value<T>());
  auto d = *vp::vec<T>(n, divisor<T>());
  auto z = *vp::vec<int>(n, vp::range(-60, 60));
  auto s = *value<T>();
  auto q = *divisor<T>();
  auto k = *vp::range<std::size_t>(0, n - 1);
  auto si = *vp::range(1, 9);
  bool equal = *vp::range(0, 3) == 0;
  if(equal) // make y equal to x, or differing at one place
    for(std::size_t i = 0; i < n; ++i)
      y[i] = x[i];
  auto bump = *vp::range(-1, 1);
  if(equal)
    y[k] = T(y[k] + bump);
  bool pos = false;
  for(auto v : x)
    pos |= v != T(0);
  VP_CASE(pos && n > 1, "x=" << vp::str(x) << " y=" << vp::str(y) << " d=" << vp::str(d)
                             << " s=" << vp::str(s) << " q=" << vp::str(q) << " si=" << si);
  vp::run([&] {
    A a, b, c, e;
    for(std::size_t i = 0; i < n; ++i) {
      a.data()[i] = x[i];
      b[i] = y[i];
      e[i] = d[i];
    }
    const A a0(a), b0(b);
    auto keep = [&] {
      each(a0, [&](std::size_t i) { return x[i]; }, "operand changed");
      each(b0, [&](std::size_t i) { return y[i]; }, "operand changed");
    };
    // array (op) array
    each(a0 + b0, [&](std::size_t i) { return T(x[i] + y[i]); }, "a+b");
    each(a0 - b0, [&](std::size_t i) { return T(x[i] - y[i]); }, "a-b");
    each(a0 * b0, [&](std::size_t i) { return T(x[i] * y[i]); }, "a*b");
    each_div(a0 / e, [&](std::size_t i) { return T(x[i] / d[i]); }, "a/b");
    // array (op) scalar, scalar (op) array
    each(a0 + s, [&](std::size_t i) { return T(x[i] + s); }, "a+s");
    each(a0 - s, [&](std::size_t i) { return T(x[i] - s); }, "a-s");
    each(a0 * s, [&](std::size_t i) { return T(x[i] * s); }, "a*s");
    each_div(a0 / q, [&](std::size_t i) { return T(x[i] / q); }, "a/s");
    each(s + a0, [&](std::size_t i) { return T(s + x[i]); }, "s+a");
    each(s - a0, [&](std::size_t i) { return T(s - x[i]); }, "s-a");
    each(s * a0, [&](std::size_t i) { return T(s * x[i]); }, "s*a");
    each_div(s / e, [&](std::size_t i) { return T(s / d[i]); }, "s/a");
    // a scalar of another type
    each(a0 * si, [&](std::size_t i) { return T(x[i] * si); }, "a*int");
    each_div(a0 / si, [&](std::size_t i) { return T(x[i] / si); }, "a/int");
    each(a0 + si, [&](std::size_t i) { return T(x[i] + si); }, "a+int");
    each(si - a0, [&](std::size_t i) { return T(si - x[i]); }, "int-a");
    each(-a0, [&](std::size_t i) { return T(-x[i]); }, "-a");
    keep();
    // compound
    auto ref = [&](A & r, const char * w) {
      VP_ASSERT(&r == &c, w << " does not return its left operand");
    };
    c = a;
    ref(c += b, "+=");
    each(c, [&](std::size_t i) { return T(x[i] + y[i]); }, "a+=b");
    c = a;
    ref(c -= b, "-=");
    each(c, [&](std::size_t i) { return T(x[i] - y[i]); }, "a-=b");
    c = a;
    ref(c *= b, "*=");
    each(c, [&](std::size_t i) { return T(x[i] * y[i]); }, "a*=b");
    c = a;
    ref(c /= e, "/=");
    each_div(c, [&](std::size_t i) { return T(x[i] / d[i]); }, "a/=b");
    c = a;
    ref(c += s, "+=s");
    each(c, [&](std::size_t i) { return T(x[i] + s); }, "a+=s");
    c = a;
    ref(c -= s, "-=s");
    each(c, [&](std::size_t i) { return T(x[i] - s); }, "a-=s");
    c = a;
    ref(c *= s, "*=s");
    each(c, [&](std::size_t i) { return T(x[i] * s); }, "a*=s");
    c = a;
    ref(c /= q, "/=s");
    each_div(c, [&](std::size_t i) { return T(x[i] / q); }, "a/=s");
    c = a;
    c += c;
    each(c, [&](std::size_t i) { return T(x[i] + x[i]); }, "a+=a");
    c = a;
    c -= c;
    each(c, [&](std::size_t i) { return T(0); }, "a-=a");
    c = a;
    c *= c;
    each(c, [&](std::size_t i) { return T(x[i] * x[i]); }, "a*=a");
    c = e;
    c /= c;
    each(c, [&](std::size_t i) { return T(1); }, "a/=a");
    // assignment, fill, swap, copies are independent
    c = s;
    each(c, [&](std::size_t) { return s; }, "a=s");
    c.fill(q);
    each(c, [&](std::size_t) { return q; }, "fill");
    A f(a);
    f[k] = T(5);
    each(a, [&](std::size_t i) { return x[i]; }, "copy is not independent");
    each(f, [&](std::size_t i) { return i == k ? T(5) : x[i]; }, "write to a copy");
    A g(a), h(b);
    g.swap(h);
    each(g, [&](std::size_t i) { return y[i]; }, "swap (left)");
    each(h, [&](std::size_t i) { return x[i]; }, "swap (right)");
    swap(g, h);
    each(g, [&](std::size_t i) { return x[i]; }, "free swap (left)");
    each(h, [&](std::size_t i) { return y[i]; }, "free swap (right)");
    c.assign(y.begin(), y.end());
    each(c, [&](std::size_t i) { return y[i]; }, "assign(first,last)");
    // other element type
    A2 o;
    for(std::size_t i = 0; i < n; ++i)
      o[i] = T2(z[i]);
    A cv(o);
    each(cv, [&](std::size_t i) { return T(z[i]); }, "converting copy");
    c = a;
    c = o;
    each(c, [&](std::size_t i) { return T(z[i]); }, "converting assignment");
    c = a;
    c += o;
    each(c, [&](std::size_t i) { return T(x[i] + z[i]); }, "a+=other type");
    c = a;
    c -= o;
    each(c, [&](std::size_t i) { return T(x[i] - z[i]); }, "a-=other type");
    c = a;
    c *= o;
    each(c, [&](std::size_t i) { return T(x[i] * z[i]); }, "a*=other type");
    // comparisons are lexicographic
    bool lt = std::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end());
    bool gt = std::lexicographical_compare(y.begin(), y.end(), x.begin(), x.end());
    bool same = x == y;
    VP_EQ((a0 == b0), same, "==");
    VP_EQ((a0 != b0), !same, "!=");
    VP_EQ((a0 < b0), lt, "<");
    VP_EQ((a0 > b0), gt, ">");
    VP_EQ((a0 <= b0), !gt, "<=");
    VP_EQ((a0 >= b0), !lt, ">=");
    bool all_s = true;
    for(auto v : x)
      all_s &= v == s;
    VP_EQ((a0 == s), all_s, "== scalar");
    c = s;
    VP_ASSERT(c == s, "a filled array equals its value");
    c[k] = s == T(5) ? T(6) : T(5);
    VP_EQ((c == s), false, "an array with one other element equals the value");
    // access
    for(std::size_t i = 0; i < n; ++i) {
      VP_ASSERT(&a[i] == a.data() + i && &a0[i] == a0.data() + i, "operator[] " << i);
      VP_ASSERT(a.begin() + i == a.data() + i && a0.cbegin() + i == a0.data() + i, "begin " << i);
      VP_ASSERT(&*(a.rbegin() + i) == a.data() + (n - 1 - i), "rbegin " << i);
      VP_ASSERT(&*(a0.crbegin() + i) == a0.data() + (n - 1 - i), "crbegin " << i);
      VP_ASSERT(&*(a0.rbegin() + i) == a0.data() + (n - 1 - i), "const rbegin " << i);
    }
    VP_ASSERT(a.end() - a.begin() == std::ptrdiff_t(n), "end-begin");
    VP_ASSERT(a0.cend() - a0.cbegin() == std::ptrdiff_t(n), "cend-cbegin");
    VP_ASSERT(a.rend() - a.rbegin() == std::ptrdiff_t(n), "rend-rbegin");
    VP_ASSERT(a0.crend() - a0.crbegin() == std::ptrdiff_t(n), "crend-crbegin");
    VP_ASSERT(&a.front() == a.data() && &a.back() == a.data() + n - 1, "front/back");
    VP_ASSERT(&a0.front() == a0.data() && &a0.back() == a0.data() + n - 1, "const front/back");
    VP_ASSERT(a.c_array() == a.data(), "c_array");
    keep();
  });
}

// array only
template<class T, std::size_t N>
void array_only() {
  using A = array<T, N>;
  auto x = *vp::vec<T>(N, value<T>());
  auto over = *rc::gen::oneOf(vp::range<std::size_t>(N, N + 4),
    rc::gen::just(std::size_t(-1)));
  VP_CASE(N > 1, "x=" << vp::str(x) << " beyond=" << over);
  vp::run([&] {
    A a(x[0]);
    each(a, [&](std::size_t) { return x[0]; }, "construct from one value");
    a.assign(x.begin(), x.end());
    const A & c = a;
    for(std::size_t i = 0; i < N; ++i)
      VP_ASSERT(&a(i) == a.data() + i && &c(i) == a.data() + i && &a.at(i) == a.data() + i &&
                  &c.at(i) == a.data() + i,
        "access " << i);
    VP_THROWS(std::out_of_range, a.at(over), "at(" << over << ")");
    VP_THROWS(std::out_of_range, c.at(over), "const at(" << over << ")");
    VP_EQ(A::size(), N, "size");
    VP_EQ(A::capacity(), N, "capacity");
    VP_EQ(A::max_size(), N, "max_size");
    VP_EQ(A::empty(), false, "empty");
    std::ostringstream got, want;
    got << a;
    want << "(";
    for(auto v : x)
      want << " " << v;
    want << " )";
    VP_EQ(got.str(), want.str(), "printed form");
    if constexpr(N == 3) {
      A v(x[0], x[1], x[2]);
      each(v, [&](std::size_t i) { return x[i]; }, "construct from N values");
      A w{x[0], x[1], x[2]};
      each(w, [&](std::size_t i) { return x[i]; }, "construct from {N values}");
      w.assign({x[2], x[0], x[1]});
      each(w, [&](std::size_t i) { return x[(i + 2) % 3]; }, "assign({...})");
    }
    if constexpr(N == 2) {
      A v(x[0], x[1]);
      each(v, [&](std::size_t i) { return x[i]; }, "construct from N values");
    }
  });
}

// multi_array only: row-major addressing
template<class T>
void multi_only() {
  auto i = *vp::range<std::size_t>(0, 1);
  auto j = *vp::range<std::size_t>(0, 2);
  auto k = *vp::range<std::size_t>(0, 3);
  auto l = *vp::range<std::size_t>(0, 4);
  auto x = *vp::vec<T>(120, value<T>());
  auto bad = *vp::range(0, 3);
  auto by = *vp::range<std::size_t>(0, 3);
  auto far = *vp::range<std::size_t>(0, 139999);
  VP_CASE(i + j + k + l > 0, "index " << i << "," << j << "," << k << "," << l << " bad="
                                      << bad << "+" << by);
  vp::run([&] {
    multi_array<T, 2, 3, 4, 5> m;
    m.assign(x.begin(), x.end());
    const auto & cm = m;
    std::size_t f = ((i * 3 + j) * 4 + k) * 5 + l;
    VP_ASSERT(&m(i, j, k, l) == m.data() + f, "operator() addresses the wrong element");
    VP_ASSERT(&cm(i, j, k, l) == m.data() + f, "const operator()");
    VP_ASSERT(&m.at(i, j, k, l) == m.data() + f && &cm.at(i, j, k, l) == m.data() + f, "at()");
    std::size_t ids[4] = {i, j, k, l};
    VP_ASSERT(&m[ids] == m.data() + f && &cm[ids] == m.data() + f, "operator[]({..})");
    VP_EQ(m.element(ids), f, "element({..})");
    VP_EQ(m.element(i, j, k, l), f, "element(..)");
    std::size_t dims[4] = {2, 3, 4, 5}, str[4] = {60, 20, 5, 1};
    for(int q = 0; q < 4; ++q) {
      VP_EQ(m.shape()[q], dims[q], "shape " << q);
      VP_EQ(m.strides()[q], str[q], "stride " << q);
    }
    VP_EQ(m.size(), std::size_t(120), "size");
    VP_EQ(m.num_elements(), std::size_t(120), "num_elements");
    VP_EQ(m.num_dimensions(), std::size_t(4), "num_dimensions");
    std::size_t b[4] = {i, j, k, l};
    b[bad] = dims[bad] + by;
    VP_THROWS(std::out_of_range, m.at(b[0], b[1], b[2], b[3]), "at() out of range");
    VP_THROWS(std::out_of_range, cm.at(b[0], b[1], b[2], b[3]), "const at() out of range");
    // signed indices: the negative ones are outside
    long g[4] = {long(i), long(j), long(k), long(l)};
    VP_ASSERT(&m.at(int(i), short(j), long(k), int(l)) == m.data() + f && &m(int(i), short(j), long(k), int(l)) == m.data() + f, "signed indices");
    g[bad] = -1 - long(by);
    VP_THROWS(std::out_of_range, m.at(g[0], g[1], g[2], g[3]), "at() with a negative index");
    VP_THROWS(std::out_of_range, cm.at(int(g[0]), int(g[1]), int(g[2]), int(g[3])), "const at() with a negative index");
    // other ranks
    multi_array<T, 3, 2> p;
    p.assign(x.begin(), x.begin() + 6);
    VP_ASSERT(&p(j, i) == p.data() + 2 * j + i, "matrix operator()");
    VP_ASSERT(&p.at(j, i) == p.data() + 2 * j + i, "matrix at()");
    VP_THROWS(std::out_of_range, p.at(3 + by, i), "matrix at(): row");
    VP_THROWS(std::out_of_range, p.at(j, 2 + by), "matrix at(): column");
    multi_array<T, 7> v;
    v.assign(x.begin(), x.begin() + 7);
    VP_ASSERT(&v(k) == v.data() + k && &v.at(k) == v.data() + k, "vector access");
    VP_THROWS(std::out_of_range, v.at(7 + by), "vector at()");
    multi_array<T, 3, 2, 4> t;
    VP_ASSERT(&t(j, i, k) == t.data() + 8 * j + 4 * i + k, "rank-3 operator()");
    // more elements than small integer types count
    static multi_array<signed char, 70, 40, 50> big;
    std::size_t bi = far % 70, bj = far / 70 % 40, bk = far / 2800, bf = (bi * 40 + bj) * 50 + bk;
    VP_ASSERT(&big(bi, bj, bk) == big.data() + bf && &big.at(bi, bj, bk) == big.data() + bf, "big array access");
    VP_EQ(big.element(bi, bj, bk), bf, "big array element()");
    std::size_t bx[3] = {bi, bj, bk};
    VP_ASSERT(&big[bx] == big.data() + bf && &big[bf] == big.data() + bf, "big array operator[]");
    VP_EQ(big.size(), std::size_t(140000), "big array size");
    static signed char mark = 0;
    big = ++mark;
    VP_ASSERT(big[bf] == mark && *(big.end() - 1) == mark && big.back() == mark, "big array assignment");
    big += big;
    VP_ASSERT(big[bf] == (signed char)(2 * mark), "big array addition");
    // construction
    multi_array<T, 2, 2> w(x[0]);
    each(w, [&](std::size_t) { return x[0]; }, "construct from one value");
    multi_array<T, 2, 2> u{x[0], x[1], x[2], x[3]};
    each(u, [&](std::size_t q) { return x[q]; }, "construct from a list");
    multi_array<T, 2, 2> one{x[5]};
    each(one, [&](std::size_t) { return x[5]; }, "construct from a one-element list");
    u.assign({x[3], x[2], x[1], x[0]});
    each(u, [&](std::size_t q) { return x[3 - q]; }, "assign({...})");
  });
}
} // namespace

#ifdef PART1
VP_INST("array_double_3", 900, algebra<array<double, 3>, array<int, 3>>);
VP_INST("array_double_1", 200, algebra<array<double, 1>, array<float, 1>>);
VP_INST("array_int_2", 900, algebra<array<int, 2>, array<long, 2>>);
VP_INST("array_float_5", 600, algebra<array<float, 5>, array<int, 5>>);
#endif
#ifdef PART2
VP_INST("array_long_4", 700, algebra<array<long, 4>, array<short, 4>>);
VP_INST("array_double_17", 300, algebra<array<double, 17>, array<long, 17>>);
VP_INST("array_int_300", 15, algebra<array<int, 300>, array<long, 300>>);
VP_INST("array_access_double_3", 500, array_only<double, 3>);
VP_INST("array_access_int_2", 400, array_only<int, 2>);
VP_INST("array_access_int_9", 300, array_only<int, 9>);
#endif
#ifdef PART3
VP_INST("multi_double_2_3", 900, algebra<multi_array<double, 2, 3>, multi_array<float, 2, 3>>);
VP_INST("multi_int_3_2_2", 700, algebra<multi_array<int, 3, 2, 2>, multi_array<long, 3, 2, 2>>);
VP_INST("multi_double_4", 500, algebra<multi_array<double, 4>, multi_array<int, 4>>);
VP_INST("multi_float_17_20", 15, algebra<multi_array<float, 17, 20>, multi_array<int, 17, 20>>);
VP_INST("multi_access_double", 900, multi_only<double>);
VP_INST("multi_access_int", 500, multi_only<int>);
#endif

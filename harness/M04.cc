// M04: tuple arithmetic works component by component.
#include "vp.h"
#include <sstream>
#include <tuple>
#include "ristra/math/array.h"
#include "ristra/math/tuple.h"
#include "ristra/utils/functional.h"
#include "ristra/utils/template_helpers.h"
using namespace ristra::math;
using Tup = std::tuple<int, double, long, double>;

namespace {
template<class F>
Tup zip2(const Tup & a, const Tup & b, F f) {
  return Tup(f(std::get<0>(a), std::get<0>(b)), f(std::get<1>(a), std::get<1>(b)),
    f(std::get<2>(a), std::get<2>(b)), f(std::get<3>(a), std::get<3>(b)));
}
template<class F>
Tup map1(const Tup & a, F f) {
  return Tup(f(std::get<0>(a)), f(std::get<1>(a)), f(std::get<2>(a)), f(std::get<3>(a)));
}
std::string show(const Tup & t) {
  std::ostringstream os;
  os << std::get<0>(t) << "," << std::get<1>(t) << "," << std::get<2>(t) << "," << std::get<3>(t);
  return os.str();
}
void same(const Tup & got, const Tup & want, const char * w) {
  VP_ASSERT(got == want, w << ": got (" << show(got) << "), expected (" << show(want) << ")");
}
rc::Gen<Tup> tup(bool nonzero) {
  return rc::gen::exec([=] {
    auto nz = [&](int k) { return nonzero && k == 0 ? 3 : k; };
    const double u = *vp::scale(100);
    int a = nz(*vp::range(-50, 50));
    long c = nz(*vp::range(-50, 50));
    if(*vp::range(0, 3) == 0) { // other magnitudes
      a *= 601;
      c *= nonzero ? 50001 : 60000000011;
    }
    double b = u * nz(*vp::range(-400, 400)) / 8.0, d = nz(*vp::range(-400, 400)) / 8.0;
    return Tup(a, b, c, d);
  });
}
} // namespace

VP_PROP(arithmetic, 6000) {
  auto x = *tup(false);
  auto y = *tup(true);
  auto s = *vp::range(1, 30);
  if(*vp::coin())
    s = -s;
  double w = *vp::range(1, 240) / 8.0; // a scalar of another type than some components
  if(*vp::coin())
    w = -w;
  VP_CASE(x != y, "x=" << show(x) << " y=" << show(y) << " s=" << s << " w=" << w);
  vp::run([&] {
    const Tup x0 = x, y0 = y;
    auto add = [](auto a, auto b) { return a + b; };
    auto sub = [](auto a, auto b) { return a - b; };
    auto mul = [](auto a, auto b) { return a * b; };
    auto div = [](auto a, auto b) { return a / b; };
    same(x + y, zip2(x, y, add), "x+y");
    same(x - y, zip2(x, y, sub), "x-y");
    same(x * y, zip2(x, y, mul), "x*y");
    same(x / y, zip2(x, y, div), "x/y");
    same(x + s, map1(x, [&](auto a) { return a + s; }), "x+s");
    same(x - s, map1(x, [&](auto a) { return a - s; }), "x-s");
    same(x * s, map1(x, [&](auto a) { return a * s; }), "x*s");
    same(x / s, map1(x, [&](auto a) { return a / s; }), "x/s");
    same(s + x, map1(x, [&](auto a) { return s + a; }), "s+x");
    same(s - x, map1(x, [&](auto a) { return s - a; }), "s-x");
    same(s * x, map1(x, [&](auto a) { return s * a; }), "s*x");
    same(s / y, map1(y, [&](auto a) { return s / a; }), "s/y");
    same(x + w, map1(x, [&](auto a) { return a + w; }), "x+real");
    same(x - w, map1(x, [&](auto a) { return a - w; }), "x-real");
    same(x * w, map1(x, [&](auto a) { return a * w; }), "x*real");
    same(x / w, map1(x, [&](auto a) { return a / w; }), "x/real");
    same(w + x, map1(x, [&](auto a) { return w + a; }), "real+x");
    same(w - x, map1(x, [&](auto a) { return w - a; }), "real-x");
    same(w * x, map1(x, [&](auto a) { return w * a; }), "real*x");
    same(w / y, map1(y, [&](auto a) { return w / a; }), "real/y");
    Tup t = x;
    plus_equal(t, w);
    same(t, map1(x, [&](auto a) { return a + w; }), "plus_equal(x,real)");
    t = x;
    minus_equal(t, w);
    same(t, map1(x, [&](auto a) { return a - w; }), "minus_equal(x,real)");
    t = x;
    multiplies_equal(t, w);
    same(t, map1(x, [&](auto a) { return a * w; }), "multiplies_equal(x,real)");
    t = x;
    divides_equal(t, w);
    same(t, map1(x, [&](auto a) { return a / w; }), "divides_equal(x,real)");
    t = x;
    plus_equal(t, y);
    same(t, zip2(x, y, add), "plus_equal(x,y)");
    t = x;
    minus_equal(t, y);
    same(t, zip2(x, y, sub), "minus_equal(x,y)");
    t = x;
    multiplies_equal(t, y);
    same(t, zip2(x, y, mul), "multiplies_equal(x,y)");
    t = x;
    divides_equal(t, y);
    same(t, zip2(x, y, div), "divides_equal(x,y)");
    t = x;
    plus_equal(t, s);
    same(t, map1(x, [&](auto a) { return a + s; }), "plus_equal(x,s)");
    t = x;
    minus_equal(t, s);
    same(t, map1(x, [&](auto a) { return a - s; }), "minus_equal(x,s)");
    t = x;
    multiplies_equal(t, s);
    same(t, map1(x, [&](auto a) { return a * s; }), "multiplies_equal(x,s)");
    t = x;
    divides_equal(t, s);
    same(t, map1(x, [&](auto a) { return a / s; }), "divides_equal(x,s)");
    t = x;
    plus_equal(t, t);
    same(t, zip2(x, x, add), "plus_equal(x,x)");
    fill(t, s);
    same(t, Tup(s, s, s, s), "fill");
    VP_ASSERT(x == x0 && y == y0, "an operand changed");
    std::ostringstream got, want;
    ristra::math::operator<<(got, x);
    want << "{ [ " << std::get<0>(x) << " ] [ " << std::get<1>(x) << " ] [ " << std::get<2>(x)
         << " ] [ " << std::get<3>(x) << " ] }";
    VP_EQ(got.str(), want.str(), "printed form");
  });
}
VP_PROP(nested_arrays, 2000) {
  auto v = *vp::vec<int>(6, vp::range(-90, 90));
  auto s = *vp::range(-9, 9);
  VP_CASE(v[0] != v[3], "v=" << vp::str(v) << " s=" << s);
  vp::run([&] {
    using A = array<double, 2>;
    using T = std::tuple<A, int>;
    T x(A(v[0], v[1]), v[2]), y(A(v[3], v[4]), v[5]);
    auto chk = [&](const T & t, double a, double b, int c, const char * w) {
      VP_ASSERT(std::get<0>(t)[0] == a && std::get<0>(t)[1] == b && std::get<1>(t) == c, w);
    };
    chk(x + y, v[0] + v[3], v[1] + v[4], v[2] + v[5], "x+y");
    chk(x - y, v[0] - v[3], v[1] - v[4], v[2] - v[5], "x-y");
    chk(x * s, v[0] * s, v[1] * s, v[2] * s, "x*s");
    chk(s * x, v[0] * s, v[1] * s, v[2] * s, "s*x");
    plus_equal(x, y);
    chk(x, v[0] + v[3], v[1] + v[4], v[2] + v[5], "plus_equal");
  });
}
VP_PROP(single, 500) {
  auto a = *vp::range(-90, 90);
  auto b = *vp::range(1, 90);
  VP_CASE(a != b, "a=" << a << " b=" << b);
  vp::run([&] {
    std::tuple<int> x(a), y(b);
    VP_EQ(std::get<0>(x + y), a + b, "x+y");
    VP_EQ(std::get<0>(x - y), a - b, "x-y");
    VP_EQ(std::get<0>(x * y), a * b, "x*y");
    VP_EQ(std::get<0>(x / y), a / b, "x/y");
    namespace ru = ristra::utils;
    VP_EQ(ru::plus(a, b), a + b, "plus");
    VP_EQ(ru::minus(a, b), a - b, "minus");
    VP_EQ(ru::multiplies(a, b), a * b, "multiplies");
    VP_EQ(ru::divides(a, b), a / b, "divides");
    VP_EQ(ru::multiply(a, b, 3), a * b * 3, "product of a list");
    VP_EQ(ru::multiply(a), a, "product of one");
    auto arr = ru::make_array<int, 5>(a);
    for(int q : arr)
      VP_EQ(q, a, "make_array");
    int lv = a;
    auto t = ru::ctie(lv, b);
    std::get<0>(t) = 7;
    VP_ASSERT(lv == 7 && &std::get<1>(t) == &b, "ctie");
  });
}

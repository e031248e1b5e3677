// E02: quadrature rules integrate polynomials exactly.
#include "vp.h"
#include <set>
#include <algorithm>
#include <cmath>
#include "ristra/elements/elements.h"
namespace el = ristra::elements;
using LD = long double;
using V = std::vector<double>;
using VV = std::vector<V>;

namespace {
LD integral(const std::vector<LD> & c) { // over [-1,1]
  LD r = 0;
  for(std::size_t k = 0; k < c.size(); k += 2)
    r += c[k] * 2 / LD(k + 1);
  return r;
}
LD eval(const std::vector<LD> & c, LD x) {
  LD r = 0;
  for(std::size_t k = c.size(); k-- > 0;)
    r = r * x + c[k];
  return r;
}
int degree(bool gauss, int p) { return gauss ? 2 * p - 1 : p == 1 ? 1 : 2 * p - 3; }
rc::Gen<std::vector<int>> poly(int deg) { // a monomial (small norm: sharp tolerance) or a full polynomial
  return rc::gen::oneOf(vp::vec<int>(deg + 1, vp::range(-9, 9)), rc::gen::map(vp::range(0, deg), [](int k) {
    std::vector<int> c(k + 1, 0);
    c[k] = 1;
    return c;
  }));
}
std::vector<LD> ld(const std::vector<int> & v) { return std::vector<LD>(v.begin(), v.end()); }
LD norm(const std::vector<int> & v) {
  LD r = 1;
  for(int k : v)
    r += std::abs(k);
  return r;
}
} // namespace

VP_PROP(line, 300) {
  bool gauss = *vp::coin();
  int p = *vp::range(1, 8);
  auto c = *poly(degree(gauss, p));
  VP_CASE(p > 1, (gauss ? "gauss" : "lobatto") << " p=" << p << " poly=" << vp::str(c));
  vp::run([&] {
    LD sum = 0;
    V xs;
    for(int k = 1; k <= p; ++k) {
      double x = 77, w = 77;
      int m = k, q = p;
      gauss ? el::LineGaussRuleInfo(x, w, m, q) : el::LineLobattoRuleInfo(x, w, m, q);
      VP_EQ(q, p, "the order was changed");
      VP_ASSERT(w > 0, "weight " << w);
      VP_ASSERT(std::abs(x) <= 1, "point " << x);
      sum += LD(w) * eval(ld(c), x);
      xs.push_back(x);
    }
    VP_NEAR(double(sum), double(integral(ld(c))), 4e-15 * double(norm(c)), "integral");
    std::sort(xs.begin(), xs.end());
    for(std::size_t i = 0; i < xs.size(); ++i) {
      VP_NEAR(xs[i], -xs[xs.size() - 1 - i], 1e-15, "symmetric points");
      if(i)
        VP_ASSERT(xs[i] > xs[i - 1], "repeated point " << xs[i]);
    }
    if(!gauss && p > 1)
      VP_EQ(xs.front(), -1.0, "Lobatto rules contain the end points");
  });
}
// tensor rules: exact on products of polynomials, each of full degree
template<int DIM, bool GAUSS>
void tensor() {
  int p = DIM < 4 || *vp::range(0, 3) == 0 ? *vp::range(1, 8) : *vp::range(1, 4);
  std::vector<std::vector<int>> c;
  for(int d = 0; d < DIM; ++d)
    c.push_back(*poly(degree(GAUSS, p)));
  double junk = *vp::dyadic(100, 4);
  VP_CASE(p > 1, "p=" << p << " polys=" << vp::str(c));
  vp::run([&] {
    int n = 1;
    for(int d = 0; d < DIM; ++d)
      n *= p;
    VV pts(n, V(DIM, junk)), w(n, V(DIM, junk));
    V tot(n, junk);
    int order = p;
    const int dim = DIM;
    if constexpr(GAUSS && DIM == 2)
      el::Gauss2D(pts, w, tot, order);
    else if constexpr(GAUSS && DIM == 3)
      el::Gauss3D(pts, w, tot, order);
    else if constexpr(GAUSS)
      el::Gauss4D(pts, w, order, dim);
    else if constexpr(DIM == 2)
      el::Lobatto2D(pts, w, order);
    else if constexpr(DIM == 3)
      el::Lobatto3D(pts, w, order);
    else
      el::Lobatto4D(pts, w, order, dim);
    VP_EQ(order, p, "the order was changed");
    VP_EQ(int(pts.size()), n, "number of points");
    LD sum = 0, want = 1, nrm = 1, one = 0;
    for(int i = 0; i < n; ++i) {
      VP_EQ(int(w[i].size()), DIM, "weights per point");
      LD f = 1, ww = 1;
      for(int d = 0; d < DIM; ++d) {
        f *= eval(ld(c[d]), pts[i][d]);
        ww *= w[i][d];
        VP_ASSERT(std::abs(pts[i][d]) <= 1 && w[i][d] > 0, "point " << i << " outside or weight not positive");
        // the factors belong to the coordinate they stand with
        bool found = false;
        for(int k = 1; k <= p; ++k) {
          double x, y;
          int m = k, q = p;
          GAUSS ? el::LineGaussRuleInfo(x, y, m, q) : el::LineLobattoRuleInfo(x, y, m, q);
          found |= x == pts[i][d] && y == w[i][d];
        }
        VP_ASSERT(found, "point " << i << " direction " << d << " is no pair of the line rule");
      }
      if(GAUSS && DIM < 4)
        VP_NEAR(tot[i], double(ww), 1e-15, "total weight of point " << i);
      sum += ww * f;
      one += ww;
    }
    for(int d = 0; d < DIM; ++d) {
      want *= integral(ld(c[d]));
      nrm *= norm(c[d]);
    }
    VP_NEAR(double(one), double(1 << DIM), 1e-12, "the weights add up to the volume of the reference element");
    VP_NEAR(double(sum), double(want), 4e-14 * double(nrm), "integral");
    VP_EQ(std::set<V>(pts.begin(), pts.end()).size(), std::size_t(n), "number of different points");
  });
}
VP_INST("gauss2", 60, tensor<2, true>);
VP_INST("gauss3", 40, tensor<3, true>);
VP_INST("gauss4", 20, tensor<4, true>);
VP_INST("lobatto2", 60, tensor<2, false>);
VP_INST("lobatto3", 40, tensor<3, false>);
VP_INST("lobatto4", 20, tensor<4, false>);

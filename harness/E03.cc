// E03: Jacobians, their determinants and inverses.
#include "vp.h"
#include <algorithm>
#include <cmath>
#include <memory>
#include "ristra/elements/elements.h"
namespace el = ristra::elements;
using LD = long double;
using V = std::vector<double>;
using VV = std::vector<V>;
using VL = std::vector<std::vector<LD>>;

namespace {
LD det(const VL & a) { // Laplace expansion
  std::size_t n = a.size();
  if(n == 1)
    return a[0][0];
  LD r = 0;
  for(std::size_t c = 0; c < n; ++c) {
    VL m;
    for(std::size_t i = 1; i < n; ++i) {
      m.emplace_back();
      for(std::size_t j = 0; j < n; ++j)
        if(j != c)
          m.back().push_back(a[i][j]);
    }
    r += (c % 2 ? -1 : 1) * a[0][c] * det(m);
  }
  return r;
}
LD permanent(const VL & a) { // of absolute values: the scale of the rounding error
  std::size_t n = a.size();
  std::vector<std::size_t> p(n);
  for(std::size_t i = 0; i < n; ++i)
    p[i] = i;
  LD r = 0;
  do {
    LD t = 1;
    for(std::size_t i = 0; i < n; ++i)
      t *= std::abs(a[i][p[i]]);
    r += t;
  } while(std::next_permutation(p.begin(), p.end()));
  return r;
}
VV split(const V & flat, std::size_t dim) {
  VV r;
  for(std::size_t i = 0; i + dim <= flat.size(); i += dim)
    r.emplace_back(flat.begin() + i, flat.begin() + i + dim);
  return r;
}
VL ld(const VV & a) {
  VL r;
  for(auto & x : a)
    r.emplace_back(x.begin(), x.end());
  return r;
}
rc::Gen<double> entry() {
  return rc::gen::weightedOneOf<double>(
    {{4, vp::dyadic(64, 8)}, {2, vp::real(-8, 8)}, {1, rc::gen::element(0.0, 1.0, -1.0)}});
}
// J[j][k] = sum over nodes of vertex coordinate k times partial j
template<int DIM>
void jacobian() {
  int n = *vp::range(1, 33);
  auto fv = vp::times(*vp::scale(), *vp::vec<double>(n * DIM, entry()));
  auto fp = vp::times(*vp::scale(60), *vp::vec<double>(n * DIM, entry()));
  int extra = *vp::range(0, 2); // more vertices than nodes asked for
  double junk = *vp::dyadic(100, 4);
  VP_CASE(n >= DIM, "nodes=" << n << " vertices=" << vp::str(V(fv.begin(), fv.begin() + DIM)) << "... partials="
                             << vp::str(V(fp.begin(), fp.begin() + DIM)) << "...");
  vp::run([&] {
    VV vert = split(fv, DIM), part = split(fp, DIM);
    for(int i = 0; i < extra; ++i)
      vert.push_back(V(DIM, 1e9)), part.push_back(V(DIM, 1e9));
    const VV v0 = vert, p0 = part;
    VV j(DIM, V(DIM, junk));
    double d = junk;
    const int nn = n, dim = DIM;
    DIM == 4 ? el::jacobian4D(j, d, vert, part, nn, dim) : el::jacobian(j, d, vert, part, nn, dim);
    for(int a = 0; a < DIM; ++a)
      for(int b = 0; b < DIM; ++b) {
        LD want = 0, sc = 0;
        for(int i = 0; i < n; ++i) {
          want += LD(vert[i][b]) * part[i][a];
          sc += std::abs(LD(vert[i][b]) * part[i][a]);
        }
        VP_NEAR(j[a][b], double(want), 1e-15 * n * double(sc), "entry " << a << "," << b);
      }
    VP_NEAR(d, double(det(ld(j))), 4e-15 * double(permanent(ld(j))), "determinant of " << vp::str(j));
    VP_ASSERT(vert == v0 && part == p0, "the operands were changed");
  });
}
// the inverse of any well-conditioned matrix
template<int DIM>
void inverse() {
  auto flat = vp::times(*vp::scale(), *vp::vec<double>(DIM * DIM, entry()));
  double junk = *vp::dyadic(100, 4);
  VV a = split(flat, DIM);
  LD d = det(ld(a)), sc = permanent(ld(a));
  bool good = std::abs(d) > 1e-3L * sc && sc > 0;
  bool asym = false;
  for(int i = 0; i < DIM; ++i)
    for(int j = 0; j < i; ++j)
      asym |= a[i][j] != a[j][i];
  VP_CASE(good && asym, "J=" << vp::str(a));
  if(!good) {
    vp::tag("singular, skipped");
    return;
  }
  vp::run([&] {
    VV inv(DIM, V(DIM, junk));
    const VV a0 = a;
    if(DIM == 2)
      el::jacobian_inverse_2d(inv, a);
    else if(DIM == 3)
      el::jacobian_inverse_3d(inv, a);
    else {
      const double dd = double(d);
      el::jacobian_inverse_4d(inv, a, dd);
    }
    VP_ASSERT(a == a0, "the jacobian was changed");
    VP_EQ(inv.size(), std::size_t(DIM), "rows of the inverse");
    // cofactors: inv[i][j] = minor(j,i)/det
    for(int i = 0; i < DIM; ++i) {
      VP_EQ(inv[i].size(), std::size_t(DIM), "columns of the inverse");
      for(int j = 0; j < DIM; ++j) {
        VL m;
        for(int r = 0; r < DIM; ++r)
          if(r != j) {
            m.emplace_back();
            for(int c = 0; c < DIM; ++c)
              if(c != i)
                m.back().push_back(a[r][c]);
          }
        LD want = ((i + j) % 2 ? -1 : 1) * det(m) / d;
        // rounding of the minor and of the determinant (at most 1e3 of relative condition)
        LD tol = 1e-14L * (permanent(m) + std::abs(det(m)) * sc / std::abs(d)) / std::abs(d);
        VP_NEAR(inv[i][j], double(want), double(tol), "entry " << i << "," << j << " of the inverse");
      }
    }
  });
}
// the Jacobian of an element is the derivative of its mapping
template<class E, int N, int DIM>
void mapping() {
  const double u = *vp::scale();
  auto flat = vp::times(u, *vp::vec<double>(N * DIM, vp::dyadic(64, 8)));
  auto p = *vp::vec<double>(DIM, vp::real(-1, 1));
  VP_CASE(true, "point=" << vp::str(p) << " vertices=" << vp::str(V(flat.begin(), flat.begin() + DIM)) << "...");
  vp::run([&] {
    VV vert = split(flat, DIM);
    std::unique_ptr<E> e(new E);
    VV part(N, V(DIM, 0));
    for(int d = 0; d < DIM; ++d) {
      V q(N, 9.);
      if(d == 0)
        e->partial_xi_shape_fcn(q, p);
      else if(d == 1)
        e->partial_eta_shape_fcn(q, p);
      if constexpr(DIM > 2)
        if(d == 2)
          e->partial_mu_shape_fcn(q, p);
      if constexpr(DIM > 3)
        if(d == 3)
          e->partial_tau_shape_fcn(q, p);
      for(int i = 0; i < N; ++i)
        part[i][d] = q[i];
    }
    VV j(DIM, V(DIM, 9.));
    double dj;
    const int nn = N, dim = DIM;
    DIM == 4 ? el::jacobian4D(j, dj, vert, part, nn, dim) : el::jacobian(j, dj, vert, part, nn, dim);
    // the mapping is a polynomial of degree <= 6 along a line: a seven-point
    // derivative formula is exact up to rounding
    const double w[3] = {3. / 4, -3. / 20, 1. / 60}, h = 0.25;
    for(int d = 0; d < DIM; ++d) {
      std::vector<LD> der(DIM, 0);
      for(int k = 1; k <= 3; ++k)
        for(int s = -1; s <= 1; s += 2) {
          V q = p, x(DIM, 5.);
          q[d] += s * k * h;
          e->physical_position(x, q, vert);
          for(int c = 0; c < DIM; ++c)
            der[c] += s * w[k - 1] * x[c] / h;
        }
      for(int c = 0; c < DIM; ++c)
        VP_NEAR(j[d][c], double(der[c]), 1e-10 * u, "d x" << c << " / d xi" << d);
    }
  });
}
} // namespace
VP_INST("jacobian2", 150, jacobian<2>);
VP_INST("jacobian3", 150, jacobian<3>);
VP_INST("jacobian4", 150, jacobian<4>);
VP_INST("inverse2", 300, inverse<2>);
VP_INST("inverse3", 300, inverse<3>);
VP_INST("inverse4", 300, inverse<4>);
VP_INST("map_quad4", 30, mapping<el::Quad_4_2D, 4, 2>);
VP_INST("map_quad8", 30, mapping<el::Quad_8_2D, 8, 2>);
VP_INST("map_quad12", 30, mapping<el::Quad_12_2D, 12, 2>);
VP_INST("map_hex8", 30, mapping<el::Hex8, 8, 3>);
VP_INST("map_hex20", 30, mapping<el::Hex20, 20, 3>);
VP_INST("map_hex32", 30, mapping<el::Hex32, 32, 3>);
VP_INST("map_tess16", 30, mapping<el::Tess16, 16, 4>);

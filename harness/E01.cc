// E01: finite element basis functions.  The oracle solves for the serendipity
// basis from its function space and node positions in long double, and uses
// the product form for Lagrange elements.
#include "vp.h"
#include <cmath>
#include <iostream>
#include <memory>
#include "ristra/elements/elements.h"
namespace el = ristra::elements;
using LD = long double;
using V = std::vector<double>;
using VV = std::vector<V>;

namespace {
constexpr LD third = 1.0L / 3;
// node positions, from the numbering drawn in the documentation
struct Space {
  int dim;
  std::vector<std::vector<LD>> nodes;
  std::vector<std::vector<int>> mono; // exponents
  std::vector<std::vector<LD>> coef; // coef[node][monomial]
  Space(int d, int order, std::vector<std::vector<LD>> n) : dim(d), nodes(std::move(n)) {
    std::vector<int> e(d, 0);
    for(;;) {
      int super = 0; // degree, not counting variables that enter linearly
      for(int k : e)
        if(k > 1)
          super += k;
      if(super <= order)
        mono.push_back(e);
      int i = 0;
      while(i < d && e[i] == std::max(order, 1))
        e[i++] = 0;
      if(i == d)
        break;
      ++e[i];
    }
    std::size_t m = nodes.size();
    if(mono.size() != m)
      std::abort();
    // rows: nodes, columns: monomials; invert
    std::vector<std::vector<LD>> a(m, std::vector<LD>(2 * m, 0));
    for(std::size_t r = 0; r < m; ++r) {
      for(std::size_t c = 0; c < m; ++c)
        a[r][c] = term(c, nodes[r]);
      a[r][m + r] = 1;
    }
    for(std::size_t c = 0; c < m; ++c) {
      std::size_t p = c;
      for(std::size_t r = c; r < m; ++r)
        if(std::abs(a[r][c]) > std::abs(a[p][c]))
          p = r;
      std::swap(a[p], a[c]);
      LD f = a[c][c];
      for(auto & x : a[c])
        x /= f;
      for(std::size_t r = 0; r < m; ++r)
        if(r != c) {
          LD g = a[r][c];
          for(std::size_t k = 0; k < 2 * m; ++k)
            a[r][k] -= g * a[c][k];
        }
    }
    coef.assign(m, std::vector<LD>(m));
    for(std::size_t n = 0; n < m; ++n)
      for(std::size_t c = 0; c < m; ++c)
        coef[n][c] = a[c][m + n];
  }
  LD term(std::size_t c, const std::vector<LD> & x, int diff = -1) const {
    LD r = 1;
    for(int d = 0; d < dim; ++d) {
      int k = mono[c][d];
      if(d == diff) {
        if(k == 0)
          return 0;
        r *= k;
        --k;
      }
      for(int i = 0; i < k; ++i)
        r *= x[d];
    }
    return r;
  }
  LD value(std::size_t node, const std::vector<LD> & x, int diff = -1) const {
    LD r = 0;
    for(std::size_t c = 0; c < mono.size(); ++c)
      r += coef[node][c] * term(c, x, diff);
    return r;
  }
};
const std::vector<std::vector<LD>> quad4 = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}};
std::vector<std::vector<LD>> plus(std::vector<std::vector<LD>> a, const std::vector<std::vector<LD>> & b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
const std::vector<std::vector<LD>> hex8 = {{-1, -1, -1}, {1, -1, -1}, {1, -1, 1}, {-1, -1, 1},
  {-1, 1, -1}, {1, 1, -1}, {1, 1, 1}, {-1, 1, 1}};
std::vector<std::vector<LD>> tess() {
  std::vector<std::vector<LD>> r;
  for(int t = -1; t <= 1; t += 2)
    for(auto n : hex8) {
      n.push_back(t);
      r.push_back(n);
    }
  return r;
}
struct Quad4 {
  using E = el::Quad_4_2D;
  static Space make() { return Space(2, 1, quad4); }
};
struct Quad8 {
  using E = el::Quad_8_2D;
  static Space make() { return Space(2, 2, plus(quad4, {{0, -1}, {1, 0}, {0, 1}, {-1, 0}})); }
};
struct Quad12 {
  using E = el::Quad_12_2D;
  static Space make() {
    return Space(2, 3,
      plus(quad4, {{-third, -1}, {third, -1}, {third, 1}, {-third, 1}, {-1, -third}, {1, -third},
                    {1, third}, {-1, third}}));
  }
};
struct Hex8 {
  using E = el::Hex8;
  static Space make() { return Space(3, 1, hex8); }
};
struct Hex20 {
  using E = el::Hex20;
  static Space make() {
    return Space(3, 2,
      plus(hex8, {{0, -1, -1}, {1, -1, 0}, {0, -1, 1}, {-1, -1, 0}, {0, 1, -1}, {1, 1, 0}, {0, 1, 1},
                   {-1, 1, 0}, {-1, 0, -1}, {1, 0, -1}, {1, 0, 1}, {-1, 0, 1}}));
  }
};
struct Hex32 {
  using E = el::Hex32;
  static Space make() {
    const LD t = third;
    return Space(3, 3,
      plus(hex8, {{-1, -1, -t}, {1, -1, -t}, {1, -1, t}, {-1, -1, t}, {-1, 1, -t}, {1, 1, -t},
                   {1, 1, t}, {-1, 1, t}, {-t, -1, -1}, {t, -1, -1}, {t, -1, 1}, {-t, -1, 1},
                   {-t, 1, -1}, {t, 1, -1}, {t, 1, 1}, {-t, 1, 1}, {-1, -t, -1}, {1, -t, -1},
                   {1, -t, 1}, {-1, -t, 1}, {-1, t, -1}, {1, t, -1}, {1, t, 1}, {-1, t, 1}}));
  }
};
struct Tess16 {
  using E = el::Tess16;
  static Space make() { return Space(4, 1, tess()); }
};
rc::Gen<double> coord() {
  return rc::gen::weightedOneOf<double>({{5, vp::real(-1, 1)},
    {2, rc::gen::element(-1.0, 1.0, 0.0, 1.0 / 3, -1.0 / 3, 0.5)}, {1, vp::real(-2, 2)}});
}
VV split(const V & flat, std::size_t dim) {
  VV r;
  for(std::size_t i = 0; i + dim <= flat.size(); i += dim)
    r.emplace_back(flat.begin() + i, flat.begin() + i + dim);
  return r;
}

template<class T>
void element() {
  static const Space s = T::make();
  using E = typename T::E;
  std::size_t n = s.nodes.size(), dim = s.dim;
  // several points through one object: no call may depend on an earlier one
  auto pts = *rc::gen::resize(3, rc::gen::nonEmpty(rc::gen::container<VV>(vp::vec<double>(dim, coord()))));
  int at = *vp::range<int>(-1, 2 * int(n)); // half the time also a node
  const double u = *vp::scale();
  auto flat = vp::times(u, *vp::vec<double>(n * dim, vp::real(-8, 8)));
  bool distort = *vp::range(0, 3) != 0;
  double junk = *vp::dyadic(100, 4);
  if(at >= 0 && at < int(n)) {
    V p(dim);
    for(std::size_t d = 0; d < dim; ++d)
      p[d] = double(s.nodes[at][d]);
    pts.push_back(p);
    vp::tag("at a node");
  }
  if(!distort) // affine image of the reference nodes
    for(std::size_t v = 0; v < n; ++v)
      for(std::size_t d = 0; d < dim; ++d)
        flat[v * dim + d] = u * (double(s.nodes[v][d]) * (2 + d) + double(d));
  VP_CASE(pts.size() > 1 && distort, "points=" << vp::str(pts) << " distort=" << distort << " vertices="
                                                << vp::str(V(flat.begin(), flat.begin() + dim)) << "...");
  vp::run([&] {
    VV vert = split(flat, dim);
    const VV vert0 = vert;
    std::unique_ptr<E> obj(new E);
    for(const V & p : pts) {
      const V p0 = p;
      std::vector<LD> x(p.begin(), p.end());
      // basis
      std::vector<LD> ref(n);
      for(std::size_t i = 0; i < n; ++i)
        ref[i] = s.value(i, x);
      LD big = 1;
      for(LD r : ref)
        big = std::max(big, std::abs(r));
      if constexpr(!std::is_same_v<T, Tess16>) {
        V b(n, junk);
        obj->basis(b, p, vert);
        LD sum = 0;
        for(std::size_t i = 0; i < n; ++i) {
          VP_NEAR(b[i], double(ref[i]), 1e-12 * double(big), "basis of node " << i << " at " << vp::str(p));
          sum += b[i];
        }
        VP_NEAR(double(sum), 1, 1e-12 * double(big) * n, "sum of the basis at " << vp::str(p));
        VP_EQ(b.size(), n, "basis size");
      }
      // position
      V pos(dim, junk);
      obj->physical_position(pos, p, vert);
      for(std::size_t d = 0; d < dim; ++d) {
        LD want = 0;
        for(std::size_t i = 0; i < n; ++i)
          want += ref[i] * vert[i][d];
        VP_NEAR(pos[d], double(want), 1e-11 * u * double(big) * n, "coordinate " << d << " of the position of "
                                                                          << vp::str(p));
      }
      // derivatives
      for(std::size_t d = 0; d < dim; ++d) {
        V q(n, junk);
        if(d == 0)
          obj->partial_xi_shape_fcn(q, p);
        else if(d == 1)
          obj->partial_eta_shape_fcn(q, p);
        if constexpr(std::is_base_of_v<el::Element3D, E> || std::is_base_of_v<el::Element4D, E>)
          if(d == 2)
            obj->partial_mu_shape_fcn(q, p);
        if constexpr(std::is_base_of_v<el::Element4D, E>)
          if(d == 3)
            obj->partial_tau_shape_fcn(q, p);
        for(std::size_t i = 0; i < n; ++i)
          VP_NEAR(q[i], double(s.value(i, x, int(d))), 1e-11 * double(big),
            "derivative " << d << " of node " << i << " at " << vp::str(p));
      }
      VP_ASSERT(p == p0, "the point was changed");
    }
    VP_ASSERT(vert == vert0, "the vertices were changed");
  });
}

struct Lag { // long double Lagrange values and derivatives with error scales
  std::vector<LD> v, d, ds;
  Lag(const V & nodes, LD x) {
    std::size_t n = nodes.size();
    for(std::size_t i = 0; i < n; ++i) {
      LD val = 1, den = 1, der = 0, sc = 0;
      for(std::size_t j = 0; j < n; ++j)
        if(j != i) {
          val *= x - nodes[j];
          den *= LD(nodes[i]) - nodes[j];
          LD t = 1;
          for(std::size_t k = 0; k < n; ++k)
            if(k != i && k != j)
              t *= x - nodes[k];
          der += t;
          sc += std::abs(t);
        }
      v.push_back(val / den);
      d.push_back(der / den);
      ds.push_back(sc / std::abs(den));
    }
  }
};
struct Quiet { // corners() prints
  std::ostringstream os;
  std::streambuf * old;
  Quiet() : old(std::cout.rdbuf(os.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(old); }
};

template<class E, int DIM>
void lagrange() {
  int order = *rc::gen::weightedOneOf<int>({{12, vp::range(1, DIM == 2 ? 7 : 4)}, {1, vp::range(1, DIM == 2 ? 16 : 8)}});
  bool cheb = *vp::coin();
  auto gaps = *vp::vec<int>(order, vp::range(1, 5));
  auto pts = *rc::gen::resize(2, rc::gen::nonEmpty(rc::gen::container<VV>(vp::vec<double>(DIM, coord()))));
  std::size_t n = order + 1, tot = 1;
  for(int d = 0; d < DIM; ++d)
    tot *= n;
  const double up = *vp::scale();
  auto phys = vp::times(up, *vp::vec<double>(tot * DIM, vp::real(-8, 8)));
  double junk = *vp::dyadic(100, 4);
  VP_CASE(order > 1, "order=" << order << (cheb ? " chebyshev" : " gaps=") << (cheb ? "" : vp::str(gaps))
                              << " points=" << vp::str(pts));
  vp::tag(cheb ? "chebyshev" : "uneven");
  vp::run([&] {
    E obj;
    V nodes(n, junk);
    if(cheb) {
      obj.chebyshev_nodes_1D(nodes, order);
      for(std::size_t i = 0; i < n; ++i) {
        LD want = i == 0 ? -1 : i + 1 == n ? 1 : -cosl(M_PIl * (2 * LD(i) + 1) / (2 * LD(n)));
        VP_NEAR(nodes[i], double(want), 1e-15, "chebyshev node " << i);
      }
    }
    else {
      int all = 0, acc = 0;
      for(int g : gaps)
        all += g;
      nodes[0] = -1;
      for(int i = 0; i < order; ++i)
        nodes[i + 1] = -1 + 2.0 * (acc += gaps[i]) / all;
    }
    const V nodes0 = nodes;
    const double eps = 2.3e-16;
    for(const V & p : pts) {
      std::vector<Lag> L;
      for(int d = 0; d < DIM; ++d)
        L.emplace_back(nodes, p[d]);
      for(int d = 0; d < DIM; ++d) {
        V a(n, junk), b(n, junk);
        obj.lagrange_1D(a, b, p[d], nodes, order);
        for(std::size_t i = 0; i < n; ++i) {
          VP_NEAR(a[i], double(L[d].v[i]), 16 * n * eps * std::abs(double(L[d].v[i])), "interpolant " << i);
          VP_NEAR(b[i], double(L[d].d[i]), 16 * n * eps * double(L[d].ds[i]), "interpolant derivative " << i);
        }
      }
      VV lag(tot, V(DIM, junk)), val(tot, V(DIM, junk)), dval(tot, V(DIM, junk)), part(tot, V(DIM, junk));
      V v1(n, junk), d1(n, junk), basis(tot, junk);
      obj.basis_partials(lag, nodes, v1, d1, val, dval, basis, part, p, order);
      VP_ASSERT(nodes == nodes0, "the 1D nodes were changed");
      LD sum = 0, mag = 0;
      for(std::size_t m = 0; m < tot; ++m) {
        std::size_t idx[3] = {m % n, m / n % n, m / n / n};
        LD want = 1;
        for(int d = 0; d < DIM; ++d) {
          VP_EQ(lag[m][d], nodes[idx[d]], "coordinate " << d << " of lagrange node " << m);
          want *= L[d].v[idx[d]];
        }
        VP_NEAR(basis[m], double(want), 64 * n * eps * std::abs(double(want)), "basis " << m);
        sum += basis[m];
        mag += std::abs(want);
        for(int d = 0; d < DIM; ++d) {
          LD w = L[d].d[idx[d]], sc = L[d].ds[idx[d]];
          for(int e = 0; e < DIM; ++e)
            if(e != d) {
              w *= L[e].v[idx[e]];
              sc *= std::abs(L[e].v[idx[e]]);
            }
          VP_NEAR(part[m][d], double(w), 64 * n * eps * double(sc), "partial " << d << " of node " << m);
        }
      }
      VP_NEAR(double(sum), 1, 64 * n * eps * double(mag), "sum of the basis");
      // position from arbitrary physical nodes
      VV ph = split(phys, DIM);
      V pos(DIM, junk);
      obj.physical_position(pos, ph, basis, order);
      for(int d = 0; d < DIM; ++d) {
        LD want = 0;
        for(std::size_t m = 0; m < tot; ++m)
          want += LD(ph[m][d]) * basis[m];
        VP_NEAR(pos[d], double(want), 8 * eps * up * tot * double(mag) * 8, "coordinate " << d << " of the position");
      }
      // corners: lexicographic in (xi, eta, mu)
      VV corner(1 << DIM, V(DIM, junk));
      {
        Quiet q;
        obj.corners(lag, corner, order);
      }
      for(int c = 0; c < 1 << DIM; ++c)
        for(int d = 0; d < DIM; ++d)
          VP_EQ(corner[c][d], (c >> d & 1) ? nodes.back() : nodes.front(),
            "coordinate " << d << " of corner " << c);
    }
  });
}
// the one-dimensional building blocks at any order
template<class E>
void line() {
  int order = *rc::gen::oneOf(vp::range(1, 12), vp::range(1, 40));
  bool cheb = *vp::coin();
  auto gaps = *vp::vec<int>(order, vp::range(1, 5));
  double x = *coord();
  double junk = *vp::dyadic(100, 4);
  VP_CASE(order > 1, "order=" << order << (cheb ? " chebyshev" : " gaps=") << (cheb ? "" : vp::str(gaps)) << " x=" << vp::str(x));
  vp::run([&] {
    E obj;
    std::size_t n = order + 1;
    V nodes(n, junk);
    obj.chebyshev_nodes_1D(nodes, order);
    VP_EQ(nodes.size(), n, "number of nodes");
    for(std::size_t i = 0; i < n; ++i) {
      LD want = i == 0 ? -1 : i + 1 == n ? 1 : -cosl(M_PIl * (2 * LD(i) + 1) / (2 * LD(n)));
      VP_NEAR(nodes[i], double(want), 2e-15, "chebyshev node " << i);
    }
    if(!cheb) {
      int all = 0, acc = 0;
      for(int g : gaps)
        all += g;
      nodes[0] = -1;
      for(int i = 0; i < order; ++i)
        nodes[i + 1] = -1 + 2.0 * (acc += gaps[i]) / all;
    }
    const V nodes0 = nodes;
    Lag L(nodes, x);
    V a(n, junk), b(n, junk);
    obj.lagrange_1D(a, b, x, nodes, order);
    const double eps = 2.3e-16;
    for(std::size_t i = 0; i < n; ++i) {
      VP_NEAR(a[i], double(L.v[i]), 16 * n * eps * std::abs(double(L.v[i])), "interpolant " << i);
      VP_NEAR(b[i], double(L.d[i]), 16 * n * eps * double(L.ds[i]), "interpolant derivative " << i);
    }
    VP_ASSERT(nodes == nodes0, "the 1D nodes were changed");
  });
}
} // namespace
VP_INST("lineQ", 60, line<el::QuadN>);
VP_INST("lineH", 60, line<el::HexN>);
VP_INST("quad4", 60, element<Quad4>);
VP_INST("quad8", 60, element<Quad8>);
VP_INST("quad12", 60, element<Quad12>);
VP_INST("hex8", 60, element<Hex8>);
VP_INST("hex20", 40, element<Hex20>);
VP_INST("hex32", 40, element<Hex32>);
VP_INST("tess16", 60, element<Tess16>);
VP_INST("quadN", 60, lagrange<el::QuadN, 2>);
VP_INST("hexN", 40, lagrange<el::HexN, 3>);

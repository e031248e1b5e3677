// M03: matrix algebra against exact integer and extended-precision references.
#include "vp.h"
#include <array>
#include "ristra/math/array.h"
#include "ristra/math/general.h"
#include "ristra/math/matrix.h"
#include "ristra/math/vector.h"
namespace rm = ristra::math;
using rm::array;
using rm::matrix;

namespace {
using LD = long double;
using Mat = std::vector<std::vector<LD>>;
constexpr double eps = std::numeric_limits<double>::epsilon();

LD det(const Mat & m) { // exact for small integers
  std::size_t n = m.size();
  if(n == 0)
    return 1;
  LD d = 0;
  for(std::size_t c = 0; c < n; ++c) {
    Mat s;
    for(std::size_t i = 1; i < n; ++i) {
      std::vector<LD> r;
      for(std::size_t j = 0; j < n; ++j)
        if(j != c)
          r.push_back(m[i][j]);
      s.push_back(r);
    }
    d += (c % 2 ? -1 : 1) * m[0][c] * det(s);
  }
  return d;
}
LD minor_(const Mat & m, std::size_t r, std::size_t c) {
  Mat s;
  for(std::size_t i = 0; i < m.size(); ++i)
    if(i != r) {
      std::vector<LD> v;
      for(std::size_t j = 0; j < m.size(); ++j)
        if(j != c)
          v.push_back(m[i][j]);
      s.push_back(v);
    }
  return det(s);
}
template<class T, std::size_t R, std::size_t C>
matrix<T, R, C> mk(const std::vector<int> & v, int den = 1) {
  matrix<T, R, C> m;
  for(std::size_t i = 0; i < R; ++i)
    for(std::size_t j = 0; j < C; ++j)
      m(i, j) = T(v[i * C + j]) / T(den);
  return m;
}
template<class T, std::size_t R, std::size_t C>
Mat ld(const matrix<T, R, C> & m) {
  Mat r(R, std::vector<LD>(C));
  for(std::size_t i = 0; i < R; ++i)
    for(std::size_t j = 0; j < C; ++j)
      r[i][j] = m(i, j);
  return r;
}
rc::Gen<std::vector<int>> entries(std::size_t n, int hi) {
  return rc::gen::weightedOneOf<std::vector<int>>(
    {{4, vp::vec<int>(n, vp::range(-hi, hi))}, {2, vp::vec<int>(n, vp::range(-2, 2))},
      {1, vp::vec<int>(n, rc::gen::element(0, 0, 1, -1))}});
}
Mat mul(const Mat & a, const Mat & b) {
  Mat r(a.size(), std::vector<LD>(b[0].size(), 0));
  for(std::size_t i = 0; i < a.size(); ++i)
    for(std::size_t j = 0; j < b[0].size(); ++j)
      for(std::size_t k = 0; k < b.size(); ++k)
        r[i][j] += a[i][k] * b[k][j];
  return r;
}
template<class M>
void same(const M & got, const Mat & want, double tol, const char * what) {
  for(std::size_t i = 0; i < want.size(); ++i)
    for(std::size_t j = 0; j < want[0].size(); ++j)
      VP_NEAR(got(i, j), double(want[i][j]), tol, what << " (" << i << "," << j << ")");
}
} // namespace

// ---- inverse, determinant, cofactor, solve
template<std::size_t N>
static void invert() {
  auto v = *entries(N * N, 9);
  auto b = *vp::vec<int>(N, vp::range(-9, 9));
  auto den = *rc::gen::element(1, 1, 4);
  auto r = *vp::range<std::size_t>(0, N - 1);
  auto c = *vp::range<std::size_t>(0, N - 1);
  const double u = *vp::scale();
  auto a = mk<double, N, N>(v, den);
  for(std::size_t i = 0; i < N; ++i)
    for(std::size_t j = 0; j < N; ++j)
      a(i, j) *= u;
  Mat m = ld(a);
  LD d = det(m);
  bool sym = true;
  for(std::size_t i = 0; i < N; ++i)
    for(std::size_t j = 0; j < N; ++j)
      sym &= m[i][j] == m[j][i];
  vp::tag(d == 0 ? "singular" : sym ? "symmetric" : "general");
  VP_CASE(d != 0 && (!sym || N == 1), "A=" << vp::str(v) << "*" << u << "/" << den << " b=" << vp::str(b));
  vp::run([&] {
    const auto a0 = a;
    VP_NEAR(rm::determinant(a), double(d), 1e-9 * std::abs(double(d)), "determinant");
    if constexpr(N > 1) {
      auto k = rm::cofactor(a, r, c);
      for(std::size_t i = 0; i + 1 < N; ++i)
        for(std::size_t j = 0; j + 1 < N; ++j)
          VP_EQ(k(i, j), double(m[i + (i >= r)][j + (j >= c)]), "submatrix entry");
    }
    if(d == 0)
      return;
    auto inv = rm::inverse(a);
    Mat w(N, std::vector<LD>(N));
    for(std::size_t i = 0; i < N; ++i)
      for(std::size_t j = 0; j < N; ++j) {
        w[i][j] = ((i + j) % 2 ? -1 : 1) * minor_(m, j, i) / d;
        VP_NEAR(inv(i, j), double(w[i][j]), 32 * eps * std::abs(double(w[i][j])),
          "inverse (" << i << "," << j << ")");
      }
    array<double, N> rhs, x;
    for(std::size_t i = 0; i < N; ++i)
      rhs[i] = b[i];
    if constexpr(N > 0) {
      x = rm::solve(a, rhs);
      for(std::size_t i = 0; i < N; ++i) {
        LD s = 0, mag = 0;
        for(std::size_t j = 0; j < N; ++j) {
          s += w[i][j] * b[j];
          mag += std::abs(w[i][j] * b[j]);
        }
        VP_NEAR(x[i], double(s), 64 * eps * double(mag), "solve " << i);
      }
    }
    VP_ASSERT(a == a0, "argument changed");
  });
}
#ifdef PART1
VP_INST("invert_1", 200, invert<1>);
VP_INST("invert_2", 1500, invert<2>);
VP_INST("invert_3", 1500, invert<3>);
VP_INST("invert_4", 800, invert<4>);
VP_INST("invert_5", 250, invert<5>);
VP_INST("invert_6", 40, invert<6>);
#endif

// ---- determinants, traces and submatrices of other element types are exact
template<class T, std::size_t N>
static void exact_det() {
  auto v = *entries(N * N, 9);
  auto r = *vp::range<std::size_t>(0, N - 1);
  auto c = *vp::range<std::size_t>(0, N - 1);
  VP_CASE(v[0] != 0, "A=" << vp::str(v));
  vp::run([&] {
    const auto a = mk<T, N, N>(v);
    Mat m = ld(a);
    LD tr = 0;
    for(std::size_t i = 0; i < N; ++i)
      tr += m[i][i];
    VP_EQ(rm::determinant(a), T(det(m)), "determinant");
    VP_EQ(rm::trace_matrix(a), T(tr), "trace");
    auto k = rm::cofactor(a, r, c);
    for(std::size_t i = 0; i + 1 < N; ++i)
      for(std::size_t j = 0; j + 1 < N; ++j)
        VP_EQ(k(i, j), T(m[i + (i >= r)][j + (j >= c)]), "submatrix entry");
    auto id = rm::identity_matrix<T, N>();
    for(std::size_t i = 0; i < N; ++i)
      for(std::size_t j = 0; j < N; ++j)
        VP_EQ(id(i, j), i == j ? T(1) : T(0), "identity");
    if(std::is_same<T, float>::value && det(m) != 0) {
      auto inv = rm::inverse(a);
      for(std::size_t i = 0; i < N; ++i)
        for(std::size_t j = 0; j < N; ++j) {
          double w = double(((i + j) % 2 ? -1 : 1) * minor_(m, j, i) / det(m));
          VP_NEAR(inv(i, j), w, 32 * double(std::numeric_limits<float>::epsilon()) * std::abs(w),
            "float inverse (" << i << "," << j << ")");
        }
    }
  });
}
#ifdef PART1
VP_INST("det_int_2", 300, exact_det<int, 2>);
VP_INST("det_int_3", 300, exact_det<int, 3>);
VP_INST("det_long_4", 300, exact_det<long, 4>);
VP_INST("det_float_2", 300, exact_det<float, 2>);
VP_INST("det_float_3", 300, exact_det<float, 3>);
#endif

// ---- products, transposes, norms; exact on integer entries
template<class T, std::size_t R, std::size_t K, std::size_t C>
static void products() {
  auto va = *entries(R * K, 20);
  auto vb = *entries(K * C, 20);
  auto vc = *entries(R * C, 20);
  auto vx = *entries(K, 20);
  auto vy = *entries(R, 20);
  auto al = *vp::range(-4, 4);
  auto be = *vp::range(-4, 4);
  VP_CASE(va != vb && al != 0, "A=" << vp::str(va) << " B=" << vp::str(vb) << " x=" << vp::str(vx)
                                    << " y=" << vp::str(vy) << " alpha=" << al << " beta=" << be);
  vp::run([&] {
    const auto a = mk<T, R, K>(va);
    const auto b = mk<T, K, C>(vb);
    auto c = mk<T, R, C>(vc);
    auto e = mk<T, R, K>(*&va);
    Mat A = ld(a), B = ld(b), Cc = ld(c), P = mul(A, B);
    same(rm::matrix_multiply(a, b), P, 0, "matrix product");
    rm::matrix_multiply(a, b, c);
    Mat S = P;
    for(std::size_t i = 0; i < R; ++i)
      for(std::size_t j = 0; j < C; ++j)
        S[i][j] += Cc[i][j];
    same(c, S, 0, "accumulated matrix product");
    array<T, K> x;
    array<T, R> y, y0;
    for(std::size_t i = 0; i < K; ++i)
      x[i] = T(vx[i]);
    for(std::size_t i = 0; i < R; ++i)
      y0[i] = T(vy[i]);
    std::vector<LD> ax(R, 0);
    for(std::size_t i = 0; i < R; ++i)
      for(std::size_t k = 0; k < K; ++k)
        ax[i] += A[i][k] * vx[k];
    auto z = a * x;
    for(std::size_t i = 0; i < R; ++i)
      VP_EQ(z[i], T(ax[i]), "matrix*vector " << i);
    y = y0;
    rm::ax_plus_y(a, x, y);
    for(std::size_t i = 0; i < R; ++i)
      VP_EQ(y[i], T(ax[i] + vy[i]), "A.x+y " << i);
    y = y0;
    rm::matrix_vector(T(al), a, x, T(be), y);
    for(std::size_t i = 0; i < R; ++i)
      VP_EQ(y[i], T(al * ax[i] + be * vy[i]), "alpha*A.x+beta*y " << i);
    auto t = rm::transpose(a);
    for(std::size_t i = 0; i < R; ++i)
      for(std::size_t j = 0; j < K; ++j)
        VP_EQ(t(j, i), a(i, j), "transpose");
    VP_ASSERT(rm::transpose(t) == a, "transpose twice");
    LD dd = 0;
    const auto e2 = mk<T, R, K>(va) + T(1);
    for(std::size_t i = 0; i < R; ++i)
      for(std::size_t j = 0; j < K; ++j)
        dd += A[i][j] * (A[i][j] + 1);
    VP_EQ(rm::doubledot_product(a, e2), T(dd), "double dot product");
    same(a, A, 0, "argument A changed");
    same(b, B, 0, "argument B changed");
  });
}
#ifdef PART2
VP_INST("products_double_2_3_4", 900, products<double, 2, 3, 4>);
VP_INST("products_double_3_3_3", 900, products<double, 3, 3, 3>);
VP_INST("products_int_3_2_1", 600, products<int, 3, 2, 1>);
VP_INST("products_double_1_5_2", 600, products<double, 1, 5, 2>);
VP_INST("products_float_4_4_4", 300, products<float, 4, 4, 4>);
VP_INST("products_long_5_2_3", 300, products<long, 5, 2, 3>);
VP_INST("products_int_2_2_2", 300, products<int, 2, 2, 2>);
VP_INST("products_double_9_17_12", 60, products<double, 9, 17, 12>);
VP_INST("products_int_20_1_20", 60, products<int, 20, 1, 20>);
#endif

template<std::size_t N>
static void square() {
  auto va = *entries(N * N, 50);
  auto u = *vp::vec<int>(N, vp::range(-30, 30));
  auto w = *vp::vec<int>(N, vp::range(-30, 30));
  auto f = *vp::range(-8, 8);
  bool nz = false;
  for(int q : u)
    nz |= q != 0;
  VP_CASE(nz && f != 0, "A=" << vp::str(va) << " u=" << vp::str(u) << " w=" << vp::str(w)
                             << " f=" << f);
  vp::run([&] {
    auto a = mk<double, N, N>(va, 2);
    LD inf = 0, one = 0, two = 0, tr = 0;
    for(std::size_t i = 0; i < N; ++i) {
      LD r = 0, c = 0;
      for(std::size_t j = 0; j < N; ++j) {
        r += std::abs(LD(a(i, j)));
        c += std::abs(LD(a(j, i)));
        two += LD(a(i, j)) * a(i, j);
      }
      inf = std::max(inf, r);
      one = std::max(one, c);
      tr += a(i, i);
    }
    VP_EQ(rm::infinity_norm(a), double(inf), "infinity norm");
    VP_EQ(rm::one_norm(a), double(one), "one norm");
    VP_NEAR(rm::two_norm(a), double(std::sqrt(two)), 4 * eps * double(std::sqrt(two)), "two norm");
    VP_EQ(rm::trace_matrix(a), double(tr), "trace");
    auto id = rm::identity_matrix<double, N>();
    for(std::size_t i = 0; i < N; ++i)
      for(std::size_t j = 0; j < N; ++j)
        VP_EQ(id(i, j), i == j ? 1.0 : 0.0, "identity");
    array<double, N> x, y;
    for(std::size_t i = 0; i < N; ++i) {
      x[i] = u[i];
      y[i] = w[i];
    }
    if constexpr(N > 1) {
      auto o = rm::outer_product(x, y);
      auto acc = a;
      rm::outer_product(x, y, acc, double(f));
      for(std::size_t i = 0; i < N; ++i)
        for(std::size_t j = 0; j < N; ++j) {
          VP_EQ(o(i, j), double(u[i] * w[j]), "outer product");
          VP_EQ(acc(i, j), a(i, j) + double(f * u[i] * w[j]), "accumulated outer product");
        }
      if(nz) {
        auto n = rm::unit(x);
        auto R = rm::reflection_matrix(n);
        auto P = rm::projection_matrix(n);
        double m = std::sqrt(rm::dot_product(y, y)) + 1;
        LD d = 0;
        for(std::size_t i = 0; i < N; ++i)
          d += LD(n[i]) * y[i];
        auto ry = R * y, py = P * y;
        auto rv = rm::reflect(y, n);
        for(std::size_t i = 0; i < N; ++i) {
          VP_NEAR(ry[i], double(y[i] - 2 * d * n[i]), 64 * eps * m, "reflection matrix " << i);
          VP_NEAR(py[i], double(y[i] - d * n[i]), 64 * eps * m, "projection matrix " << i);
          VP_NEAR(ry[i], rv[i], 64 * eps * m, "reflection matrix vs reflect " << i);
        }
      }
    }
  });
}
#ifdef PART2
VP_INST("square_1", 150, square<1>);
VP_INST("square_2", 800, square<2>);
VP_INST("square_3", 800, square<3>);
VP_INST("square_4", 400, square<4>);
VP_INST("square_9", 100, square<9>);
VP_INST("square_17", 30, square<17>);
#endif

// ---- rotations
#ifdef PART2
VP_PROP(rotation, 1500) {
  auto p = *vp::real(-20, 20);
  auto q = *rc::gen::oneOf(vp::real(-20, 20), rc::gen::element(0.0, 1.0, 3.14159265358979323846));
  auto v = *vp::vec<double>(2, vp::dyadic(1000, 8));
  VP_CASE(p != 0, "angles " << p << " " << q << " v=" << vp::str(v));
  vp::run([&] {
    auto r = rm::rotation_matrix<double, 2>(p);
    auto s = rm::rotation_matrix<double, 2>(q);
    array<double, 2> x(v[0], v[1]);
    auto y = r * x;
    LD c = std::cos(LD(p)), t = std::sin(LD(p));
    double m = std::abs(v[0]) + std::abs(v[1]);
    VP_NEAR(y[0], double(c * v[0] - t * v[1]), 16 * eps * m, "rotated x");
    VP_NEAR(y[1], double(t * v[0] + c * v[1]), 16 * eps * m, "rotated y");
    auto rs = rm::matrix_multiply(r, s);
    auto both = rm::rotation_matrix<double, 2>(p + q);
    for(int i = 0; i < 4; ++i)
      VP_NEAR(rs[i], both[i], 64 * eps, "rotations compose");
    VP_NEAR(rm::determinant(r), 1, 8 * eps, "determinant of a rotation");
  });
}
#endif

// ---- exponential
template<std::size_t N>
static void expo() {
  auto v = *rc::gen::weightedOneOf<std::vector<int>>({{6, vp::vec<int>(N * N, vp::range(-40, 40))},
    {1, vp::vec<int>(N * N, rc::gen::just(0))}, {1, vp::vec<int>(N * N, vp::range(-2, 2))}});
  auto den = *rc::gen::element(1024, 64, 32, 16);
  auto a = mk<double, N, N>(v, den);
  bool nz = false;
  for(int q : v)
    nz |= q != 0;
  VP_CASE(nz, "A=" << vp::str(v) << "/" << den);
  vp::run([&] {
    Mat A = ld(a), S(N, std::vector<LD>(N, 0)), I = S;
    for(std::size_t i = 0; i < N; ++i)
      I[i][i] = 1;
    // Taylor series of A/2^10 in extended precision, then squared ten times
    Mat B = A;
    for(auto & r : B)
      for(auto & q : r)
        q /= 1024;
    S = I;
    Mat T = I;
    for(int k = 1; k < 25; ++k) {
      T = mul(T, B);
      for(auto & r : T)
        for(auto & q : r)
          q /= k;
      for(std::size_t i = 0; i < N; ++i)
        for(std::size_t j = 0; j < N; ++j)
          S[i][j] += T[i][j];
    }
    for(int k = 0; k < 10; ++k)
      S = mul(S, S);
    LD inf = 0;
    for(auto & r : A) {
      LD s = 0;
      for(auto q : r)
        s += std::abs(q);
      inf = std::max(inf, s);
    }
    double tol = 1e-11 * double(std::exp(inf)) * (1 + double(inf));
    same(rm::exponential(a), S, tol, "matrix exponential");
    auto back = rm::matrix_multiply(rm::exponential(a), rm::exponential(-a));
    same(back, I, 1e-10 * double(std::exp(2 * inf)), "exp(A).exp(-A)");
    same(a, A, 0, "argument changed");
  });
}
// matrices of large norm whose exponential is known
template<std::size_t N>
static void expo_large() {
  auto v = *vp::vec<int>(N * N, vp::range(-1000, 1000));
  bool turn = N == 2 && *vp::coin();
  auto den = *rc::gen::element(1, 4, 64);
  rm::matrix<double, N, N> a;
  for(std::size_t i = 0; i < N; ++i)
    for(std::size_t j = 0; j < N; ++j)
      a(i, j) = i < j ? v[i * N + j] / double(den) : 0;
  if(turn)
    a(1, 0) = -a(0, 1);
  VP_CASE(v[1] != 0, (turn ? "rotation " : "nilpotent ") << "A=" << vp::str(v) << "/" << den);
  vp::run([&] {
    Mat A = ld(a), S(N, std::vector<LD>(N, 0));
    for(std::size_t i = 0; i < N; ++i)
      S[i][i] = 1;
    LD big = 1;
    for(auto & r : A)
      for(auto q : r)
        big = std::max(big, std::abs(q));
    double tol = 1e-11 * double(big);
    if(turn) {
      LD t = A[0][1];
      S[0][0] = S[1][1] = std::cos(t);
      S[0][1] = std::sin(t);
      S[1][0] = -S[0][1];
    }
    else {
      Mat T = S;
      tol = 1e-11;
      for(std::size_t k = 1; k < N; ++k) {
        T = mul(T, A);
        tol *= double(big) * N;
        for(auto & r : T)
          for(auto & q : r)
            q /= k;
        for(std::size_t i = 0; i < N; ++i)
          for(std::size_t j = 0; j < N; ++j)
            S[i][j] += T[i][j];
      }
    }
    same(rm::exponential(a), S, tol, "exponential of a large matrix");
  });
}
#ifdef PART3
VP_INST("exponential_large_2", 300, expo_large<2>);
VP_INST("exponential_large_3", 200, expo_large<3>);
VP_INST("exponential_1", 200, expo<1>);
VP_INST("exponential_2", 700, expo<2>);
VP_INST("exponential_3", 700, expo<3>);
VP_INST("exponential_4", 250, expo<4>);
VP_INST("exponential_7", 40, expo<7>);
#endif

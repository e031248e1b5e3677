// U05: multi-dimensional array views address exactly the elements they describe.
#include "vp.h"
#include <array>
#include <cassert>
#include <algorithm>
#include <iostream>
#include <iterator>
#include <numeric>
#include <stdexcept>
#include <vector>
#include "ristra/utils/array_view.h"
namespace ru = ristra::utils;

namespace {
using L = std::ptrdiff_t;
template<int R>
using Idx = ru::index_t<R>;
template<int R>
Idx<R> mk(const std::vector<L> & v) {
  Idx<R> i;
  for(int k = 0; k < R; ++k)
    i[k] = v[k];
  return i;
}
template<class I>
std::vector<L> un(const I & i) {
  std::vector<L> v;
  for(int k = 0; k < I::rank; ++k)
    v.push_back(i[k]);
  return v;
}
// every multi-index of the box in row-major order
std::vector<std::vector<L>> box(const std::vector<L> & e) {
  std::vector<std::vector<L>> r{{}};
  for(L n : e) {
    std::vector<std::vector<L>> q;
    for(auto & p : r)
      for(L i = 0; i < n; ++i) {
        auto t = p;
        t.push_back(i);
        q.push_back(t);
      }
    r = q;
  }
  return r;
}
std::vector<L> rowmajor(const std::vector<L> & e) {
  std::vector<L> s(e.size(), 1);
  for(std::size_t k = e.size() - 1; k-- > 0;)
    s[k] = s[k + 1] * e[k + 1];
  return s;
}
L lin(const std::vector<L> & i, const std::vector<L> & s) {
  L r = 0;
  for(std::size_t k = 0; k < i.size(); ++k)
    r += i[k] * s[k];
  return r;
}
L prod(const std::vector<L> & e) {
  L r = 1;
  for(L x : e)
    r *= x;
  return r;
}
template<class B>
void bounds_facts(const B & b, const std::vector<L> & e, const std::vector<L> & s) {
  constexpr int R = B::rank;
  VP_EQ(L(b.size()), prod(e), "bounds size");
  VP_EQ(un(b.as_index()), e, "bounds as an index");
  VP_EQ(un(b.strides()), s, "strides");
  VP_EQ(L(b.stride()), s[0], "leading stride");
  VP_EQ(L(b.template extent<0>()), e[0], "extent 0");
  VP_EQ(L(b.template extent<R - 1>()), e[R - 1], "last extent");
  if(prod(e) > 0) {
    auto last = e;
    for(auto & x : last)
      --x;
    VP_EQ(L(b.total_size()), lin(last, s) + 1, "total size");
  }
  for(auto & i : box(e)) {
    VP_ASSERT(b.contains(mk<R>(i)), "index inside");
    VP_EQ(L(b.linearize(mk<R>(i))), lin(i, s), "linear position of " << vp::str(i));
  }
  for(int k = 0; k < R; ++k) {
    std::vector<L> i(R, 0);
    i[k] = e[k];
    VP_ASSERT(!b.contains(mk<R>(i)), "index at the upper end is outside");
    i[k] = -1;
    VP_ASSERT(!b.contains(mk<R>(i)), "negative index is outside");
  }
}
// iteration over bounds
template<class B>
void bounds_iteration(const B & b, const std::vector<L> & e, const std::vector<int> & jumps) {
  auto all = box(e);
  std::size_t n = 0;
  for(auto it = b.begin(); it != b.end(); ++it, ++n) {
    VP_ASSERT(n < all.size(), "more indices than elements");
    VP_EQ(un(*it), all[n], "index number " << n);
  }
  VP_EQ(n, all.size(), "number of indices visited");
  if(all.empty())
    return;
  auto it = b.end();
  for(std::size_t k = all.size(); k-- > 0;) {
    --it;
    VP_EQ(un(*it), all[k], "index number " << k << " going backwards");
  }
  VP_ASSERT(it == b.begin(), "backwards iteration ends at begin");
  VP_EQ(b.end() - b.begin(), L(all.size()), "distance");
  VP_ASSERT(b.begin() + L(all.size()) == b.end(), "begin + size == end");
  VP_ASSERT(b.end() - L(all.size()) == b.begin(), "end - size == begin");
  L pos = 0;
  auto cur = b.begin();
  for(int j : jumps) {
    L q = ((pos + j) % L(all.size() + 1) + L(all.size() + 1)) % L(all.size() + 1);
    auto old = cur;
    if(j & 1)
      cur += q - pos;
    else
      cur = cur - (pos - q);
    VP_EQ(cur - b.begin(), q, "position after a jump");
    VP_EQ(cur - old, q - pos, "distance of a jump");
    VP_EQ(old < cur, pos < q, "<");
    VP_EQ(old <= cur, pos <= q, "<=");
    VP_EQ(old > cur, pos > q, ">");
    VP_EQ(old >= cur, pos >= q, ">=");
    VP_EQ(old == cur, pos == q, "==");
    VP_EQ(cur == b.end(), q == L(all.size()), "at the end");
    if(q < L(all.size()))
      VP_EQ(un(*cur), all[q], "index after a jump");
    pos = q;
  }
}
// a view against the flat memory it covers
template<class View>
void view_facts(const View & v, int * base, const std::vector<L> & e, const std::vector<L> & s,
  const std::vector<int> & jumps) {
  constexpr int R = int(View::bounds_type::rank);
  auto all = box(e);
  VP_EQ(v.size(), all.size(), "size");
  VP_EQ(v.empty(), all.empty(), "empty");
  VP_ASSERT(v.data() == base, "data");
  VP_EQ(L(v.template extent<R - 1>()), e[R - 1], "extent");
  VP_EQ(un(Idx<R>(v.strides())), s, "strides");
  for(auto & i : all) {
    auto ix = mk<R>(i);
    int * want = base + lin(i, s);
    VP_ASSERT(&v[ix] == want, "element " << vp::str(i) << " by index");
    VP_ASSERT(&v.at(ix) == want, "element " << vp::str(i) << " by at");
    if constexpr(R == 1)
      VP_ASSERT(&v(i[0]) == want, "element by call");
    if constexpr(R == 2)
      VP_ASSERT(&v(i[0], i[1]) == want, "element by call");
    if constexpr(R == 3)
      VP_ASSERT(&v(i[0], i[1], i[2]) == want, "element by call");
    if constexpr(R == 4)
      VP_ASSERT(&v(i[0], i[1], i[2], i[3]) == want, "element by call");
    if constexpr(R >= 2) {
      auto sl = v[std::size_t(i[0])];
      auto s2 = v.slice(std::size_t(i[0]));
      VP_ASSERT(sl.data() == base + i[0] * s[0] && s2.data() == sl.data(), "slice origin");
      std::vector<L> rest(i.begin() + 1, i.end());
      VP_ASSERT(&sl[mk<R - 1>(rest)] == want, "element through a slice");
      VP_EQ(L(sl.size()), e[0] ? prod(e) / e[0] : 0, "slice size");
    }
  }
  for(int k = 0; k < R; ++k)
    for(L bad : {e[k], e[k] + 3, L(-1)}) {
      std::vector<L> i(R, 0);
      i[k] = bad;
      VP_THROWS(std::out_of_range, v.at(mk<R>(i)), "at(" << vp::str(i) << ")");
    }
  if constexpr(R >= 2)
    VP_THROWS(std::out_of_range, v.slice(std::size_t(e[0])), "slice past the end");
  std::size_t n = 0;
  for(auto it = v.begin(); it != v.end(); ++it, ++n) {
    VP_ASSERT(n < all.size(), "more elements than the size");
    VP_ASSERT(&*it == base + lin(all[n], s), "element number " << n);
  }
  VP_EQ(n, all.size(), "elements visited");
  n = 0;
  for(auto it = v.cbegin(); it != v.cend(); it++, ++n)
    VP_ASSERT(n < all.size() && &*it == base + lin(all[n], s), "const element number " << n);
  VP_EQ(n, all.size(), "const elements visited");
  if(all.empty())
    return;
  n = all.size();
  for(auto it = v.rbegin(); it != v.rend(); ++it) {
    VP_ASSERT(n-- > 0, "too many elements in reverse");
    VP_ASSERT(*it == *(base + lin(all[n], s)), "element number " << n << " in reverse");
  }
  VP_EQ(n, std::size_t(0), "elements visited in reverse");
  L pos = 0;
  auto cur = v.begin();
  for(int j : jumps) {
    L q = ((pos + j) % L(all.size() + 1) + L(all.size() + 1)) % L(all.size() + 1);
    auto old = cur;
    if(j & 1)
      cur += q - pos;
    else
      cur -= pos - q;
    VP_EQ(cur - old, q - pos, "distance");
    VP_EQ(old < cur, pos < q, "iterator <");
    VP_EQ(old <= cur, pos <= q, "iterator <=");
    VP_EQ(old > cur, pos > q, "iterator >");
    VP_EQ(old >= cur, pos >= q, "iterator >=");
    VP_EQ(cur == v.end(), q == L(all.size()), "iterator at the end");
    if(q < L(all.size())) {
      VP_ASSERT(&*cur == base + lin(all[q], s), "element after a jump");
      VP_EQ(v.begin()[q], *(base + lin(all[q], s)), "element by iterator subscript");
    }
    pos = q;
  }
}
template<class View>
void sections(const View & v, int * base, const std::vector<L> & e, const std::vector<L> & s,
  const std::vector<int> & draw, const std::vector<int> & jumps) {
  constexpr int R = int(View::bounds_type::rank);
  if(prod(e) == 0)
    return;
  std::vector<L> o(R), b(R), tail(R);
  for(int k = 0; k < R; ++k) {
    o[k] = draw[k] % e[k];
    b[k] = 1 + draw[4 + k] % (e[k] - o[k]);
    tail[k] = e[k] - o[k];
  }
  auto s1 = v.section(mk<R>(o));
  view_facts(s1, base + lin(o, s), tail, s, jumps);
  auto s2 = v.section(mk<R>(o), mk<R>(b));
  view_facts(s2, base + lin(o, s), b, s, jumps);
  if constexpr(std::is_same_v<View, ru::strided_array_view<int, R>>) {
    auto s3 = v.section();
    VP_ASSERT(s3.data() == base && L(s3.size()) == prod(e), "whole section");
  }
  // a section of a section
  std::vector<L> o2(R), b2(R);
  for(int k = 0; k < R; ++k) {
    o2[k] = draw[1] % b[k];
    b2[k] = b[k] - o2[k];
  }
  auto s4 = s2.section(mk<R>(o2), mk<R>(b2));
  view_facts(s4, base + lin(o, s) + lin(o2, s), b2, s, jumps);
}
} // namespace

template<int R>
void dynamic_views() {
  auto e = *vp::vec<L>(R, rc::gen::weightedOneOf<L>({{1, rc::gen::just(L(0))}, {9, vp::range<L>(1, R == 4 ? 3 : R == 3 ? 4 : 6)}}));
  auto jumps = *vp::vec<int>(0, 6, vp::range(-40, 40));
  auto draw = *vp::vec<int>(8, vp::range(0, 100));
  auto pad = *vp::vec<int>(R, vp::range(0, 2));
  bool reversed = *vp::coin();
  VP_CASE(prod(e) > 1, "extents=" << vp::str(e) << " jumps=" << vp::str(jumps) << " draw=" << vp::str(draw)
                                  << " pad=" << vp::str(pad) << " reversed=" << reversed);
  vp::run([&] {
    auto s = rowmajor(e);
    std::vector<int> buf(prod(e));
    std::iota(buf.begin(), buf.end(), 100);
    auto keep = buf;
    {
      ru::strided_bounds<R> sb(mk<R>(e), mk<R>(s));
      ru::contiguous_bounds<R> cb(mk<R>(e));
      bounds_facts(sb, e, s);
      bounds_facts(cb, e, s);
      bounds_iteration(sb, e, jumps);
      bounds_iteration(cb, e, jumps);
      ru::array_view<int, R> av(buf, cb);
      ru::strided_array_view<int, R> sv(buf, sb);
      view_facts(av, buf.data(), e, s, jumps);
      view_facts(sv, buf.data(), e, s, jumps);
      ru::array_view<int, R> ap(buf.data(), cb);
      view_facts(ap, buf.data(), e, s, jumps);
      sections(av, buf.data(), e, s, draw, jumps);
      sections(sv, buf.data(), e, s, draw, jumps);
      ru::strided_array_view<int, R> conv = static_cast<ru::strided_array_view<int, R>>(av);
      view_facts(conv, buf.data(), e, s, jumps);
      ru::array_view<const int, R> cv(av);
      VP_ASSERT(cv.data() == av.data() && cv.size() == av.size(), "const copy");
      ru::array_view<int, R> d;
      VP_ASSERT(!d && d.size() == 0 && d.empty(), "default view");
      d = av;
      view_facts(d, buf.data(), e, s, jumps);
      d.clear();
      VP_ASSERT(!d && d.empty(), "cleared view");
      d.swap(av);
      view_facts(d, buf.data(), e, s, jumps);
      VP_ASSERT(av.empty(), "swapped away");
    }
    VP_EQ(buf, keep, "the viewed memory");
    { // extents as separate arguments
      if constexpr(R == 1)
        bounds_facts(ru::strided_bounds<1>(e[0]), e, s);
      if constexpr(R == 2) {
        bounds_facts(ru::strided_bounds<2>(e[0], e[1]), e, s);
        bounds_facts(ru::contiguous_bounds<2>(e[0], e[1]), e, s);
        auto m = ru::make_array_view(buf, e[0], e[1]);
        view_facts(m, buf.data(), e, s, jumps);
        auto m2 = ru::make_array_view(buf.data(), e[0], e[1]);
        view_facts(m2, buf.data(), e, s, jumps);
      }
      if constexpr(R == 3) {
        bounds_facts(ru::strided_bounds<3>({e[0], e[1], e[2]}), e, s);
        bounds_facts(ru::contiguous_bounds<3>({e[0], e[1], e[2]}), e, s);
        auto m = ru::make_array_view(buf, e[0], e[1], e[2]);
        view_facts(m, buf.data(), e, s, jumps);
      }
      auto f = ru::make_array_view(buf);
      view_facts(f, buf.data(), {prod(e)}, {1}, jumps);
      ru::strided_array_view<int> sf(buf);
      view_facts(sf, buf.data(), {prod(e)}, {1}, jumps);
    }
    if(prod(e) > 0) { // general strides: padded, either order of dimensions
      std::vector<L> g(R);
      L acc = 1 + pad[0];
      for(int k = 0; k < R; ++k) {
        int d = reversed ? k : R - 1 - k;
        g[d] = acc;
        acc = acc * e[d] + pad[d];
      }
      std::vector<L> last = e;
      for(auto & x : last)
        --x;
      std::vector<int> big(lin(last, g) + 1);
      std::iota(big.begin(), big.end(), 7);
      ru::strided_array_view<int, R> gv(big.data(), mk<R>(e), mk<R>(g));
      bounds_facts(gv.bounds(), e, g);
      view_facts(gv, big.data(), e, g, jumps);
      sections(gv, big.data(), e, g, draw, jumps);
    }
  });
}
VP_INST("dynamic1", 300, dynamic_views<1>);
VP_INST("dynamic2", 500, dynamic_views<2>);
VP_INST("dynamic3", 400, dynamic_views<3>);
VP_INST("dynamic4", 100, dynamic_views<4>);

// Comparisons are those of the element sequences.
VP_PROP(compare, 1500) {
  auto e = *vp::vec<L>(2, vp::range<L>(1, 3));
  auto n = std::size_t(prod(e));
  auto a = *vp::vec<int>(n + 8, vp::range(0, 2));
  auto b = *vp::vec<int>(n + 8, vp::range(0, 2));
  auto same = *vp::range(0, 3);
  if(same == 0)
    std::copy(a.begin(), a.begin() + n, b.begin());
  VP_CASE(n > 1, "extents=" << vp::str(e) << " a=" << vp::str(a) << " b=" << vp::str(b));
  vp::run([&] {
    auto s = rowmajor(e);
    ru::contiguous_bounds<2> cb(mk<2>(e));
    ru::array_view<int, 2> x(a.data(), cb), y(b.data(), cb);
    ru::strided_array_view<int, 2> p(a.data(), mk<2>(e), mk<2>(s)), q(b.data(), mk<2>(e), mk<2>(s));
    ru::strided_array_view<int, 2> w(a.data(), mk<2>(e), mk<2>({1, e[0]})); // column order
    std::vector<int> va(a.begin(), a.begin() + n), vb(b.begin(), b.begin() + n), vw;
    for(auto & i : box(e))
      vw.push_back(a[i[0] + e[0] * i[1]]);
    auto cmp = [&](const auto & l, const auto & r, const std::vector<int> & vl, const std::vector<int> & vr) {
      VP_EQ(l == r, vl == vr, "==");
      VP_EQ(l != r, vl != vr, "!=");
      VP_EQ(l < r, vl < vr, "<");
      VP_EQ(l <= r, vl <= vr, "<=");
      VP_EQ(l > r, vl > vr, ">");
      VP_EQ(l >= r, vl >= vr, ">=");
    };
    cmp(x, y, va, vb);
    cmp(y, x, vb, va);
    cmp(x, x, va, va);
    cmp(p, q, va, vb);
    cmp(p, p, va, va);
    cmp(p, w, va, vw);
    cmp(w, q, vw, vb);
    ru::static_array_view<int, 2, 3> st(a.data()), su(b.data());
    std::vector<int> ta(a.begin(), a.begin() + 6), tb(b.begin(), b.begin() + 6);
    cmp(st, su, ta, tb);
  });
}

// C arrays and compile-time extents
template<int A, int B, int C>
void static_views() {
  auto jumps = *vp::vec<int>(0, 6, vp::range(-40, 40));
  auto draw = *vp::vec<int>(8, vp::range(0, 100));
  VP_CASE(A * B * C > 1, "extents " << A << 'x' << B << 'x' << C << " jumps=" << vp::str(jumps) << " draw=" << vp::str(draw));
  vp::run([&] {
    std::vector<L> e{A, B, C};
    auto s = rowmajor(e);
    std::vector<int> buf(A * B * C);
    std::iota(buf.begin(), buf.end(), 0);
    auto & arr = *reinterpret_cast<int(*)[A][B][C]>(buf.data());
    bounds_facts(ru::strided_bounds<3>(arr), e, s);
    bounds_facts(ru::contiguous_bounds<3>(arr), e, s);
    bounds_facts(ru::static_bounds<A, B, C>(), e, s);
    bounds_iteration(ru::static_bounds<A, B, C>(), e, jumps);
    bounds_facts(ru::contiguous_bounds<3>(arr).slice(), {B, C}, {C, 1});
    bounds_facts(ru::strided_bounds<3>(arr).slice(), {B, C}, {C, 1});
    bounds_facts(ru::static_bounds<A, B, C>().slice(), {B, C}, {C, 1});
    VP_ASSERT(ru::strided_bounds<3>(arr) == ru::strided_bounds<3>(A, B, C), "bounds ==");
    VP_ASSERT(ru::strided_bounds<3>(arr) != ru::strided_bounds<3>(A, B + 1, C), "bounds !=");
    ru::array_view<int, 3> av(arr);
    view_facts(av, buf.data(), e, s, jumps);
    ru::strided_array_view<int, 3> sv(arr);
    view_facts(sv, buf.data(), e, s, jumps);
    auto mv = ru::make_array_view(arr);
    view_facts(mv, buf.data(), e, s, jumps);
    ru::static_array_view<int, A, B, C> st(arr);
    view_facts(st, buf.data(), e, s, jumps);
    sections(st, buf.data(), e, s, draw, jumps);
    auto ms = ru::make_static_array_view(arr);
    view_facts(ms, buf.data(), e, s, jumps);
    auto mb = ru::make_static_array_view<A, B, C>(buf);
    view_facts(mb, buf.data(), e, s, jumps);
    auto c1 = static_cast<ru::array_view<int, 3>>(st);
    view_facts(c1, buf.data(), e, s, jumps);
    auto c2 = static_cast<ru::strided_array_view<int, 3>>(st);
    view_facts(c2, buf.data(), e, s, jumps);
    ru::static_array_view<const int, A, B, C> k(st);
    ru::static_array_view<const int, A, B, C> k2;
    VP_ASSERT(k2.empty() && !k2, "default static view");
    k2 = st;
    VP_ASSERT(k.data() == buf.data() && k2.data() == buf.data(), "const static view");
  });
}
VP_INST("static_3_1_2", 150, static_views<3, 1, 2>);
VP_INST("static_2_4_3", 150, static_views<2, 4, 3>);

VP_PROP(index_arithmetic, 1500) {
  auto wide = rc::gen::oneOf(vp::range<L>(-1000, 1000), vp::range<L>(-1000, 1000), vp::range<L>(-(L(1) << 50), L(1) << 50));
  auto a = *vp::vec<L>(3, wide);
  auto b = *vp::vec<L>(3, rc::gen::oneOf(wide, rc::gen::just(L(a[0]))));
  L m = *vp::range<L>(1, 20);
  VP_CASE(a != b, "a=" << vp::str(a) << " b=" << vp::str(b) << " m=" << m);
  vp::run([&] {
    const auto x = mk<3>(a), y = mk<3>(b);
    auto chk = [&](const auto & got, auto f, const char * w) {
      for(int k = 0; k < 3; ++k)
        VP_EQ(got[k], f(k), w << " component " << k);
    };
    chk(x + y, [&](int k) { return a[k] + b[k]; }, "+");
    chk(x - y, [&](int k) { return a[k] - b[k]; }, "-");
    chk(-x, [&](int k) { return -a[k]; }, "negation");
    chk(+x, [&](int k) { return a[k]; }, "unary +");
    chk(x * m, [&](int k) { return a[k] * m; }, "index*scalar");
    chk(x / m, [&](int k) { return a[k] / m; }, "index/scalar");
    auto z = x;
    z += y;
    chk(z, [&](int k) { return a[k] + b[k]; }, "+=");
    z -= x;
    chk(z, [&](int k) { return b[k]; }, "-=");
    z *= m;
    chk(z, [&](int k) { return b[k] * m; }, "*=");
    z /= m;
    chk(z, [&](int k) { return b[k]; }, "/=");
    z -= z;
    chk(z, [&](int) { return L(0); }, "z-=z");
    VP_EQ(x == y, a == b, "==");
    VP_EQ(x != y, a != b, "!=");
    VP_ASSERT(!(x < x) && x <= x && x >= x && !(x > x), "an index compared with itself");
    for(int k = 0; k < 3; ++k)
      VP_EQ(x.at(k), a[k], "at");
    VP_THROWS(std::out_of_range, x.at(3), "at(3)");
    auto sl = x.shift_left();
    VP_ASSERT(sl[0] == a[1] && sl[1] == a[2], "shift_left");
    Idx<3> w(a[0], a[1], a[2]);
    VP_ASSERT(w == x, "constructor from components");
    auto p = x, q = y;
    p.swap(q);
    VP_ASSERT(p == y && q == x, "swap");
    Idx<1> o(a[0]);
    VP_ASSERT((o++)[0] == a[0] && o[0] == a[0] + 1 && (--o)[0] == a[0], "increment");
  });
}

// ---- large extents
// bounds alone: no memory behind them
template<class B>
void huge_facts(const B & b, const std::vector<L> & e, const std::vector<L> & s, vp::Lcg & g) {
  constexpr int R = B::rank;
  VP_EQ(L(b.size()), prod(e), "size");
  VP_EQ(un(b.strides()), s, "strides");
  std::vector<L> last = e, first(R, 0);
  for(auto & x : last)
    --x;
  VP_EQ(L(b.total_size()), lin(last, s) + 1, "total size");
  auto rm = rowmajor(e);
  auto number = [&](const std::vector<L> & i) { return lin(i, rm); };
  VP_EQ(b.end() - b.begin(), prod(e), "distance");
  VP_ASSERT(b.begin() + prod(e) == b.end(), "begin + size == end");
  VP_ASSERT(b.end() - prod(e) == b.begin(), "end - size == begin");
  auto cur = b.begin();
  L pos = 0;
  for(int k = 0; k < 12; ++k) {
    std::vector<L> i(R);
    for(int d = 0; d < R; ++d)
      i[d] = k == 0 ? last[d] : L((std::uint64_t(g.next()) << 20 ^ g.next()) % std::uint64_t(e[d]));
    auto ix = mk<R>(i);
    VP_ASSERT(b.contains(ix), "index inside: " << vp::str(i));
    VP_EQ(L(b.linearize(ix)), lin(i, s), "linear position of " << vp::str(i));
    for(int d = 0; d < R; ++d)
      for(L bad : {e[d], e[d] + 1, L(-1), -i[d] - 1, i[d] + e[d], i[d] + (L(1) << 32), i[d] + (L(1) << 16)})
        if(bad < 0 || bad >= e[d]) {
          auto j = i;
          j[d] = bad;
          VP_ASSERT(!b.contains(mk<R>(j)), "index outside: " << vp::str(j));
        }
    L q = number(i);
    auto old = cur;
    if(k % 2)
      cur += q - pos;
    else
      cur = cur - (pos - q);
    VP_EQ(un(*cur), i, "index after a jump by " << q - pos);
    VP_EQ(cur - old, q - pos, "distance of a jump");
    VP_EQ(cur - b.begin(), q, "position after a jump");
    VP_EQ(old < cur, pos < q, "order after a jump");
    VP_EQ(old > cur, pos > q, "order after a jump");
    auto nx = cur;
    ++nx;
    VP_EQ(nx == b.end(), q + 1 == prod(e), "next index is the end");
    if(q + 1 < prod(e)) {
      VP_EQ(number(un(*nx)), q + 1, "next index");
      --nx;
      VP_EQ(un(*nx), i, "back again");
    }
    pos = q;
  }
}
template<int R>
void huge() {
  const L top = R == 1 ? L(1) << 60 : R == 2 ? L(1) << 30 : L(1) << 20;
  auto e = *vp::vec<L>(R, rc::gen::oneOf(vp::range<L>(1, 5), vp::range<L>(1, 100000), vp::range<L>(1, top),
    rc::gen::element<L>(255, 256, 257, 65535, 65536, 65537, L(1) << 20)));
  auto seed = *vp::range(0, 1 << 30);
  auto pad = *vp::range(0, 3);
  VP_CASE(prod(e) > 70000, "extents=" << vp::str(e) << " seed=" << seed << " pad=" << pad);
  vp::run([&] {
    vp::Lcg g(seed);
    auto s = rowmajor(e);
    huge_facts(ru::contiguous_bounds<R>(mk<R>(e)), e, s, g);
    huge_facts(ru::strided_bounds<R>(mk<R>(e), mk<R>(s)), e, s, g);
    auto t = s;
    for(auto & x : t)
      x *= pad + 1;
    huge_facts(ru::strided_bounds<R>(mk<R>(e), mk<R>(t)), e, t, g);
  });
}
VP_INST("huge1", 300, huge<1>);
VP_INST("huge2", 400, huge<2>);
VP_INST("huge3", 400, huge<3>);

template<int R>
void large_views() {
  auto e = *vp::vec<L>(R, vp::range<L>(1, R == 1 ? 140000 : R == 2 ? 500 : 60));
  auto seed = *vp::range(0, 1 << 30);
  VP_CASE(prod(e) > 1000, "extents=" << vp::str(e) << " seed=" << seed);
  vp::run([&] {
    vp::Lcg g(seed);
    auto s = rowmajor(e);
    std::vector<int> buf(prod(e));
    std::iota(buf.begin(), buf.end(), 0);
    ru::array_view<int, R> av(buf, ru::contiguous_bounds<R>(mk<R>(e)));
    ru::strided_array_view<int, R> sv(buf, ru::strided_bounds<R>(mk<R>(e), mk<R>(s)));
    auto facts = [&](const auto & v, int * base, const std::vector<L> & x) {
      VP_EQ(L(v.size()), prod(x), "size");
      auto xs = rowmajor(x);
      L n = 0;
      std::vector<L> i(R, 0);
      for(auto it = v.begin(); it != v.end(); ++it, ++n) {
        VP_ASSERT(n < prod(x), "more elements than the size");
        VP_ASSERT(&*it == base + lin(i, s), "element number " << n);
        for(int d = R; d-- > 0;) {
          if(++i[d] < x[d])
            break;
          i[d] = 0;
        }
      }
      VP_EQ(n, prod(x), "elements visited");
      for(int k = 0; k < 20; ++k) {
        for(int d = 0; d < R; ++d)
          i[d] = g.upto(int(x[d]));
        auto ix = mk<R>(i);
        VP_ASSERT(&v[ix] == base + lin(i, s) && &v.at(ix) == base + lin(i, s), "element " << vp::str(i));
        auto it = v.begin() + lin(i, xs);
        VP_ASSERT(&*it == base + lin(i, s), "jump to element " << vp::str(i));
        VP_ASSERT(&*(v.end() - (prod(x) - lin(i, xs))) == base + lin(i, s), "jump back to element " << vp::str(i));
        if constexpr(R > 1) {
          auto sl = v[std::size_t(i[0])];
          VP_ASSERT(&sl[mk<R - 1>({i.begin() + 1, i.end()})] == base + lin(i, s), "through a slice " << vp::str(i));
        }
        for(int d = 0; d < R; ++d) {
          auto j = i;
          j[d] = x[d] + g.upto(3);
          VP_THROWS(std::out_of_range, v.at(mk<R>(j)), "at(" << vp::str(j) << ")");
        }
      }
    };
    facts(av, buf.data(), e);
    facts(sv, buf.data(), e);
    std::vector<L> o(R), b(R);
    for(int d = 0; d < R; ++d) {
      o[d] = g.upto(int(e[d]));
      b[d] = 1 + g.upto(int(e[d] - o[d]));
    }
    facts(av.section(mk<R>(o), mk<R>(b)), buf.data() + lin(o, s), b);
    facts(sv.section(mk<R>(o), mk<R>(b)), buf.data() + lin(o, s), b);
  });
}
VP_INST("large1", 20, large_views<1>);
VP_INST("large2", 20, large_views<2>);
VP_INST("large3", 20, large_views<3>);

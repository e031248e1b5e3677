// U07: filtering iteration, tuple and pack helpers, times.
#include "vp.h"
#include <algorithm>
#include <array>
#include <functional>
#include <iterator>
#include <list>
#include <set>
#include <string>
#include <tuple>
#include <vector>
#include "ristra/utils/filter_iterator.h"
#include "ristra/utils/functional.h"
#include "ristra/utils/template_helpers.h"
#include "ristra/ristra-config.h"
#undef RISTRA_ENABLE_MPI // the plain clock
#include "ristra/utils/time_utils.h"
#include "ristra/utils/tuple_to_array.h"
#include "ristra/utils/type_traits.h"
#include <sys/time.h>
namespace ru = ristra::utils;

namespace {
// which values pass: a bit per value 0..9
struct Pass {
  unsigned mask;
  template<class T>
  bool operator()(const T & v) const { return mask >> (unsigned(key(v)) % 10) & 1; }
  static int key(int v) { return v; }
  static int key(const std::string & s) { return int(s.size()); }
};
template<class T>
T make(int v) {
  if constexpr(std::is_same_v<T, std::string>)
    return std::string(std::size_t(v), 'x');
  else
    return T(v);
}
template<class C>
void filtered(const std::vector<int> & a, unsigned mask, int from, bool by_lambda) {
  using T = typename C::value_type;
  C c;
  for(int x : a)
    c.push_back(make<T>(x));
  std::vector<T *> want;
  {
    int i = 0;
    for(auto & x : c)
      if(i++ >= from && Pass{mask}(x))
        want.push_back(&x);
  }
  auto first = c.begin();
  std::advance(first, from);
  auto last = c.end();
  auto work = [&](auto pred) {
    auto b = ru::make_filter_iterator(first, last, pred);
    auto e = ru::make_filter_iterator(last, last, pred);
    // prefix
    std::vector<T *> got;
    for(auto i = b; i != e; ++i) {
      VP_ASSERT(got.size() < want.size() && !(i == e), "too many elements pass");
      got.push_back(&*i);
      VP_ASSERT(i.operator->() == got.back(), "-> and * disagree");
    }
    VP_ASSERT(got == want, "prefix iteration: wrong elements");
    // postfix
    got.clear();
    for(auto i = b; i != e;) {
      auto before = i;
      auto r = i++;
      VP_ASSERT(r == before && &*r == &*before, "postfix ++ does not return the old position");
      got.push_back(&*r);
      VP_ASSERT(got.size() <= want.size(), "too many elements pass");
    }
    VP_ASSERT(got == want, "postfix iteration: wrong elements");
    VP_ASSERT((b == e) == want.empty(), "an empty selection");
    // temporaries
    VP_ASSERT(ru::make_filter_iterator(c.begin(), c.end(), pred).end() == c.end(), "end");
    // as a standard iterator
    VP_EQ(std::size_t(std::distance(b, e)), want.size(), "distance");
    std::vector<T> copy(b, e);
    VP_EQ(copy.size(), want.size(), "copied");
    for(std::size_t i = 0; i < copy.size(); ++i)
      VP_ASSERT(copy[i] == *want[i], "copied element " << i);
    // conversion to a const iterator
    using CI = typename C::const_iterator;
    ru::filter_iterator<decltype(pred), CI> cb(b), ce(e);
    std::size_t n = 0;
    for(; cb != ce; ++cb, ++n)
      VP_ASSERT(n < want.size() && &*cb == want[n], "converted iterator, element " << n);
    VP_EQ(n, want.size(), "converted iterator");
    // swap
    auto x = b, y = e;
    x.swap(y);
    VP_ASSERT(x == e && y == b && y.end() == c.end(), "swap");
    std::vector<T> s(y, x);
    VP_ASSERT(s == copy, "iteration after a swap");
    auto start = c.begin();
    auto l = ru::make_filter_iterator(start, first, pred), r = b; // ranges with different ends
    std::vector<T *> left, right;
    l.swap(r);
    VP_ASSERT(l.end() == c.end() && r.end() == first, "ends after a swap");
    for(; l.begin() != c.end() && left.size() <= want.size(); ++l)
      left.push_back(&*l);
    for(; r.begin() != first && right.size() <= a.size(); ++r)
      right.push_back(&*r);
    VP_ASSERT(left == want, "the first of two swapped iterators");
    std::size_t k = 0;
    for(auto i = c.begin(); i != first; ++i)
      if(Pass{mask}(*i))
        VP_ASSERT(k < right.size() && right[k++] == &*i, "the second of two swapped iterators");
    VP_EQ(k, right.size(), "the second of two swapped iterators");
  };
  if(by_lambda)
    work([mask](const T & v) { return Pass{mask}(v); });
  else
    work(Pass{mask});
  // writing through it reaches exactly the selected elements
  auto before = c;
  std::set<const T *> chosen(want.begin(), want.end());
  auto b = ru::make_filter_iterator(first, last, Pass{mask}), e = ru::make_filter_iterator(last, last, Pass{mask});
  for(; b != e; ++b)
    *b = make<T>(77);
  auto o = before.begin();
  for(auto & v : c) {
    if(chosen.count(&v))
      VP_ASSERT(v == make<T>(77), "a write is lost");
    else
      VP_ASSERT(v == *o, "an element that does not pass was changed");
    ++o;
  }
}
} // namespace

VP_PROP(filter, 1500) {
  auto a = *vp::vec<int>(0, 16, vp::range(0, 9));
  unsigned mask = unsigned(*rc::gen::weightedOneOf<int>({{8, vp::range(0, 1023)}, {1, rc::gen::just(0)}, {1, rc::gen::just(1023)}}));
  int from = *rc::gen::weightedOneOf<int>({{2, rc::gen::just(0)}, {1, vp::range(0, (int)a.size())}});
  bool lambda = *vp::coin();
  int pass = 0;
  for(std::size_t i = from; i < a.size(); ++i)
    pass += Pass{mask}(a[i]);
  VP_CASE(pass > 1 && pass < int(a.size()) - from, "a=" << vp::str(a) << " mask=" << mask << " from=" << from);
  vp::run([&] {
    filtered<std::vector<int>>(a, mask, from, lambda);
    filtered<std::list<int>>(a, mask, from, lambda);
    filtered<std::vector<std::string>>(a, mask, from, lambda);
    // pointers
    std::vector<int> v = a;
    const int *p = v.data() + from, *q = v.data() + v.size();
    auto b = ru::make_filter_iterator(p, q, Pass{mask}), e = ru::make_filter_iterator(q, q, Pass{mask});
    std::vector<int> want;
    std::copy_if(p, q, std::back_inserter(want), Pass{mask});
    VP_EQ(std::vector<int>(b, e), want, "a filtered range of pointers");
  });
}
VP_PROP(seconds, 3000) {
  long long t = *rc::gen::oneOf(vp::full<long long>(), vp::range<long long>(-400000, 400000),
    rc::gen::map(rc::gen::tuple(vp::range<long long>(-200, 200), rc::gen::element<long long>(86400, 3600, 60, 604800),
                   vp::range<long long>(-1, 1)),
      [](auto x) { return std::get<0>(x) * std::get<1>(x) + std::get<2>(x); }));
  VP_CASE(t > 86400 || t < -86400, "t=" << t);
  vp::run([&] {
    long long d = 99;
    int h = 99, m = 99, s = 99;
    ru::daysHoursMinutesSeconds(t, d, h, m, s);
    VP_EQ(((d * 24 + h) * 60 + m) * 60LL + s, t, "days, hours, minutes and seconds of " << t);
    VP_ASSERT(std::abs(h) < 24 && std::abs(m) < 60 && std::abs(s) < 60,
      t << " seconds split into " << d << " d " << h << " h " << m << " m " << s << " s");
    if(t >= 0)
      VP_ASSERT(d >= 0 && h >= 0 && m >= 0 && s >= 0, t << " seconds have a negative part");
    else
      VP_ASSERT(d <= 0 && h <= 0 && m <= 0 && s <= 0, t << " seconds have a positive part");
  });
}
VP_PROP(wall_time, 300) {
  int n = *vp::range(1, 20);
  VP_CASE(n > 1, "n=" << n);
  vp::run([&] {
    auto now = [] {
      timeval v;
      gettimeofday(&v, nullptr);
      return double(v.tv_sec) + double(v.tv_usec) * 1e-6;
    };
    for(int i = 0; i < n; ++i) { // the clock may be set back, but then so is ours
      double a = now(), t = ru::get_wall_time(), b = now();
      if(a <= b)
        VP_ASSERT(t >= a - 1e-6 && t <= b + 1e-6, "the wall time is " << t << " between " << a << " and " << b);
    }
  });
}
VP_PROP(packs, 1000) {
  auto v = *vp::vec<long>(6, 6, vp::range<long>(-1000, 1000));
  double x = *vp::dyadic(64, 4);
  auto s = *vp::vec<char>(0, 20, vp::range<char>('a', 'z'));
  std::string str(s.begin(), s.end());
  VP_CASE(v[0] != v[1], "v=" << vp::str(v) << " x=" << x << " s=" << str);
  vp::run([&] {
    // tuple -> array
    auto a3 = ru::to_array(std::make_tuple(v[0], v[1], v[2]));
    static_assert(std::is_same_v<decltype(a3), std::array<long, 3>>);
    VP_ASSERT((a3 == std::array<long, 3>{v[0], v[1], v[2]}), "array of a tuple of three");
    auto a1 = ru::to_array(std::make_tuple(str));
    VP_EQ(a1[0], str, "array of a tuple of one");
    auto a6 = ru::to_array(std::make_tuple(v[0], v[1], v[2], v[3], v[4], v[5]));
    for(int i = 0; i < 6; ++i)
      VP_EQ(a6[i], v[i], "array of a tuple of six, element " << i);
    auto as = ru::to_array(std::make_tuple(str, str + "!", std::string("z")));
    VP_ASSERT(as[0] == str && as[1] == str + "!" && as[2] == "z", "array of a tuple of strings");
    // products
    VP_EQ(ru::multiply(v[0]), v[0], "product of one");
    VP_EQ(ru::multiply(v[0], v[1], v[2], v[3]), v[0] * v[1] * v[2] * v[3], "product of four");
    VP_EQ(ru::multiply(), 1u, "empty product");
    VP_EQ(ru::multiply(2.0, x, 3.0), 6 * x, "product of reals");
    // arrays of one value
    auto f4 = ru::fill<4>::apply(str);
    static_assert(std::is_same_v<decltype(f4), std::array<std::string, 4>>);
    for(auto & e : f4)
      VP_EQ(e, str, "fill<4>");
    VP_EQ(ru::fill<1>::apply(x)[0], x, "fill<1>");
    auto m5 = ru::make_array<long, 5>(v[3]);
    for(auto & e : m5)
      VP_EQ(e, v[3], "make_array");
    // ties
    long w = v[0], u = v[1];
    auto t = ru::ctie(w, u, str);
    std::get<0>(t) = v[2];
    VP_EQ(w, v[2], "a write through ctie");
    u = v[4];
    VP_EQ(std::get<1>(t), v[4], "ctie copies instead of referring");
    VP_ASSERT(&std::get<2>(t) == &str && &std::get<0>(t) == &w && &std::get<1>(t) == &u, "ctie refers to another object");
    VP_EQ(ru::as_lvalue(v[1] + 1), v[1] + 1, "as_lvalue");
    long y = v[0];
    VP_ASSERT(&ru::as_lvalue(y) == &y, "as_lvalue of an lvalue");
    // named arithmetic
    VP_EQ(ru::plus(v[0], v[1]), v[0] + v[1], "plus");
    VP_EQ(ru::minus(v[0], v[1]), v[0] - v[1], "minus");
    VP_EQ(ru::multiplies(v[0], x), v[0] * x, "multiplies");
    if(v[2])
      VP_EQ(ru::divides(v[1], v[2]), v[1] / v[2], "divides");
    VP_EQ(ru::plus(str, std::string("+")), str + "+", "plus of strings");
    VP_EQ(ru::minus(int(v[0]), x), int(v[0]) - x, "minus of mixed types");
  });
}

VP_PROP(filter_large, 120) {
  auto n = *vp::large(70000);
  auto per = *rc::gen::element(1, 2, 10, 1000, 40000, 1000000);
  auto seed = *vp::range(0, 1000000);
  VP_CASE(n > 255, "n=" << n << " one in " << per << " seed=" << seed);
  vp::run([&] {
    vp::Lcg g(seed);
    std::vector<int> v(n);
    for(auto & x : v)
      x = g.upto(per);
    auto pass = [](int x) { return x == 0; };
    std::vector<const int *> want, got;
    for(auto & x : v)
      if(pass(x))
        want.push_back(&x);
    auto e = ru::make_filter_iterator(v.end(), v.end(), pass);
    for(auto b = ru::make_filter_iterator(v.begin(), v.end(), pass); b != e; ++b)
      got.push_back(&*b);
    VP_ASSERT(got == want, "filtering " << n << " elements yields " << got.size() << " of " << want.size());
  });
}

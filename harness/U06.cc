// U06: set helpers of utils/algorithm.h.
#include "vp.h"
#include <algorithm>
#include <deque>
#include <iterator>
#include <list>
#include <map>
#include <string>
#include <vector>
#include "ristra/utils/algorithm.h"
namespace ru = ristra::utils;

template<class T, class G>
void intersection_of(G gen) {
  auto a = *vp::vec<T>(0, 14, gen());
  auto b = *vp::vec<T>(0, 14, gen());
  std::map<T, int> ca, cb;
  for(auto & x : a)
    ++ca[x];
  for(auto & x : b)
    ++cb[x];
  std::vector<T> want;
  for(auto & [k, n] : ca) {
    auto it = cb.find(k);
    for(int i = 0; it != cb.end() && i < std::min(n, it->second); ++i)
      want.push_back(k);
  }
  VP_CASE(want.size() > 1, "a=" << vp::str(a) << " b=" << vp::str(b));
  vp::run([&] {
    const auto a0 = a, b0 = b;
    std::vector<T> out;
    ru::unsorted_set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(out));
    VP_EQ(out, want, "intersection");
    VP_ASSERT(a == a0 && b == b0, "the operands changed");
    std::vector<T> rev;
    ru::unsorted_set_intersection(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(rev));
    VP_EQ(rev, want, "intersection with the operands exchanged");
    std::list<T> la(a.begin(), a.end());
    std::vector<T> buf(want.size());
    auto e = ru::unsorted_set_intersection(la.begin(), la.end(), b.data(), b.data() + b.size(), buf.begin());
    VP_ASSERT(e == buf.end(), "returned end of the output");
    VP_EQ(buf, want, "intersection of a list with a range of pointers");
  });
}
void inter_int() { intersection_of<int>([] { return vp::range(0, 12); }); }
void inter_neg() { intersection_of<long>([] { return vp::range<long>(-1000000, 1000000); }); }
void inter_str() {
  intersection_of<std::string>([] { return rc::gen::map(vp::vec<char>(0, 2, rc::gen::element('a', 'b')),
    [](std::vector<char> v) { return std::string(v.begin(), v.end()); }); });
}
VP_INST("intersection_int", 1500, inter_int);
VP_INST("intersection_long", 300, inter_neg);
VP_INST("intersection_string", 500, inter_str);

VP_PROP(duplicates, 1500) {
  auto a = *vp::vec<int>(0, 20, vp::range(0, 4));
  bool sort = *vp::coin();
  if(sort)
    std::sort(a.begin(), a.end());
  std::vector<int> want;
  for(int x : a)
    if(want.empty() || want.back() != x)
      want.push_back(x);
  VP_CASE(want.size() != a.size() && want.size() > 1, "a=" << vp::str(a));
  vp::run([&] {
    auto v = a;
    ru::remove_duplicates(v);
    VP_EQ(v, want, "vector without repeats");
    ru::remove_duplicates(v);
    VP_EQ(v, want, "a second pass");
    std::list<int> l(a.begin(), a.end());
    ru::remove_duplicates(l);
    VP_EQ(std::vector<int>(l.begin(), l.end()), want, "list without repeats");
    std::deque<std::string> d;
    for(int x : a)
      d.push_back(std::string(20, char('a' + x)));
    ru::remove_duplicates(d);
    VP_EQ(d.size(), want.size(), "deque without repeats");
    for(std::size_t i = 0; i < want.size(); ++i)
      VP_EQ(d[i], std::string(20, char('a' + want[i])), "deque element " << i);
  });
}

VP_PROP(mixed_and_large, 250) {
  auto n = *vp::large(20000);
  auto m = *rc::gen::oneOf(vp::range(0, 40), vp::large(20000));
  auto top = *rc::gen::element(3, 50, 300, 70000, 1000000);
  auto seed = *vp::range(0, 1000000);
  VP_CASE(n > 255, "n=" << n << " m=" << m << " values below " << top << " seed=" << seed);
  vp::run([&] {
    vp::Lcg g(seed);
    std::vector<int> a;
    std::deque<long long> b;
    for(int i = 0; i < n; ++i)
      a.push_back(g.upto(top) - top / 2);
    for(int i = 0; i < m; ++i)
      b.push_back(g.upto(top) - top / 2);
    std::map<long long, int> ca, cb;
    for(auto x : a)
      ++ca[x];
    for(auto x : b)
      ++cb[x];
    std::vector<long long> want, got;
    for(auto & [k, c] : ca)
      if(cb.count(k))
        want.insert(want.end(), std::min(c, cb[k]), k);
    const auto a0 = a;
    const auto b0 = b;
    ru::unsorted_set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(got));
    VP_ASSERT(got == want, "intersection of " << n << " ints and " << m << " long longs");
    got.clear();
    ru::unsorted_set_intersection(b.cbegin(), b.cend(), a.cbegin(), a.cend(), std::back_inserter(got));
    VP_ASSERT(got == want, "intersection of " << m << " long longs and " << n << " ints");
    VP_ASSERT(a == a0 && b == b0, "the operands changed");
    std::sort(a.begin(), a.end());
    ru::remove_duplicates(a);
    VP_EQ(a.size(), ca.size(), "distinct values");
    std::size_t i = 0;
    for(auto & [k, c] : ca)
      VP_ASSERT(a[i++] == k, "distinct value " << i);
  });
}

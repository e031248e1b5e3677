// U04: non-owning views and bounded strings.
#include "vp.h"
#include <array>
#include <cassert>
#include <cstddef>
#include <stdexcept>
#include "ristra/utils/array_ref.h"
#include "ristra/utils/const_string.h"
#include "ristra/utils/trivial_string.h"
using ristra::utils::array_ref;
using ristra::utils::make_array_ref;

namespace {
struct Op {
  int k;
  unsigned a, b;
};
const char * nm[] = {"substr(p)", "substr(p,n)", "remove_prefix", "remove_suffix",
  "pop_front", "pop_back", "copy", "assign", "substr(beyond)", "clear"};
void showValue(const Op & o, std::ostream & os) {
  os << nm[o.k] << "/" << o.a << "/" << o.b;
}
rc::Gen<Op> op() {
  return rc::gen::exec([] {
    Op o;
    o.k = *rc::gen::weightedElement<int>({{3, 0}, {3, 1}, {3, 2}, {3, 3}, {2, 4}, {2, 5},
      {1, 6}, {1, 7}, {1, 8}, {1, 9}});
    o.a = *vp::range(0u, 60u);
    o.b = *vp::range(0u, 60u);
    return o;
  });
}
template<class T>
void same(const array_ref<T> & r, const T * p, std::size_t n, const std::string & w) {
  VP_EQ(r.size(), n, w << ": size");
  VP_EQ(r.empty(), n == 0, w << ": empty");
  VP_ASSERT(r.data() == p, w << ": does not view the right elements");
  VP_ASSERT(r.begin() == p && r.end() == p + n, w << ": begin/end");
  VP_ASSERT(r.cbegin() == p && r.cend() == p + n, w << ": cbegin/cend");
  std::size_t i = n;
  for(auto it = r.rbegin(); it != r.rend(); ++it) {
    VP_ASSERT(i > 0, w << ": reverse iteration too long");
    VP_ASSERT(&*it == p + --i, w << ": reverse iteration");
  }
  VP_EQ(i, std::size_t(0), w << ": reverse iteration length");
  VP_ASSERT(r.crbegin() == r.rbegin() && r.crend() == r.rend(), w << ": crbegin/crend");
  for(i = 0; i < n; ++i)
    VP_ASSERT(&r[i] == p + i && &r.at(i) == p + i, w << ": element " << i);
  if(n) {
    VP_ASSERT(&r.front() == p && &r.back() == p + n - 1, w << ": front/back");
  }
  VP_THROWS(std::out_of_range, r.at(n), w << ": at(size())");
  VP_THROWS(std::out_of_range, r.at(n + 5), w << ": at(size()+5)");
  VP_THROWS(std::out_of_range, r.at(std::size_t(-1)), w << ": at(-1)");
  auto v = r.vec();
  VP_EQ(v, std::vector<T>(p, p + n), w << ": vec()");
  VP_EQ(static_cast<std::vector<T>>(r), v, w << ": conversion to vector");
}
template<class T>
void history() {
  auto data = *vp::vec<T>(0, 40, vp::range<T>(0, 100));
  auto ops = *vp::seq<Op>(14, op());
  std::ostringstream t;
  for(auto & o : ops) {
    showValue(o, t);
    t << " ";
  }
  VP_CASE(data.size() >= 3 && ops.size() >= 2, "size=" << data.size() << " " << t.str());
  vp::run([&] {
    array_ref<T> r(data), keep;
    const T * p = data.data();
    std::size_t n = data.size();
    same(keep, (const T *)nullptr, 0, "default view");
    same(r, p, n, "fresh view");
    auto copy = data;
    int step = 0;
    for(auto & o : ops) {
      std::string w = "step " + std::to_string(step++) + " " + nm[o.k];
      std::size_t q = n ? o.a % (n + 1) : 0, c = o.b;
      switch(o.k) {
        case 0:
          r = r.substr(q);
          p += q;
          n -= q;
          break;
        case 1:
          r = r.substr(q, c);
          p += q;
          n = std::min(n - q, c);
          break;
        case 2:
          r.remove_prefix(q);
          p += q;
          n -= q;
          break;
        case 3:
          r.remove_suffix(q);
          n -= q;
          break;
        case 4:
          if(n) {
            r.pop_front();
            ++p;
            --n;
          }
          break;
        case 5:
          if(n) {
            r.pop_back();
            --n;
          }
          break;
        case 6: {
          array_ref<T> z(r);
          same(z, p, n, w + " (copy)");
          break;
        }
        case 7: {
          array_ref<T> z;
          z = r;
          z.remove_suffix(n);
          same(z, p, 0, w + " (copy emptied)");
          break;
        }
        case 8: { // a start beyond the end is clamped to the end
          auto z = r.substr(n + 1 + q, c);
          same(z, p + n, 0, w);
          break;
        }
        case 9:
          if(o.a % 3 == 0) {
            r.clear();
            same(r, (const T *)nullptr, 0, w);
            r = array_ref<T>(data);
            p = data.data();
            n = data.size();
          }
          break;
      }
      same(r, p, n, w);
    }
    VP_EQ(data, copy, "viewed data changed");
  });
}
} // namespace
VP_INST("array_ref_int", 2500, history<int>);
VP_INST("array_ref_char", 1500, history<signed char>);

VP_PROP(array_ref_sources, 1200) {
  auto v = *vp::vec<int>(7, vp::range(-9, 9));
  auto s = *rc::gen::container<std::string>(
    rc::gen::weightedOneOf<char>({{6, rc::gen::inRange<char>('a', 'z')}, {1, rc::gen::just('\0')}, {1, vp::range<char>(-128, 127)}}));
  auto n = *vp::range(0, 7);
  VP_CASE(!s.empty() && n > 0, "v=" << vp::str(v) << " s=" << vp::str(s) << " n=" << n);
  vp::run([&] {
    int c[7];
    std::array<int, 7> a;
    for(int i = 0; i < 7; ++i)
      c[i] = a[i] = v[i];
    same(array_ref<int>(v), v.data(), v.size(), "from vector");
    same(array_ref<int>(c), (const int *)c, 7, "from C array");
    same(array_ref<int>(a), (const int *)a.data(), 7, "from std::array");
    same(array_ref<int>(v.data(), n), (const int *)v.data(), n, "from pointer+length");
    same(make_array_ref(v), (const int *)v.data(), v.size(), "make from vector");
    same(make_array_ref(c), (const int *)c, 7, "make from C array");
    same(make_array_ref(a), (const int *)a.data(), 7, "make from std::array");
    same(make_array_ref((const int *)v.data(), n), (const int *)v.data(), n,
      "make from pointer+length");
    array_ref<char> r(s);
    same(r, s.data(), s.size(), "from string");
    VP_EQ(r.str(), s, "str()");
    VP_EQ(r.substr(s.size() / 2).str(), s.substr(s.size() / 2), "substr().str()");
    VP_EQ(static_cast<std::string>(r), s, "conversion to string");
    // the view sees later writes
    v[n % 7] = 77;
    VP_EQ(array_ref<int>(v)[n % 7], 77, "view after write");
  });
}

// ---- long views
VP_PROP(large, 60) {
  auto n = std::size_t(*vp::large(70000));
  auto seed = *vp::range(0, 1 << 30);
  VP_CASE(true, "n=" << n << " seed=" << seed);
  vp::run([&] {
    vp::Lcg g(seed);
    std::vector<short> v(n);
    for(auto & x : v)
      x = short(g.next());
    std::string s(n, ' ');
    for(auto & x : s)
      x = char(g.next());
    array_ref<short> r(v);
    same(r, (const short *)v.data(), n, "long view");
    std::size_t q = g.upto(int(n) + 1), c = g.upto(int(n) + 1);
    same(r.substr(q), (const short *)v.data() + q, n - q, "long substr(p)");
    same(r.substr(q, c), (const short *)v.data() + q, std::min(n - q, c), "long substr(p,n)");
    r.remove_prefix(q);
    r.remove_suffix(std::min(n - q, c));
    same(r, (const short *)v.data() + q, n - q - std::min(n - q, c), "long view without ends");
    VP_EQ(array_ref<char>(s).str(), s, "long str()");
    auto ts = ristra::utils::to_trivial_string<70010>(std::string(n, 'x') + "yz");
    VP_EQ(ts.str(), (std::string(n, 'x') + "yz").substr(0, 70009), "long trivial string");
    auto t3 = ristra::utils::to_trivial_string<300>(std::string(n, 'x') + "yz");
    VP_EQ(t3.str(), (std::string(n, 'x') + "yz").substr(0, 299), "long string in a trivial string of 300");
  });
}

static rc::Gen<char> any_char() { // all but the terminator
  return rc::gen::map(vp::range(1, 255), [](int c) { return char(c); });
}
// ---- trivial_string: fixed storage, always terminated
template<std::size_t N>
static void trivial() {
  using ristra::utils::to_trivial_string;
  using TS = ristra::utils::trivial_string<N>;
  static_assert(std::is_trivially_copyable<TS>::value, "not trivially copyable");
  auto s = *rc::gen::mapcat(
    rc::gen::oneOf(vp::range(0, int(2 * N + 4)), vp::range(int(N) - 1, int(N) + 1)),
    [](int n) { return rc::gen::container<std::string>(n, any_char()); });
  auto t = *rc::gen::container<std::string>(any_char());
  vp::tag(s.size() < N ? "fits" : "too long");
  VP_CASE(!s.empty(), "N=" << N << " s=" << vp::str(s));
  vp::run([&] {
    struct Guard { // neighbours must stay as they are
      unsigned long a;
      TS s;
      unsigned long b;
    } g;
    g.a = g.b = 0x5aa55aa55aa55aa5ul;
    g.s = to_trivial_string<N>(s);
    VP_ASSERT(g.a == 0x5aa55aa55aa55aa5ul && g.b == 0x5aa55aa55aa55aa5ul,
      "storage next to the string changed");
    auto want = s.substr(0, N - 1);
    VP_EQ(g.s.str(), want, "str()");
    VP_EQ(std::string(g.s.c_str()), want, "c_str()");
    VP_EQ(std::string(g.s.data()), want, "data()");
    VP_EQ(TS::size(), N, "size()");
    const TS & cs = g.s;
    for(std::size_t i = 0; i < want.size(); ++i) {
      VP_EQ(cs[i], want[i], "operator[] " << i);
    }
    VP_EQ(int(cs[want.size()]), 0, "terminator");
    auto copy = g.s;
    TS raw;
    std::memcpy(&raw, &g.s, sizeof raw);
    if(want.size()) {
      copy[0] = char('A');
      VP_EQ(copy.str(), "A" + want.substr(1), "write through operator[]");
      VP_EQ(g.s.str(), want, "copies are independent");
    }
    VP_EQ(raw.str(), want, "bytewise copy");
    auto other = to_trivial_string<N>(t);
    other = g.s;
    VP_EQ(other.str(), want, "assignment");
  });
}
VP_INST("trivial_1", 150, trivial<1>);
VP_INST("trivial_2", 300, trivial<2>);
VP_INST("trivial_16", 1200, trivial<16>);
VP_INST("trivial_256", 600, trivial<256>);

// ---- const_string
template<std::size_t N>
static void cstring(const std::string & s) {
  char a[N + 1];
  for(std::size_t i = 0; i < N; ++i)
    a[i] = i < s.size() ? s[i] : 'q';
  a[N] = 0;
  ristra::utils::const_string c(a);
  VP_EQ(c.size(), N, "const_string size");
  VP_ASSERT(c.c_str() == a, "const_string c_str");
  for(std::size_t i = 0; i < N; ++i)
    VP_EQ(c[i], a[i], "const_string element " << i);
  VP_THROWS(std::out_of_range, c[N], "const_string[size()]");
  VP_THROWS(std::out_of_range, c[N + 1], "const_string[size()+1]");
  VP_THROWS(std::out_of_range, c[std::size_t(-1)], "const_string[-1]");
}
VP_PROP(const_strings, 400) {
  auto s = *rc::gen::container<std::string>(vp::range<char>(-128, 127));
  VP_CASE(!s.empty(), "s=" << vp::str(s));
  vp::run([&] {
    cstring<300>(s);
    cstring<70000>(s);
    cstring<0>(s);
    cstring<1>(s);
    cstring<5>(s);
    cstring<23>(s);
    cstring<80>(s);
  });
}

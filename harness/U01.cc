// U01: a fixed-capacity vector behaves as std::vector on every history that
// stays within its capacity.
#include "vp.h"
#include <array>
#include <iterator>
#include <list>
#include <memory>
#include <sstream>
#include "ristra/utils/fixed_vector.h"

namespace {
struct Op {
  int k;
  unsigned a, b, c;
  std::vector<int> vals;
};
const char * names[] = {"push_back(const&)", "push_back(&&)", "emplace_back",
  "pop_back", "insert(pos,const&)", "insert(pos,&&)", "insert(pos,n,v)",
  "insert(pos,first,last)", "insert(pos,{...})", "erase(pos)",
  "erase(first,last)", "clear", "resize(n)", "resize(n,v)", "assign(n,v)",
  "assign(first,last)", "assign({...})", "swap", "copy-construct",
  "move-construct", "copy-assign", "move-assign", "construct(n,v)",
  "construct(first,last)", "construct(n)", "write", "construct{...}",
  "insert(pos,list range)", "insert(pos,own element)", "insert(pos,n,own element)",
  "push_back(own element)", "insert(pos,range of the other)"};
constexpr int nops = sizeof names / sizeof *names;
std::ostream & operator<<(std::ostream & os, const Op & o) {
  return os << names[o.k] << "/" << o.a << "/" << o.b << "/" << o.c
            << vp::str(o.vals);
}
void showValue(const Op & o, std::ostream & os) {
  os << o;
}

template<class T>
struct Make;
template<>
struct Make<int> {
  static int of(int v) { return v; }
};
template<>
struct Make<std::string> {
  static std::string of(int v) {
    std::string s = std::to_string(v);
    return v % 2 ? s + std::string(40, 'x') : s; // short and heap strings
  }
};
template<>
struct Make<double> { // equal values with different bits
  static double of(int v) { return v == 0 ? 0.0 : v == 1 ? -0.0 : v / 4.0; }
};
// An element that owns storage and poisons itself when moved from.
struct Owner {
  std::unique_ptr<int> p;
  Owner() : p(new int(-7)) {}
  explicit Owner(int v) : p(new int(v)) {}
  Owner(const Owner & o) : p(o.p ? new int(*o.p) : nullptr) {}
  Owner(Owner && o) noexcept : p(std::move(o.p)) {}
  Owner & operator=(const Owner & o) {
    p.reset(o.p ? new int(*o.p) : nullptr);
    return *this;
  }
  Owner & operator=(Owner && o) noexcept {
    p = std::move(o.p);
    return *this;
  }
  bool operator==(const Owner & o) const {
    return p && o.p && *p == *o.p;
  }
  bool operator!=(const Owner & o) const { return !(*this == o); }
};
std::ostream & operator<<(std::ostream & os, const Owner & o) {
  if(o.p)
    return os << *o.p;
  return os << "<moved-from>";
}
template<>
struct Make<Owner> {
  static Owner of(int v) { return Owner(v); }
};

template<class T, std::size_t N>
void compare(const ristra::utils::fixed_vector<T, N> & v, const std::vector<T> & m,
  const std::string & what) {
  VP_EQ(v.size(), m.size(), what << ": size");
  VP_EQ(v.empty(), m.empty(), what << ": empty");
  VP_EQ(v.capacity(), N, what << ": capacity");
  VP_EQ(v.max_size(), N, what << ": max_size");
  VP_EQ(std::size_t(v.end() - v.begin()), m.size(), what << ": end-begin");
  VP_EQ(std::size_t(v.cend() - v.cbegin()), m.size(), what << ": cend-cbegin");
  for(std::size_t i = 0; i < m.size(); ++i) {
    VP_EQ(v[i], m[i], what << ": element " << i);
    VP_EQ(v.at(i), m[i], what << ": at " << i);
    VP_EQ(*(v.begin() + i), m[i], what << ": iterator " << i);
    VP_EQ(v.data()[i], m[i], what << ": data " << i);
  }
  std::size_t i = m.size();
  for(auto r = v.rbegin(); r != v.rend(); ++r) {
    VP_ASSERT(i > 0, what << ": reverse iteration is too long");
    VP_EQ(*r, m[--i], what << ": reverse element " << i);
  }
  VP_EQ(i, std::size_t(0), what << ": reverse iteration length");
  if(!m.empty()) {
    VP_EQ(v.front(), m.front(), what << ": front");
    VP_EQ(v.back(), m.back(), what << ": back");
  }
  VP_THROWS(std::out_of_range, v.at(m.size()), what << ": at(size())");
  VP_THROWS(std::out_of_range, v.at(m.size() + 3), what << ": at(size()+3)");
}

template<class T, std::size_t N>
void history(const std::vector<Op> & ops) {
  using V = ristra::utils::fixed_vector<T, N>;
  V v[2];
  std::vector<T> m[2];
  int step = 0;
  for(const auto & o : ops) {
    int w = o.c & 1;
    V & x = v[w];
    std::vector<T> & y = m[w];
    V & x2 = v[1 - w];
    std::vector<T> & y2 = m[1 - w];
    std::size_t room = N - y.size();
    std::size_t pos = o.a % (y.size() + 1);
    std::vector<T> vals;
    for(int q : o.vals)
      vals.push_back(Make<T>::of(q));
    T val = Make<T>::of(o.vals.empty() ? 5 : o.vals[0]);
    std::ostringstream ws;
    ws << "step " << step << " " << names[o.k] << " on #" << w << " pos=" << pos;
    std::string what = ws.str();
    auto at_iter = [&](typename V::iterator it, std::size_t want) {
      VP_EQ(std::size_t(it - x.begin()), want, what << ": returned iterator");
    };
    auto il = [&](std::size_t n, auto && f) {
      T d[4];
      for(std::size_t i = 0; i < 4 && i < vals.size(); ++i)
        d[i] = vals[i];
      switch(n) {
        case 0: f(std::initializer_list<T>{}); break;
        case 1: f(std::initializer_list<T>{d[0]}); break;
        case 2: f(std::initializer_list<T>{d[0], d[1]}); break;
        case 3: f(std::initializer_list<T>{d[0], d[1], d[2]}); break;
        default: f(std::initializer_list<T>{d[0], d[1], d[2], d[3]});
      }
    };
    auto clip = [&](std::size_t n) {
      if(vals.size() > n)
        vals.resize(n);
    };
    switch(o.k) {
      case 0:
        if(room) {
          x.push_back(val);
          y.push_back(val);
        }
        break;
      case 1:
        if(room) {
          T t = val;
          x.push_back(std::move(t));
          y.push_back(val);
        }
        break;
      case 2:
        if(room) {
          if constexpr(std::is_same<T, std::string>::value) { // constructor arguments
            x.emplace_back(std::size_t(65 + pos % 8), 'a');
            y.emplace_back(std::size_t(65 + pos % 8), 'a');
          }
          else {
            x.emplace_back(val);
            y.push_back(val);
          }
        }
        break;
      case 3:
        x.pop_back(); // documented no-op when empty
        if(!y.empty())
          y.pop_back();
        break;
      case 4:
        if(room) {
          at_iter(x.insert(x.begin() + pos, val), pos);
          y.insert(y.begin() + pos, val);
        }
        break;
      case 5:
        if(room) {
          T t = val;
          at_iter(x.insert(x.begin() + pos, std::move(t)), pos);
          y.insert(y.begin() + pos, val);
        }
        break;
      case 6: {
        std::size_t n = o.b % (room + 1);
        at_iter(x.insert(x.begin() + pos, n, val), pos);
        y.insert(y.begin() + pos, n, val);
        break;
      }
      case 7: {
        clip(room);
        at_iter(x.insert(x.begin() + pos, vals.begin(), vals.end()), pos);
        y.insert(y.begin() + pos, vals.begin(), vals.end());
        break;
      }
      case 8: {
        clip(std::min<std::size_t>(room, 4));
        il(vals.size(), [&](std::initializer_list<T> l) {
          at_iter(x.insert(x.begin() + pos, l), pos);
          y.insert(y.begin() + pos, l);
        });
        break;
      }
      case 9:
        if(!y.empty()) {
          std::size_t p = o.a % y.size();
          at_iter(x.erase(x.begin() + p), p);
          y.erase(y.begin() + p);
        }
        break;
      case 10: {
        std::size_t n = o.b % (y.size() - pos + 1);
        at_iter(x.erase(x.begin() + pos, x.begin() + pos + n), pos);
        y.erase(y.begin() + pos, y.begin() + pos + n);
        break;
      }
      case 11:
        x.clear();
        y.clear();
        break;
      case 12: { // values of new elements are unspecified: set them
        std::size_t n = o.b % (N + 1), old = y.size();
        x.resize(n);
        y.resize(n);
        VP_EQ(x.size(), n, what << ": size");
        for(std::size_t i = old; i < n; ++i)
          x[i] = y[i] = val;
        break;
      }
      case 13: {
        std::size_t n = o.b % (N + 1);
        if(!y.empty() && o.a % 3 == 0) { // one of its own elements
          x.resize(n, x[pos % y.size()]);
          y.resize(n, y[pos % y.size()]);
        }
        else {
          x.resize(n, val);
          y.resize(n, val);
        }
        break;
      }
      case 14: {
        std::size_t n = o.b % (N + 1);
        if(o.a % 2) {
          x.assign(n, val);
          y.assign(n, val);
        }
        else { // a literal count, as users write it
          x.assign(int(n), val);
          y.assign(int(n), val);
        }
        break;
      }
      case 15:
        clip(N);
        x.assign(vals.begin(), vals.end());
        y = vals;
        break;
      case 16:
        clip(std::min<std::size_t>(N, 4));
        il(vals.size(), [&](std::initializer_list<T> l) {
          x.assign(l);
          y.assign(l);
        });
        break;
      case 17:
        x.swap(x2);
        y.swap(y2);
        break;
      case 18: {
        V t(x2);
        compare(t, y2, what + " (copy)");
        x = t;
        y = y2;
        break;
      }
      case 19: {
        V t(x2);
        V u(std::move(t));
        compare(u, y2, what + " (moved)");
        x = u;
        y = y2;
        break;
      }
      case 20:
        x = x2;
        y = y2;
        break;
      case 21: {
        V t(x2);
        x = std::move(t);
        y = y2;
        break;
      }
      case 22: {
        std::size_t n = o.b % (N + 1);
        V t(n, val);
        compare(t, std::vector<T>(n, val), what);
        x = t;
        y.assign(n, val);
        break;
      }
      case 23: {
        clip(N);
        V t(vals.begin(), vals.end());
        compare(t, vals, what);
        x = t;
        y = vals;
        break;
      }
      case 24: {
        std::size_t n = o.b % (N + 1);
        V t(n);
        VP_EQ(t.size(), n, what << ": size");
        for(std::size_t i = 0; i < n; ++i)
          t.at(i) = val;
        x = t;
        y.assign(n, val);
        break;
      }
      case 25: // write through every access path
        if(!y.empty()) {
          std::size_t p = o.a % y.size();
          switch(o.b % 5) {
            case 0: x[p] = val; break;
            case 1: x.at(p) = val; break;
            case 2: *(x.begin() + p) = val; break;
            case 3: x.data()[p] = val; break;
            default:
              p = (o.a & 1) ? 0 : y.size() - 1;
              ((o.a & 1) ? x.front() : x.back()) = val;
          }
          y[p] = val;
        }
        break;
      case 26:
        clip(std::min<std::size_t>(N, 4));
        il(vals.size(), [&](std::initializer_list<T> l) {
          V t(l);
          compare(t, std::vector<T>(l), what);
          x = t;
          y.assign(l);
        });
        break;
      case 27: {
        clip(room);
        std::list<T> l(vals.begin(), vals.end());
        at_iter(x.insert(x.begin() + pos, l.begin(), l.end()), pos);
        y.insert(y.begin() + pos, l.begin(), l.end());
        break;
      }
      case 28: // an element of the vector itself
        if(room && !y.empty()) {
          std::size_t p = o.b % y.size();
          at_iter(x.insert(x.begin() + pos, x[p]), pos);
          y.insert(y.begin() + pos, y[p]);
        }
        break;
      case 29:
        if(!y.empty()) {
          std::size_t p = o.b % y.size(), n = (o.b / 3) % (room + 1);
          at_iter(x.insert(x.begin() + pos, n, x[p]), pos);
          y.insert(y.begin() + pos, n, y[p]);
        }
        break;
      case 30:
        if(room && !y.empty()) {
          std::size_t p = o.a % y.size();
          if(o.b % 2)
            x.push_back(x[p]);
          else
            x.emplace_back(x[p]);
          y.push_back(T(y[p]));
        }
        break;
      case 31: // a range out of the other vector, the vector onto itself
        clip(0);
        {
          std::size_t n = std::min<std::size_t>(room, y2.size());
          at_iter(x.insert(x.begin() + pos, x2.begin(), x2.begin() + n), pos);
          y.insert(y.begin() + pos, y2.begin(), y2.begin() + n);
          V & self = x;
          x = self;
        }
        break;
    }
    compare(v[0], m[0], what + " -> #0");
    compare(v[1], m[1], what + " -> #1");
    VP_EQ((v[0] == v[1]), (m[0] == m[1]), what << ": equality");
    VP_EQ((v[1] == v[0]), (m[0] == m[1]), what << ": equality (swapped)");
    VP_ASSERT(v[0] == v[0], what << ": self equality");
    ++step;
  }
}

rc::Gen<Op> op_gen() {
  return rc::gen::exec([] {
    Op o;
    o.k = *rc::gen::weightedOneOf<int>({{1, vp::range(0, nops - 1)},
      {1, rc::gen::element(0, 1, 2, 4, 5, 6, 7, 8, 9, 10, 27, 28, 29)}});
    o.a = *vp::range(0u, 400u);
    o.b = *vp::range(0u, 400u);
    o.c = *rc::gen::element(0u, 0u, 0u, 1u);
    o.vals = *vp::vec<int>(0, 6, vp::range(0, 9));
    return o;
  });
}
template<class T, std::size_t N>
void prop() {
  auto ops = *vp::seq<Op>(N > 64 ? 14 : 26, op_gen());
  int ins = 0, del = 0;
  for(auto & o : ops) {
    ins += (o.k >= 4 && o.k <= 8) || o.k == 27;
    del += o.k == 9 || o.k == 10;
  }
  std::string t;
  for(auto & o : ops) {
    std::ostringstream os;
    os << o << " ";
    t += os.str();
  }
  if(ins && del)
    vp::tag("insert+erase");
  VP_CASE(ops.size() >= 3 && ins + del >= 1, "N=" << N << " " << t);
  vp::run([&] { history<T, N>(ops); });
}
// few operations on many elements
VP_PROP(large, 60) {
  constexpr std::size_t N = 66000;
  auto n = *vp::large(65600);
  auto pos = *vp::range(0, n);
  auto k = *vp::range(0, 9);
  auto seed = *vp::range(0, 1000000);
  VP_CASE(n > 255, "n=" << n << " pos=" << pos << " k=" << k << " seed=" << seed);
  vp::run([&] {
    using V = ristra::utils::fixed_vector<int, N>;
    auto own = std::make_unique<V>();
    V & v = *own;
    std::vector<int> m;
    vp::Lcg g(seed);
    auto same = [&](const char * w) {
      VP_EQ(v.size(), m.size(), w << ": size");
      VP_EQ(std::size_t(v.end() - v.begin()), m.size(), w << ": end-begin");
      for(std::size_t i = 0; i < m.size(); ++i)
        if(v[i] != m[i])
          VP_FAIL(w << ": element " << i << " is " << v[i] << ", expected " << m[i]);
      VP_EQ(std::size_t(v.rend() - v.rbegin()), m.size(), w << ": rend-rbegin");
    };
    if(k % 3 == 0) {
      for(int i = 0; i < n; ++i)
        m.push_back(g.upto(1000));
      v.assign(m.begin(), m.end());
    }
    else if(k % 3 == 1) {
      v.assign(std::size_t(n), 7);
      m.assign(n, 7);
    }
    else
      for(int i = 0; i < n; ++i) {
        int x = g.upto(1000);
        v.push_back(x);
        m.push_back(x);
      }
    same("filled");
    int w = g.upto(1000);
    v.insert(v.begin() + pos, w);
    m.insert(m.begin() + pos, w);
    same("insert");
    std::size_t c = g.upto(300);
    v.insert(v.begin() + pos, c, w + 1);
    m.insert(m.begin() + pos, c, w + 1);
    same("insert(count)");
    auto copy = std::make_unique<V>(v);
    VP_ASSERT(*copy == v, "copy compares equal");
    (*copy)[pos] += 1;
    VP_ASSERT(!(*copy == v), "a changed copy compares equal");
    std::size_t e = g.upto(int(m.size() - pos));
    v.erase(v.begin() + pos, v.begin() + pos + e);
    m.erase(m.begin() + pos, m.begin() + pos + e);
    same("erase(range)");
    if(!m.empty()) {
      std::size_t q = g.upto(int(m.size()));
      v.erase(v.begin() + q);
      m.erase(m.begin() + q);
      same("erase");
    }
    v.resize(n, 5);
    m.resize(n, 5);
    same("resize");
    v.swap(*copy);
    v.swap(*copy);
    same("swap twice");
  });
}
VP_INST("double_5", 1500, prop<double, 5>);
VP_INST("int_1", 300, prop<int, 1>);
VP_INST("int_5", 1500, prop<int, 5>);
VP_INST("int_16", 1500, prop<int, 16>);
VP_INST("int_300", 400, prop<int, 300>);
VP_INST("string_2", 500, prop<std::string, 2>);
VP_INST("string_7", 1500, prop<std::string, 7>);
VP_INST("string_20", 1500, prop<std::string, 20>);
VP_INST("owner_6", 1500, prop<Owner, 6>);
VP_INST("owner_33", 1000, prop<Owner, 33>);
} // namespace

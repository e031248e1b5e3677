// U02: lockstep iteration - zip, simple_task, tuple visiting/zipping/tying and
// static loops reach every element exactly once, in order, by reference.
#include "vp.h"
#include <array>
#include <csignal>
#include <cassert>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <sys/resource.h>
#include <sys/wait.h>
#include <tuple>
#include <unistd.h>
#include "ristra/utils/static_for.h"
#include "ristra/utils/tasks.h"
#include "ristra/utils/tuple_for_each.h"
#include "ristra/utils/tuple_visit.h"
#include "ristra/utils/tuple_zip.h"
#include "ristra/utils/zip.h"

using namespace ristra::utils;

// ---- zip of 1..5 heterogeneous containers
VP_PROP(zip_visits_in_lockstep, 2500) {
  auto n = *vp::range(0, 12);
  auto a0 = *vp::vec<int>(n, vp::range(-50, 50));
  auto b0 = *vp::vec<int>(n, vp::range(-50, 50));
  auto arity = *vp::range(1, 5);
  VP_CASE(n >= 2, "arity=" << arity << " a=" << vp::str(a0) << " b=" << vp::str(b0));
  vp::tag("arity " + std::to_string(arity));
  vp::run([&] {
    std::vector<int> a(a0);
    std::list<std::string> b;
    std::deque<double> c;
    std::vector<long> d;
    std::list<int> e;
    for(int i = 0; i < n; ++i) {
      b.push_back("s" + std::to_string(b0[i]));
      c.push_back(b0[i] + 0.5);
      d.push_back(1000L + i);
      e.push_back(a0[i] - b0[i]);
    }
    auto bi = b.begin();
    auto ei = e.begin();
    int i = 0;
    auto step = [&] {
      ++i;
      ++bi;
      ++ei;
    };
    auto bound = [&] { VP_ASSERT(i < n, "zip yields more than " << n << " rows"); };
    switch(arity) {
      case 1:
        for(auto t : zip(a)) {
          bound();
          VP_ASSERT(&get<0>(t) == &a[i], "row " << i << " column 0 is not the element");
          get<0>(t) += 7;
          step();
        }
        break;
      case 2:
        for(auto t : zip(a, b)) {
          bound();
          VP_ASSERT(&get<0>(t) == &a[i] && &get<1>(t) == &*bi, "row " << i);
          get<0>(t) += 7;
          get<1>(t) += "!";
          step();
        }
        break;
      case 3:
        for(auto t : zip(b, a, c)) {
          bound();
          VP_ASSERT(&get<1>(t) == &a[i] && &get<0>(t) == &*bi && &get<2>(t) == &c[i],
            "row " << i);
          get<1>(t) += 7;
          get<0>(t) += "!";
          get<2>(t) *= 2;
          step();
        }
        break;
      case 4: {
        auto z = zip(c, d, a, b);
        auto it = z.begin();
        for(; it != z.end(); it++) {
          bound();
          auto t = *it;
          VP_ASSERT(&get<2>(t) == &a[i] && &get<3>(t) == &*bi &&
                      &get<0>(t) == &c[i] && &get<1>(t) == &d[i],
            "row " << i);
          get<2>(t) += 7;
          get<3>(t) += "!";
          get<0>(t) *= 2;
          get<1>(t) -= 1;
          step();
        }
        VP_ASSERT(it == z.end(), "iteration did not end at end()");
        break;
      }
      default: {
        auto z = zip(e, c, d, a, b);
        auto it = z.begin();
        auto first = it;
        VP_ASSERT(it == first, "an iterator differs from its copy");
        for(; it != z.end(); ++it) {
          bound();
          auto t = *it;
          VP_ASSERT(&get<3>(t) == &a[i] && &get<4>(t) == &*bi && &get<0>(t) == &*ei &&
                      &get<1>(t) == &c[i] && &get<2>(t) == &d[i],
            "row " << i);
          get<3>(t) += 7;
          get<4>(t) += "!";
          get<1>(t) *= 2;
          get<2>(t) -= 1;
          get<0>(t) = 3;
          if(i > 0)
            VP_ASSERT(!(it == first), "an advanced iterator equals the first");
          step();
        }
      }
    }
    VP_EQ(i, n, "rows visited");
    int k = 0;
    for(auto & s : b) {
      VP_EQ(a[k], a0[k] + 7, "write-through column a row " << k);
      if(arity >= 2)
        VP_EQ(s, "s" + std::to_string(b0[k]) + "!", "write-through column b row " << k);
      if(arity >= 3)
        VP_EQ(c[k], 2 * (b0[k] + 0.5), "write-through column c row " << k);
      if(arity >= 4)
        VP_EQ(d[k], 999L + k, "write-through column d row " << k);
      ++k;
    }
    if(arity == 5)
      for(int q : e)
        VP_EQ(q, 3, "write-through column e");
  });
}

// ---- post-increment returns the old position
VP_PROP(zip_iterator_steps, 600) {
  auto n = *vp::range(1, 9);
  auto k = *vp::range(0, n - 1);
  VP_CASE(k > 0, "n=" << n << " k=" << k);
  vp::run([&] {
    std::vector<int> a(n);
    std::list<int> b;
    for(int i = 0; i < n; ++i) {
      a[i] = i;
      b.push_back(10 * i);
    }
    auto z = zip(a, b);
    auto it = z.begin();
    for(int i = 0; i < k; ++i)
      ++it;
    auto old = it++;
    VP_EQ(get<0>(*old), k, "post-increment's old position, column 0");
    VP_EQ(get<1>(*old), 10 * k, "post-increment's old position, column 1");
    if(k + 1 < n) {
      VP_EQ(get<0>(*it), k + 1, "post-increment's new position");
      VP_EQ(get<1>(*it), 10 * (k + 1), "post-increment's new position");
      auto copy = old;
      auto & same = ++copy;
      VP_ASSERT(&same == &copy, "pre-increment returns another object");
      VP_ASSERT(copy == it, "k+1 steps reached two ways differ");
      VP_ASSERT(!(copy != it), "k+1 steps reached two ways are unequal");
    }
    else
      VP_ASSERT(!(it != z.end()), "not at the end after n steps");
    // a zipped range can be walked again
    int rows = 0;
    for(auto t : z) {
      VP_EQ(get<0>(t), rows, "second walk");
      ++rows;
    }
    VP_EQ(rows, n, "second walk length");
  });
}

// ---- containers of different size are refused (checking build)
static bool dies(const std::function<void()> & f) {
  pid_t pid = fork();
  if(pid == 0) {
    if(!freopen("/dev/null", "w", stderr)) {}
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    signal(SIGABRT, SIG_DFL);
    f();
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
VP_PROP(zip_refuses_size_mismatch, 240) {
  auto arity = *vp::range(2, 4);
  auto n = *vp::range(0, 6);
  auto odd = *vp::range(0, arity - 1);
  auto m = *vp::range(0, 6);
  VP_CASE(m != n, "arity=" << arity << " n=" << n << " column " << odd << " has " << m);
  vp::run([&] {
    auto len = [&](int c) { return std::size_t(c == odd ? m : n); };
    std::vector<int> a(len(0)), c(len(2));
    std::list<int> b(len(1));
    std::deque<int> d(len(3));
    bool dead = dies([&] {
      if(arity == 2)
        zip(a, b);
      else if(arity == 3)
        zip(a, b, c);
      else
        zip(a, b, c, d);
    });
    VP_EQ(dead, m != n, "mismatching sizes refused");
  });
}

// ---- simple_task
VP_PROP(task_applies_elementwise, 1500) {
  auto n = *vp::range(0, 15);
  auto a0 = *vp::vec<int>(n, vp::range(-50, 50));
  auto b0 = *vp::vec<int>(n, vp::range(-50, 50));
  VP_CASE(n >= 2, "a=" << vp::str(a0) << " b=" << vp::str(b0));
  vp::run([&] {
    std::vector<int> a(a0), b(b0), c(n, 99), d(n, 98);
    std::vector<std::array<int, 3>> log;
    auto f = [&](const int & x, const int & y, int & z) {
      log.push_back({x, y, z});
      z = 3 * x - y;
    };
    simple_task(f, a, b, c);
    VP_EQ(log.size(), std::size_t(n), "number of calls");
    for(int i = 0; i < n; ++i) {
      VP_EQ(log[i][0], a0[i], "call " << i << " argument 0");
      VP_EQ(log[i][1], b0[i], "call " << i << " argument 1");
      VP_EQ(log[i][2], 99, "call " << i << " argument 2");
      VP_EQ(c[i], 3 * a0[i] - b0[i], "result " << i);
    }
    VP_EQ(a, a0, "input a");
    VP_EQ(b, b0, "input b");
    auto g = [](int & x) { x = -x; };
    simple_task(g, a);
    for(int i = 0; i < n; ++i)
      VP_EQ(a[i], -a0[i], "unary task " << i);
    auto h = [](const int & x, int & y) { y = x + 1; };
    std::list<int> l(a0.begin(), a0.end());
    simple_task(h, l, d);
    for(int i = 0; i < n; ++i)
      VP_EQ(d[i], a0[i] + 1, "binary task " << i);
    auto p = [](int & w, const int & x, const int & y, const int & z) {
      w = x * 100 + y * 10 + z;
    };
    simple_task(p, d, b, a, c);
    for(int i = 0; i < n; ++i)
      VP_EQ(d[i], b0[i] * 100 - a0[i] * 10 + 3 * a0[i] - b0[i], "4-ary task " << i);
  });
}

// ---- tuples
namespace {
struct Rec { // records what a visitor saw, as text
  std::string s;
  template<class A>
  void operator()(const A & a) {
    s += vp::str(a) + ";";
  }
};
} // namespace
VP_PROP(tuple_visitors, 1500) {
  auto i = *vp::range(-100, 100);
  auto s = *rc::gen::container<std::string>(rc::gen::inRange<char>('a', 'z'));
  auto d = *vp::dyadic(1000, 8);
  auto j = *vp::range(-100, 100);
  VP_CASE(i != j && !s.empty(), "i=" << i << " s=" << s << " d=" << d << " j=" << j);
  vp::run([&] {
    auto t = std::make_tuple(i, s, d, long(j));
    auto u = std::make_tuple(long(j), d, s, i);
    std::string want = vp::str(i) + ";" + vp::str(s) + ";" + vp::str(d) + ";" + vp::str(j) + ";";
    Rec r;
    tuple_for_each(t, [&](auto & x) { r(x); });
    VP_EQ(r.s, want, "tuple_for_each order");
    auto r2 = tuple_visit(Rec{}, t);
    VP_EQ(r2.s, want, "tuple_visit order / returned visitor");
    std::string two;
    int calls = 0;
    tuple_visit(
      [&](const auto & x, const auto & y) {
        two += vp::str(x) + "," + vp::str(y) + ";";
        ++calls;
      },
      t, u);
    VP_EQ(calls, 4, "number of visits");
    VP_EQ(two,
      vp::str(i) + "," + vp::str(long(j)) + ";" + vp::str(s) + "," + vp::str(d) + ";" +
        vp::str(d) + "," + vp::str(s) + ";" + vp::str(long(j)) + "," + vp::str(i) + ";",
      "pairs visited");
    // by reference
    auto n = std::make_tuple(i, j, i + j);
    tuple_for_each(n, [](auto & x) { x += 1; });
    VP_ASSERT(n == std::make_tuple(i + 1, j + 1, i + j + 1), "tuple_for_each by reference");
  });
}
VP_PROP(tuple_zip_tie, 1000) {
  auto v = *vp::vec<int>(8, vp::range(-100, 100));
  VP_CASE(v[0] != v[4], "v=" << vp::str(v));
  vp::run([&] {
    auto x = std::make_tuple(v[0], long(v[1]), double(v[2]), v[3]);
    auto y = std::make_tuple(v[4], v[5], long(v[6]), double(v[7]));
    auto z = tuple_zip(x, y);
    VP_ASSERT(z == std::make_tuple(std::make_pair(v[0], v[4]),
                     std::make_pair(long(v[1]), v[5]),
                     std::make_pair(double(v[2]), long(v[6])),
                     std::make_pair(v[3], double(v[7]))),
      "tuple_zip pairs");
    std::get<0>(z).first = 1000;
    VP_EQ(std::get<0>(x), v[0], "tuple_zip copies");
    auto t = tuple_tie(x, y);
    VP_ASSERT(&std::get<0>(std::get<0>(t)) == &std::get<0>(x) &&
                &std::get<1>(std::get<0>(t)) == &std::get<0>(y) &&
                &std::get<0>(std::get<1>(t)) == &std::get<1>(x) &&
                &std::get<1>(std::get<1>(t)) == &std::get<1>(y) &&
                &std::get<0>(std::get<2>(t)) == &std::get<2>(x) &&
                &std::get<1>(std::get<2>(t)) == &std::get<2>(y) &&
                &std::get<0>(std::get<3>(t)) == &std::get<3>(x) &&
                &std::get<1>(std::get<3>(t)) == &std::get<3>(y),
      "tuple_tie refers to the originals");
    tuple_visit([](auto && p) { std::get<1>(p) = std::get<0>(p); }, tuple_tie(x, y));
    VP_ASSERT(y == std::make_tuple(v[0], int(v[1]), long(v[2]), double(v[3])),
      "assignment through tuple_tie");
    auto one = std::make_tuple(v[0]);
    auto uno = std::make_tuple(v[1]);
    VP_ASSERT(tuple_zip(one, uno) == std::make_tuple(std::make_pair(v[0], v[1])),
      "tuple_zip of singletons");
  });
}

// ---- static loops
template<std::size_t N>
static void one_static(int base) {
  std::vector<std::size_t> seen;
  static_for<N>([&](auto i) { seen.push_back(std::size_t(i) + base); });
  VP_EQ(seen.size(), N, "static_for<" << N << "> calls");
  for(std::size_t i = 0; i < N; ++i)
    VP_EQ(seen[i], i + base, "static_for<" << N << "> call " << i);
}
VP_PROP(static_loops, 200) {
  auto b = *vp::range(0, 1000);
  VP_CASE(b > 0, "offset=" << b);
  vp::run([&] {
    one_static<0>(b);
    one_static<1>(b);
    one_static<2>(b);
    one_static<3>(b);
    one_static<7>(b);
    one_static<16>(b);
    one_static<33>(b);
  });
}

// ---- long containers
VP_PROP(large, 150) {
  auto n = *vp::large(70000);
  auto d = *rc::gen::element(-256, -1, 1, 256, 65536); // other sizes that agree in their low bits
  auto seed = *vp::range(0, 1000000);
  VP_CASE(n > 255, "n=" << n << " other=" << n + d << " seed=" << seed);
  vp::run([&] {
    vp::Lcg g(seed);
    std::vector<int> a(n);
    std::deque<long> b(n);
    std::vector<double> c(n, 0.5);
    for(int i = 0; i < n; ++i) {
      a[i] = g.upto(1000);
      b[i] = i;
    }
    int i = 0;
    for(auto t : zip(a, b, c)) {
      VP_ASSERT(i < n, "zip yields more than " << n << " rows");
      if(&get<0>(t) != &a[i] || &get<1>(t) != &b[i] || &get<2>(t) != &c[i])
        VP_FAIL("row " << i << " is not made of the elements " << i);
      get<2>(t) = get<0>(t) + double(get<1>(t));
      ++i;
    }
    VP_EQ(i, n, "rows");
    long calls = 0;
    auto f = [&](const int & x, long & y, const double & z) {
      ++calls;
      y += long(z) - x;
    };
    simple_task(f, a, b, c);
    VP_EQ(calls, long(n), "calls of the task");
    for(int k = 0; k < n; ++k)
      if(c[k] != a[k] + double(k) || b[k] != 2L * k)
        VP_FAIL("element " << k << " was not reached by the writes");
    if(n + d >= 0) {
      std::vector<int> o(n + d);
      VP_ASSERT(dies([&] { zip(a, o); }), n << " and " << n + d << " elements zipped");
      VP_ASSERT(dies([&] { zip(o, a, b); }), n + d << " and " << n << " elements zipped");
    }
  });
}

H = '#include <cstdio>\n#include <cmath>\n#include <vector>\n#include <string>\n#include <iostream>\n#include <fstream>\n#include <functional>\n'
BUGS = [
dict(id="u01-swap-equal", property="U01",
  edits=[("ristra/utils/fixed_vector.h", "    std::swap( length_, other.length_ );\n    std::swap( data_, other.data_ );\n",
          "    auto n = std::max( length_, other.length_ ) - ( length_ == other.length_ );\n"
          "    for ( size_type i=0; i<n; i++ ) std::swap( data_[i], other.data_[i] );\n"
          "    std::swap( length_, other.length_ );\n")],
  needs="swapping two vectors of the same length, not empty",
  breaks="the last element stays where it was",
  demo=H + '''#include "ristra/utils/fixed_vector.h"
int main() {
  ristra::utils::fixed_vector<int, 8> a{1, 2, 3}, b{4, 5, 6}, c{7}, d;
  c.swap(d);
  a.swap(b);
  return a[0] == 4 && a[2] == 6 && b[2] == 3 && d[0] == 7 && c.empty() ? 0 : 1;
}
'''),
dict(id="u03-basename", property="U03",
  edits=[("ristra/utils/string_utils.h", "  auto i = str.rfind( sep, str.length() );", "  auto i = str.rfind( sep, str.length() - 2 );")],
  needs="a path that ends in a separator",
  breaks="the base name of a/b/ is b/ and not empty",
  demo=H + '''#include "ristra/utils/string_utils.h"
int main() {
  auto b = [](std::string s) { return ristra::utils::basename(s); };
  return b("a/b/") == "" && b("a/b") == "b" && b("x") == "x" ? 0 : 1;
}
'''),
dict(id="u04-nul", property="U04",
  edits=[("ristra/utils/array_ref.h", "    return std::basic_string<T, traits, Allocator>(begin(), end());",
          "    return std::basic_string<T, traits, Allocator>(begin(), std::find(begin(), end(), T()));"),
         ("ristra/utils/array_ref.h", "#include <vector>\n", "#include <vector>\n#include <algorithm>\n")],
  needs="text with an embedded zero character",
  breaks="the copy to a string stops at the zero",
  demo=H + '''#include "ristra/utils/array_ref.h"
int main() {
  std::string s("ab\\0cd", 5);
  ristra::utils::array_ref<char> r(s);
  return r.str() == s ? 0 : 1;
}
'''),
dict(id="m02-delta-mixed", property="M02",
  edits=[("ristra/math/general.h", "  decltype(a[0]*b[0]) abs = 0;\n", "  T1 abs = 0;\n")],
  needs="a distance between an integer and a real vector, in that order",
  breaks="the sum of squares is truncated at every step",
  demo=H + '''#include <cstddef>
#include "ristra/math/general.h"
#include "ristra/math/array.h"
int main() {
  ristra::math::array<int, 2> a{1, 2};
  ristra::math::array<double, 2> b{1.5, 2.5};
  return std::abs(ristra::math::delta_magnitude(a, b) - std::sqrt(0.5)) < 1e-12 ? 0 : 1;
}
'''),
dict(id="m03-beta", property="M03",
  edits=[("ristra/math/matrix.h", "      auto val = inv_det * determinant(minor);\n", "      auto val = inv_det * determinant(minor);\n      if ( !(std::abs(val) > 1e-13) ) val = 0;\n")],
  needs="the inverse of a matrix of dimension four or more with large entries",
  breaks="small entries of the inverse are dropped, so the product is not the identity",
  demo=H + '''#include <cstddef>
#include "ristra/math/matrix.h"
int main() {
  ristra::math::matrix<double, 4, 4> m(0);
  for(int i = 0; i < 4; ++i)
    m(i, i) = i == 2 ? 4e15 : 2;
  auto inv = ristra::math::inverse(m);
  return std::abs(inv(2, 2) * 4e15 - 1) < 1e-9 && inv(0, 0) == 0.5 ? 0 : 1;
}
'''),
dict(id="g02-centroid-3d", property="G02",
  edits=[("ristra/geometry/shapes/polygon.h", "      for ( int d=0; d<3; ++d ) cx[d] += tmp_a * tmp_cx[d];\n      po = pn;\n    }\n    cx /= a;",
          "      for ( int d=0; d<3; ++d ) cx[d] += tmp_cx[d];\n      po = pn;\n    }\n    cx /= num_points;")],
  needs="the centroid of a list of points in space that is not regular",
  breaks="the parts are not weighted by their areas",
  demo=H + '''#include "ristra/geometry/shapes/polygon.h"
#include "ristra/geometry/point.h"
int main() {
  using point = ristra::geometry::point<double, 3>;
  std::vector<point> p = {{0, 0, 1}, {4, 0, 1}, {4, 1, 1}, {0, 3, 1}};
  auto c = ristra::geometry::shapes::polygon<3>::centroid(p);
  // trapezoid with parallel sides 3 (x = 0) and 1 (x = 4)
  return std::abs(c[0] - 4. / 3 * (3 + 2 * 1) / (3 + 1)) < 1e-12 ? 0 : 1;
}
'''),
dict(id="a01-pun-old", property="A01",
  edits=[("ristra/atomics/src/atomics.h",
          "   T ret;\n   do {\n      neu.pun = old.pun;\n      ret = operation(neu.tee);\n   } while (!punxweak(atom, old.pun, neu.pun, success, failure));",
          "   neu.pun = old.pun;\n   T ret = operation(neu.tee);\n   while (!punxweak(atom, old.pun, neu.pun, success, failure)) {\n      if (neu.pun == old.pun) continue;\n      neu.pun = old.pun;\n      operation(neu.tee);\n   }")],
  needs="the punned weak scheme with two memory orders, and another thread (or a spurious failure) between its read and its write",
  breaks="the value returned belongs to the first attempt",
  demo=H + '''#include <thread>
#include "atomics.h"
int main() {
  ristra::atomics::atomic<double, ristra::atomics::strong> x(0);
  const int n = 300000;
  std::vector<double> got[4];
  auto work = [&](int k) {
    got[k].reserve(n);
    for(int i = 0; i < n; ++i)
      got[k].push_back(ristra::atomics::add<ristra::atomics::weak::pun>(x, 1., std::memory_order_acq_rel, std::memory_order_acquire));
  };
  std::vector<std::thread> t;
  for(int k = 0; k < 4; ++k)
    t.emplace_back(work, k);
  for(auto & u : t)
    u.join();
  std::vector<char> seen(4 * n + 2, 0);
  for(auto & g : got)
    for(double d : g)
      if(seen[(int)d]++)
        return 1;
  return double(x) == 4. * n ? 0 : 1;
}
''', flags="-O2 -Iristra/atomics/src", libs="-lpthread -latomic"),
dict(id="d01-once", property="D01",
  edits=[("ristra/assertions/dbc.h", "  bool cond = x >= min;\n  auto gen", "  bool cond = !(x < min);\n  auto gen")],
  needs="an operand that is not a number",
  breaks="a NaN counts as greater or equal",
  demo=H + '''#define RISTRA_REQUIRE_ON
#include "ristra/assertions/dbc.h"
int main() {
  double x = std::nan("");
  bool r = true;
  try {
    r = ristra::assertions::dbc::greater_equal_func(x, 1., "x", "f", "g", 1);
  }
  catch(...) {
    return 0;
  }
  return r ? 1 : 0;
}
''', libs="ristra/assertions/dbc_impl.cc"),
dict(id="y01-keep", property="Y01",
  edits=[("ristra/embedded/embed_python.h", "  auto pitem = PyTuple_SetItem(py_tup, i, pvalue);",
          "  Py_INCREF(pvalue);\n  auto pitem = PyTuple_SetItem(py_tup, i, pvalue);")],
  needs="looking at how many references an argument has after the call",
  breaks="every argument of every call is lost",
  demo=H + '''#include "ristra/embedded/embed_python.h"
using namespace ristra::embedded;
int main() {
  python_initialize();
  auto t = python_build_args(12345.5, 1e300);
  bool ok = Py_REFCNT(python_get_tuple_element(t, 0)) == 1;
  python_free(t);
  return ok ? 0 : 1;
}
''', flags="-I/usr/include/python3.12", libs="-lpython3.12"),
dict(id="i01-sticky", property="I01",
  edits=[("ristra/initialization/input_engine.h",
          "      // temp:\n      target_set_t & targets(inp.get_target_set<T>());\n      registry<T> & the_registry(inp.get_registry<T>());\n",
          "      target_set_t & targets(inp.get_target_set<T>());\n      registry<T> & the_registry(inp.get_registry<T>());\n      // nothing to look up when every target has a value\n      if (input_registry<T>::instance().get_all_resolved() &&\n          targets.size() == the_registry.size()) {\n        return true;\n      }\n")],
  needs="resolving a second time after the sources changed with no target added since",
  breaks="the values of the first resolution stay although the sources hold others now",
  flags="-I/usr/include/lua5.3", libs="-llua5.3 ristra/assertions/dbc_impl.cc",
  demo=H + '''#include "ristra/initialization/input_engine.h"
struct traits { using types = std::tuple<int>; };
int main() {
  using E = ristra::input_engine_t<traits>;
  E e;
  auto * h = new ristra::hard_coded_source_t;
  e.register_hard_coded_source(h);
  e.register_target<int>("a");
  h->get_registry<int>()["a"] = 1;
  if(!e.resolve_inputs() || e.get_value<int>("a") != 1) return 1;
  h->get_registry<int>()["a"] = 2;
  return e.resolve_inputs() && e.get_value<int>("a") == 2 ? 0 : 1;
}
'''),
dict(id="c01-static", property="C01",
  edits=[("ristra/initialization/arguments.h", "    po::variables_map vm;\n    \n", "    static po::variables_map vm;\n    \n")],
  needs="a second command line in the same process that gives an option of the first again",
  breaks="the value of the first command line is kept",
  libs="-lboost_program_options",
  demo=H + '''#include "ristra/initialization/arguments.h"
int main() {
  auto & a = ristra::initialization::command_line_arguments_t::instance();
  a.register_argument<int>("", "steps", "number of steps");
  char p[] = "prog", o[] = "--steps=3", q[] = "--steps=5";
  char * first[] = {p, o, nullptr}, * second[] = {p, q, nullptr};
  auto r = a.process_arguments(2, first), s = a.process_arguments(2, second);
  return r.variables.as<int>("steps", 7) == 3 && s.variables.as<int>("steps", 7) == 5 ? 0 : 1;
}
'''),
]

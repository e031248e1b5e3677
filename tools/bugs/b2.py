H = '#include <cstdio>\n#include <cmath>\n#include <vector>\n#include <string>\n#include <fstream>\n#include <iostream>\n'
LUAF = "-I/usr/include/lua5.3"
LUAL = "-llua5.3"
BUGS = [
dict(id="u05-jump", property="U05",
  edits=[("ristra/utils/array_view.h",
          "      stride[i] = stride[i + 1] * bounds_[i + 1];\n    }\n    for (int i = 0; i < rank; ++i) {",
          "      stride[i] = stride[rank - 1] * bounds_[i + 1];\n    }\n    for (int i = 0; i < rank; ++i) {")],
  needs="a jump (+=) of a bounds iterator in three or more dimensions",
  breaks="an iterator over 3D bounds lands on the wrong element after a jump",
  demo=H + '''#include <array>
#include "ristra/utils/array_view.h"
using namespace ristra::utils;
int main() {
  contiguous_bounds<3> b{2, 3, 4};
  int n = 0;
  for(auto i : b) {
    auto it = b.begin();
    it += n;
    if(!(*it == i)) return 1;
    ++n;
  }
  return n == 24 ? 0 : 1;
}
'''),
dict(id="m01-fill", property="M01",
  edits=[("ristra/math/multi_array.h",
          "    for ( counter_type i=0; i<elements; i++ ) std::swap(elems_[i], y.elems_[i]);    ",
          "    for ( counter_type i=0; i<elements/2; i++ ) std::swap(elems_[i], y.elems_[i]);    \n    std::copy( y.elems_ + elements/2, y.elems_ + elements, elems_ + elements/2 );")],
  needs="swap of two multi_arrays whose second halves differ",
  breaks="swap leaves the second half of one operand unchanged",
  demo=H + '''#include "ristra/math/multi_array.h"
int main() {
  ristra::math::multi_array<int, 2, 2> a(1), b(2);
  a.swap(b);
  for(int i = 0; i < 4; ++i)
    if(a[i] != 2 || b[i] != 1) return 1;
  return 0;
}
'''),
dict(id="a01-neu", property="A01",
  edits=[("ristra/atomics/src/atomics.h",
          "   T neu, ret;\n\n   do {\n      neu = old;\n      ret = operation(neu);\n   } while (!atom.compare_exchange_strong(old, neu, success, failure));",
          "   T neu = old, ret = operation(neu);\n\n   while (!atom.compare_exchange_strong(old, neu, success, failure))\n      ret = operation(neu);")],
  needs="another thread changes the variable between the read and the exchange, in the form with two memory orders",
  breaks="an update made by another thread is lost",
  libs="-lpthread -latomic", flags="-O2 -Iristra/atomics/src",
  demo=H + '''#include <thread>
#include "atomics.h"
int main() {
  ristra::atomics::atomic<double, ristra::atomics::strong> x(0);
  std::vector<std::thread> t;
  for(int i = 0; i < 8; ++i)
    t.emplace_back([&] {
      for(int k = 0; k < 500000; ++k)
        x.add(1.0, std::memory_order_seq_cst, std::memory_order_seq_cst);
    });
  for(auto & s : t) s.join();
  return double(x) == 4000000 ? 0 : 1;
}
'''),
dict(id="a02-maxeq", property="A02",
  edits=[("ristra/atomics/src/atomics.h",
          "   if (a < b) a = A(b);",
          "   if (!(b < a)) a = A(b);")],
  flags="-Iristra/atomics/src", libs="-lpthread -latomic",
  needs="max of a floating-point variable with an operand that is not a number",
  breaks="the comparison is false, so a plain maximum keeps the value; the atomic one takes the NaN",
  demo=H + '''#include "atomics.h"
int main() {
  ristra::atomics::atomic<double> a(2.5);
  double nan = std::nan(""), plain = 2.5;
  if(plain < nan) plain = nan;
  a.max(nan);
  return double(a) == plain ? 0 : 1;
}
'''),
dict(id="d01-open-range", property="D01",
  edits=[("ristra/assertions/dbc.h",
          "  bool cond = x > min && x < max;",
          "  bool cond = !(x <= min || x >= max);")],
  needs="a NaN operand",
  breaks="a NaN counts as lying inside an open range",
  flags="-DRISTRA_DBC_THROW -DRISTRA_REQUIRE_ON=1", libs="ristra/assertions/dbc_impl.cc",
  demo=H + '''#include "ristra/assertions/dbc.h"
int main() {
  double x = std::nan("");
  try {
    return ristra::assertions::dbc::in_open_range_func(x, 0.0, 1.0, "x", "f", "g", 1) ? 1 : 0;
  }
  catch(std::logic_error &) {
    return 0;
  }
}
'''),
dict(id="l01-vector-nil", property="L01",
  edits=[("ristra/embedded/embed_lua.h",
          "    if ( !lua_isboolean(s,index) )\n",
          "    if ( lua_istable(s,index) || lua_isfunction(s,index) )\n")],
  needs="a number or a string read as bool",
  breaks="a Lua number or string is read as a boolean (0 as true) and not refused",
  flags=LUAF, libs=LUAL,
  demo=H + '''#include "ristra/embedded/embed_lua.h"
int main() {
  ristra::embedded::lua_t l;
  l.run_string("x = 0");
  try {
    l["x"].as<bool>();
  }
  catch(std::exception &) {
    return 0;
  }
  return 1;
}
'''),
dict(id="l02-wide", property="L02",
  edits=[("ristra/embedded/embed_lua.h",
          "inline std::size_t lua_push(lua_State * s, size_t i)\n{\n  lua_pushinteger( s, i );",
          "inline std::size_t lua_push(lua_State * s, size_t i)\n{\n  lua_Number x = i;\n  lua_Integer n;\n  if ( lua_numbertointeger( x, &n ) )\n    lua_pushinteger( s, n );\n  else\n    lua_pushinteger( s, i );")],
  needs="a size_t argument that a double cannot represent (beyond 2^53)",
  breaks="the function is called with another integer than the caller passed",
  flags=LUAF, libs=LUAL,
  demo=H + '''#include "ristra/embedded/embed_lua.h"
int main() {
  ristra::embedded::lua_t l;
  l.run_string("function f(a) return a == 9007199254740993 end");
  return l["f"](std::size_t(9007199254740993)).as<bool>() ? 0 : 1;
}
'''),
dict(id="i01-stale", property="I01",
  edits=[("ristra/initialization/input_engine.h",
          "      // not there? no Lua file? Default to hard coded source\n      if (!found_target && hard_coded_source) {",
          "      // not there? no Lua file? Default to hard coded source\n      if (!found_target && the_registry.count(target)) {\n        return true;\n      }\n      if (!found_target && hard_coded_source) {")],
  needs="get_instant_value of a key that was resolved before, after the sources have changed",
  breaks="get_instant_value hands out a value that no source holds any more",
  flags=LUAF, libs=LUAL + " ristra/assertions/dbc_impl.cc",
  demo=H + '''#include "ristra/initialization/input_engine.h"
struct traits { using types = std::tuple<int>; };
int main() {
  using E = ristra::input_engine_t<traits>;
  E e;
  auto * h = new ristra::hard_coded_source_t;
  e.register_hard_coded_source(h);
  h->get_registry<int>()["a"] = 1;
  if(e.get_instant_value<int>("a") != 1) return 1;
  h->get_registry<int>()["a"] = 2;
  return e.get_instant_value<int>("a") == 2 ? 0 : 1;
}
'''),
dict(id="i02-size-key", property="I02",
  edits=[("ristra/initialization/input_source.h",
          "    str_cr_t l_key(1 == m_lua_key.count(key) ? m_lua_key[key] : key);\n    bool found = true;",
          "    str_cr_t l_key(1 == m_table_map.count(key) ? key : m_lua_key[key]);\n    bool found = true;")],
  needs="get_size of a value that has a different key in the Lua file",
  breaks="the size of an aliased value is that of another entry",
  flags=LUAF, libs=LUAL + " ristra/assertions/dbc_impl.cc",
  demo=H + '''#include "ristra/initialization/input_engine.h"
int main() {
  { std::ofstream f("in.lua"); f << "hydro = { grid = {1,2,3}, mesh = {} }"; }
  ristra::lua_source_t s("in.lua");
  s.register_value("cells", "hydro", "grid");
  return s.get_size("cells") == 3 ? 0 : 1;
}
'''),
dict(id="i03-valid-cache", property="I03",
  edits=[("ristra/initialization/init_value.h",
          "    get_return_t t(ie.template get_value<T>(fname));\n    bool valid(m_valid(t));",
          "    get_return_t t(ie.template get_value<T>(fname));\n    bool valid(status_t::valid == m_status || m_valid(t));")],
  needs="a value that was valid once, is resolved again to an invalid one, and is read again",
  breaks="an invalid value is handed out because an earlier one was valid",
  flags=LUAF, libs=LUAL + " ristra/assertions/dbc_impl.cc",
  demo=H + '''#include "ristra/initialization/input_engine.h"
#include "ristra/initialization/init_value.h"
struct traits { using types = std::tuple<int>; };
int main() {
  using E = ristra::input_engine_t<traits>;
  E e;
  auto * h = new ristra::hard_coded_source_t;
  e.register_hard_coded_source(h);
  ristra::init_value_t<int, E> v("n", [](int const & i) { return i > 0; });
  h->get_registry<int>()["n"] = 1;
  e.resolve_inputs();
  if(v.get() != 1) return 1;
  h->get_registry<int>()["n"] = -1;
  e.resolve_inputs();
  try {
    v.get();
  }
  catch(std::exception &) {
    return 0;
  }
  return 1;
}
'''),
dict(id="c01-default", property="C01",
  edits=[("ristra/initialization/arguments.h",
          "    if ( variables_.count(var_name) )\n      return variables_[var_name].as<T>();\n    else\n      return def;",
          "    T val = def;\n    if ( variables_.count(var_name) ) {\n      auto given = variables_[var_name].as<T>();\n      if ( given != T() ) val = given;\n    }\n    return val;")],
  needs="an option given with the empty value of its type (0) while the default is another",
  breaks="a zero given on the command line is replaced by the default",
  libs="-lboost_program_options",
  demo=H + '''#include "ristra/initialization/arguments.h"
int main() {
  auto & a = ristra::initialization::command_line_arguments_t::instance();
  a.register_argument<int>("", "steps", "number of steps");
  char p[] = "prog", o[] = "--steps=0";
  char * argv[] = {p, o, nullptr};
  auto r = a.process_arguments(2, argv);
  return r.variables.as<int>("steps", 7) == 0 ? 0 : 1;
}
'''),
dict(id="y01-index", property="Y01",
  edits=[("ristra/embedded/embed_python.h",
          "  auto pvalue = PyLong_FromLong(arg);",
          "  auto pvalue = PyLong_FromDouble(arg);")],
  needs="an integer argument beyond 2^53",
  breaks="large integers reach Python rounded",
  flags="-I/usr/include/python3.12", libs="-lpython3.12",
  demo=H + '''#include "ristra/embedded/embed_python.h"
using namespace ristra::embedded;
int main() {
  python_initialize();
  auto v = python_get_value(9007199254740993L);
  auto r = python_as_long(v);
  python_free(v);
  python_finalize();
  return r == 9007199254740993L ? 0 : 1;
}
'''),
dict(id="e01-hex32", property="E01",
  edits=[("ristra/elements/elements.cc",
          "         *((9.0 * ref_vert[this_vert][1] * (1 - 3 * xi_point[1] * xi_point[1]))\n         - (2 * xi_point[1]));\n   } // end for this_vert\n} // end of partial Eta function",
          "         *((9.0 * ref_vert[this_vert][1] * (1 - 3 * xi_point[1] * xi_point[1]))\n         - (2 * xi_point[2]));\n   } // end for this_vert\n} // end of partial Eta function")],
  needs="the eta derivative of the 32-node hexahedron where the second and third coordinates differ",
  breaks="derivatives of the edge shape functions are not those of the shape functions",
  libs="ristra/elements/elements.cc",
  demo=H + '''#include "ristra/elements/elements.h"
using namespace ristra::elements;
int main() {
  Hex32 e;
  std::vector<double> p(32), a(32), b(32), x{0.3, 0.4, -0.6};
  std::vector<std::vector<double>> v(32, std::vector<double>(3, 0.));
  e.partial_eta_shape_fcn(p, x);
  double h = 1e-5;
  x[1] = 0.4 + h;
  e.basis(a, x, v);
  x[1] = 0.4 - h;
  e.basis(b, x, v);
  for(int i = 0; i < 32; ++i)
    if(std::abs(p[i] - (a[i] - b[i]) / (2 * h)) > 1e-6) return 1;
  return 0;
}
'''),
]

H = "#include <cassert>\n#include <cmath>\n#include <cstdlib>\n#include <fstream>\n#include <iostream>\n#include <string>\n#include <vector>\n"
LUA = dict(flags="-I/usr/include/lua5.3", libs="-llua5.3")
BUGS = [
dict(id="l01-unref", property="L01", **LUA,
  edits=[("ristra/embedded/embed_lua.h", "          luaL_unref(s.get(), LUA_REGISTRYINDEX, *r);\n", "")],
  needs="many results, or a look at whether the script's value can be collected afterwards",
  breaks="the value of every result ever read stays alive",
  demo=H + '''#include "ristra/embedded/embed_lua.h"
using namespace ristra::embedded;
int main() {
  lua_t l;
  l.run_string("w = setmetatable({}, {__mode = 'v'}); w[1] = {5}; function live() collectgarbage(); collectgarbage(); return w[1] ~= nil and 1 or 0 end");
  {
    auto r = l["w"][1];
    if(r[1].as<int>() != 5 || l["live"]().as<int>() != 1) return 2;
  }
  return l["live"]().as<int>();
}
'''),
dict(id="l02-float-int", property="L02", **LUA,
  edits=[("ristra/embedded/embed_lua.h", "inline std::size_t lua_push(lua_State * s, double x) \n{\n  lua_pushnumber( s, x );",
          "inline std::size_t lua_push(lua_State * s, double x) \n{\n  if (x == static_cast<int>(x)) lua_pushinteger( s, x ); else\n  lua_pushnumber( s, x );")],
  needs="a double with an integral value handed to a function that looks at its subtype, or divides or overflows it as an integer",
  breaks="the function receives an integer in place of the number",
  demo=H + '''#include "ristra/embedded/embed_lua.h"
using namespace ristra::embedded;
int main() {
  lua_t l;
  l.run_string("function t(x) return math.type(x) end");
  return l["t"](2.5).as<std::string>() == "float" && l["t"](2.0).as<std::string>() == "float" &&
         l["t"](2).as<std::string>() == "integer" ? 0 : 1;
}
'''),
dict(id="i03-namespace", property="I03", flags="-I/usr/include/lua5.3", libs="-llua5.3 ristra/assertions/dbc_impl.cc",
  edits=[("ristra/initialization/init_value.h", '    if (!m_namespace.empty()) {\n      return m_namespace + ":" + m_name;',
          '    // a name may carry its namespace already\n    if (!m_namespace.empty() && m_name.find(m_namespace) != 0) {\n      return m_namespace + ":" + m_name;')],
  needs="a value whose name starts with the name of its namespace",
  breaks="the value is looked up outside its namespace",
  demo=H + '''#include "ristra/initialization/input_engine.h"
#include "ristra/initialization/init_value.h"
struct traits { using types = std::tuple<double>; };
int main() {
  using E = ristra::input_engine_t<traits>;
  E e;
  ristra::init_value_t<double, E> v("hydro_cfl", [](double const &) { return true; }, "hydro");
  auto * h = new ristra::hard_coded_source_t;
  h->get_registry<double>()["hydro_cfl"] = 1;
  h->get_registry<double>()["hydro:hydro_cfl"] = 2;
  e.register_hard_coded_source(h);
  return e.resolve_inputs() && v.get() == 2 ? 0 : 1;
}
'''),
dict(id="c01-group", property="C01", libs="-lboost_program_options",
  edits=[("ristra/initialization/arguments.h", "    auto res = descriptions_.emplace(key, title.c_str());", "    auto res = descriptions_.emplace(title, title.c_str());")],
  needs="a group with a title, and reading where the help text lists its options",
  breaks="the options appear outside their group",
  demo=H + '''#include "ristra/initialization/arguments.h"
int main() {
  ristra::initialization::command_line_arguments_t a;
  a.register_group("b", "mesh options");
  a.register_argument<int>("b", "cells", "number of cells");
  a.register_argument("", "help", "show help");
  auto t = a.print_missing_argument("cells");
  auto g = t.find("mesh options:"), o = t.find("--cells");
  return g != t.npos && o != t.npos && g < o && t.find("--help") < t.npos ? 0 : 1;
}
'''),
dict(id="m03-exp-scale", property="M03",
  edits=[("ristra/math/matrix.h", "            std::max( 0, \n                      static_cast<int>(scaling_coefficient) + 1",
          "            std::max( 0, \n                      std::min( 6, static_cast<int>(scaling_coefficient) + 1 )")],
  needs="a matrix of norm above a hundred or so",
  breaks="the exponential loses its accuracy",
  demo=H + '''#include "ristra/math/matrix.h"
int main() {
  ristra::math::matrix<double, 2, 2> a;
  a(0, 0) = a(1, 1) = 0;
  a(0, 1) = 400;
  a(1, 0) = -400;
  auto e = ristra::math::exponential(a);
  return std::abs(e(0, 0) - std::cos(400.)) < 1e-9 && std::abs(e(0, 1) - std::sin(400.)) < 1e-9 ? 0 : 1;
}
'''),
dict(id="g03-many-faces", property="G03",
  edits=[("ristra/geometry/shapes/polyhedron.h", "    cx /= faces_.size();", "    cx /= static_cast<unsigned char>( faces_.size() );")],
  needs="a polyhedron of more than 255 faces",
  breaks="its midpoint is far outside",
  demo=H + '''#include "ristra/geometry/shapes/polyhedron.h"
#include "ristra/math/vector.h"
int main() {
  using P = ristra::math::vector<double, 3>;
  ristra::geometry::shapes::polyhedron<P> h;
  const int n = 300;
  auto at = [&](int i, double z) { P p; p[0] = 10 + std::cos(2 * M_PI * i / n); p[1] = std::sin(2 * M_PI * i / n); p[2] = z; return p; };
  std::vector<P> top, bottom;
  for(int i = 0; i < n; ++i) {
    top.push_back(at(i, 1));
    bottom.push_back(at(n - i, 0));
    h.insert({at(i, 0), at(i + 1, 0), at(i + 1, 1), at(i, 1)});
  }
  h.insert(top.begin(), top.end());
  h.insert(bottom.begin(), bottom.end());
  auto m = h.midpoint();
  return std::abs(m[0] - 10) < 1e-6 && std::abs(m[2] - .5) < 1e-6 ? 0 : 1;
}
'''),
dict(id="d01-operand", property="D01", libs="ristra/assertions/dbc_impl.cc",
  edits=[("ristra/assertions/dbc.h", "#define GreaterThan(x, mn) ((x) > (mn))", "#define GreaterThan(x, mn) (x > mn)")],
  needs="contracts switched off and an operand that is a conditional or bitwise expression",
  breaks="the value of the expression is that of another one",
  demo=H + '''#include <sstream>
#undef RISTRA_REQUIRE_ON
#include "ristra/assertions/dbc.h"
int main(int argc, char **) {
  int a = argc ? 5 : 0, b = 3;
  bool r = GreaterThan(argc ? b : a, 4), s = GreaterThan(a, argc ? 7 : b);
  return r || s ? 1 : 0;
}
'''),
dict(id="u01-emplace-brace", property="U01",
  edits=[("ristra/utils/fixed_vector.h", "data_[length_++] = value_type( std::forward<Args>(args)... );", "data_[length_++] = value_type{ std::forward<Args>(args)... };")],
  needs="emplace_back with constructor arguments that an initializer list also takes",
  breaks="another object is put in",
  demo=H + '''#include "ristra/utils/fixed_vector.h"
int main() {
  ristra::utils::fixed_vector<std::string, 4> v;
  v.emplace_back(std::size_t(70), 'x');
  return v[0] == std::string(70, 'x') ? 0 : 1;
}
'''),
dict(id="m02-cube", property="M02",
  edits=[("ristra/math/general.h", "constexpr auto cube( T && x )\n{ return std::forward<T>(x) * std::forward<T>(x) * std::forward<T>(x); }", "constexpr auto cube( T && x )\n{ return std::pow(std::forward<T>(x), 3); }")],
  needs="an integer whose cube is beyond 2^53",
  breaks="the cube of the integer is rounded",
  demo=H + '''#include "ristra/math/general.h"
int main() {
  long n = 1000001;
  return static_cast<long>(ristra::math::cube(n)) == n * n * n ? 0 : 1;
}
'''),
dict(id="t02-reset", property="T02", flags='-DRISTRA_ENABLE_CATALYST -I"$here/vtk"', beside=["lib/vtk"],
  edits=[("ristra/io/catalyst/vtk/unstructuredGrid.h", "	cells = vtkSmartPointer<vtkCellArray>::New();\n\n	idx = 0;\n}", "	cells = vtkSmartPointer<vtkCellArray>::New();\n}")],
  needs="adding points again after a reset",
  breaks="the cells of the second round name points that do not exist",
  demo=H + '''#include "vtk_double.h"
#include "mpi.h"
#include "ristra/io/catalyst/vtk/unstructuredGrid.h"
int main() {
  ristra::io::vtk::UnstructuredGrid g(0, 1);
  double p[3] = {1, 2, 3}, q[3] = {4, 5, 6};
  g.addPoint(p);
  g.addPoint(q);
  g.pushPointsToGrid(1);
  g.reset();
  g.addPoint(q);
  g.pushPointsToGrid(1);
  if(g.getUGrid()->GetNumberOfPoints() != 1) return 1;
  double x[3];
  g.getUGrid()->GetPoints()->GetPoint(0, x);
  auto & c = g.getUGrid()->cell_array->list;
  return x[0] == 4 && x[1] == 5 && x[2] == 6 && c.size() == 1 && c[0] == std::vector<vtkIdType>{0} ? 0 : 1;
}
'''),
]

H = '#include <cstdio>\n#include <cmath>\n#include <vector>\n#include <string>\n'
BUGS = [
dict(id="u01-erase-range", property="U01",
  edits=[("ristra/utils/fixed_vector.h",
          "      std::move( d_last, end(), d_first );\n    // the new length",
          "      std::copy_n( d_last, std::min<std::ptrdiff_t>( count, std::distance(d_last, end()) ), d_first );\n    // the new length")],
  needs="erase(first,last) of k elements with more than k elements behind the range",
  breaks="elements behind an erased range are not moved down completely",
  demo=H + '''#include "ristra/utils/fixed_vector.h"
int main() {
  ristra::utils::fixed_vector<int, 10> v;
  for(int i = 0; i < 8; ++i) v.push_back(i);
  v.erase(v.cbegin() + 1, v.cbegin() + 3);
  int want[] = {0, 3, 4, 5, 6, 7};
  if(v.size() != 6) return 1;
  for(int i = 0; i < 6; ++i)
    if(v[i] != want[i]) return 1;
  return 0;
}
'''),
dict(id="u02-zip-equal", property="U02",
  edits=[("ristra/utils/zip_impl.h",
          "    auto operator++(int) {\n      auto a = *this;\n      increment(current);\n      return a;",
          "    auto operator++(int) {\n      auto & a = *this;\n      increment(current);\n      return a;")],
  needs="an explicit iterator loop that uses the value of it++",
  breaks="post-increment of a zip iterator yields the next row, so the first row is never reached",
  demo=H + '''#include <cassert>
#include "ristra/utils/zip.h"
int main() {
  std::vector<int> a{1, 2, 3}, b{4, 5, 6};
  auto z = ristra::utils::zip(a, b);
  auto it = z.begin();
  auto old = it++;
  return std::get<0>(*old) == 1 && std::get<1>(*it) == 5 ? 0 : 1;
}
'''),
dict(id="u03-replace-empty", property="U03",
  edits=[("ristra/utils/string_utils.h",
          "    start_pos += to.length(); // Handles",
          "    start_pos += std::max<size_t>( to.length(), 1 ); // Handles"),
         ("ristra/utils/string_utils.h", "#include <cstdlib>\n", "#include <algorithm>\n#include <cstdlib>\n")],
  needs="an empty replacement and two adjacent occurrences",
  breaks="replace_all leaves occurrences in place when they are deleted next to each other",
  demo=H + '''#include "ristra/utils/string_utils.h"
int main() {
  return ristra::utils::replace_all("a//b/c", "/", "") == "abc" ? 0 : 1;
}
'''),
dict(id="u04-substr", property="U04",
  edits=[("ristra/utils/array_ref.h",
          "            : n > size() - pos ? substr(pos, size() - pos)",
          "            : n + pos > size() ? substr(pos, size() - pos)")],
  needs="substr with a length close to the largest size_type (its default) and a non-zero position",
  breaks="the default substr describes a range that runs far past the end of the data",
  demo=H + '''#include "ristra/utils/array_ref.h"
int main() {
  std::vector<int> a{1, 2, 3, 4};
  ristra::utils::array_ref<int> r(a);
  auto s = r.substr(1);
  return s.size() == 3 && s.data() == a.data() + 1 ? 0 : 1;
}
'''),
dict(id="u06-intersect-unique", property="U06",
  edits=[("ristra/utils/algorithm.h",
          "  std::sort( sorted2.begin(), sorted2.end() );\n",
          "  if ( !std::is_sorted( sorted1.begin(), sorted1.end() ) )\n    std::sort( sorted2.begin(), sorted2.end() );\n")],
  needs="a second range that is not sorted (the first is always sorted by then)",
  breaks="the intersection with an unsorted second range loses elements",
  demo=H + '''#include "ristra/utils/algorithm.h"
int main() {
  std::vector<int> a{3, 1, 2}, b{9, 2, 1}, c;
  ristra::utils::unsorted_set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(c));
  return c == std::vector<int>{1, 2} ? 0 : 1;
}
'''),
dict(id="m02-unit-tiny", property="M02",
  edits=[("ristra/math/general.h",
          "  auto l = abs(x);\n  auto u = x / l;",
          "  auto l = std::max( abs(x), std::numeric_limits<T>::epsilon() );\n  auto u = x / l;"),
         ("ristra/math/general.h", "#include <cassert>\n", "#include <cassert>\n#include <limits>\n")],
  needs="a non-zero vector shorter than 2e-16",
  breaks="the unit vector of a very short vector does not have length one",
  demo=H + '''#include "ristra/math/vector.h"
#include "ristra/math/general.h"
int main() {
  ristra::math::vector<double, 2> v{3e-20, 4e-20};
  auto u = ristra::math::unit(v);
  return std::abs(u[0] - 0.6) < 1e-12 && std::abs(u[1] - 0.8) < 1e-12 ? 0 : 1;
}
'''),
dict(id="g02-area-iter", property="G02",
  edits=[("ristra/geometry/shapes/polygon.h",
          "      a += (*po)[0]*(*pn)[1] - (*pn)[0]*(*po)[1];\n      po = pn;\n    }\n    return std::abs(a/2);",
          "      a += std::abs( (*po)[0]*(*pn)[1] - (*pn)[0]*(*po)[1] );\n      po = pn;\n    }\n    return a/2;")],
  needs="a polygon in iterator form that does not contain the origin",
  breaks="the area of a polygon given by iterators depends on where it lies",
  demo=H + '''#include "ristra/geometry/point.h"
#include "ristra/geometry/shapes/polygon.h"
using P = ristra::geometry::point<double, 2>;
int main() {
  std::vector<P> p{{5, 5}, {7, 5}, {7, 7}, {5, 7}};
  double a = ristra::geometry::shapes::polygon<2>::area(p.begin(), p.end());
  return std::abs(a - 4) < 1e-12 ? 0 : 1;
}
'''),
]

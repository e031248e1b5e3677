H = '#include <cstdio>\n#include <cmath>\n#include <vector>\n#include <string>\n#include <iostream>\n#include <fstream>\n#include <functional>\n'
BUGS = [
dict(id="u07-swap", property="U07",
  edits=[("ristra/utils/filter_iterator.h", "    std::swap(end_, rhs.end_);\n", "")],
  needs="swapping two filtering iterators over ranges with different ends",
  breaks="a swapped iterator runs past (or never meets) its own end",
  demo=H + '''#include "ristra/utils/filter_iterator.h"
int main() {
  std::vector<int> v = {1, 2, 3, 5, 4, 6, 7, 8};
  auto even = [](int i) { return i % 2 == 0; };
  auto b = v.begin();
  auto p = ristra::utils::make_filter_iterator(b + 0, b + 3, even);
  auto q = ristra::utils::make_filter_iterator(b + 3, b + 8, even);
  p.swap(q);
  // now p runs over [3, 8) and q over [0, 3)
  ++q;
  int n = 0;
  for(; p.begin() != v.end() && n < 10; ++p)
    ++n;
  return q.begin() == b + 3 && n == 3 ? 0 : 1;
}
'''),
dict(id="u07-days", property="U07",
  edits=[("ristra/utils/time_utils.h", "  days = input_seconds / SecondsPerDay;",
          "  days = static_cast<double>( input_seconds ) / SecondsPerDay;")],
  needs="a number of seconds beyond 2^53 (or one second before so late a midnight)",
  breaks="the days do not recompose with the rest to the seconds given",
  demo=H + '''#include "ristra/assertions/errors.h"
#include "ristra/utils/time_utils.h"
int main() {
  long long s = 86400LL * 104249991374LL * 500 - 1, d;
  int h, m, t;
  ristra::utils::daysHoursMinutesSeconds(s, d, h, m, t);
  return ((d * 24 + h) * 60 + m) * 60 + t == s && h == 23 && m == 59 && t == 59 ? 0 : 1;
}
''', flags="$(mpicxx --showme:compile)", libs="$(mpicxx --showme:link)"),
dict(id="u08-refwrap", property="U08",
  edits=[("ristra/utils/type_traits.h", "  using type = T &;", "  using type = typename std::decay<T>::type &;")],
  needs="decaying a reference wrapper of a constant object",
  breaks="the reference loses its const",
  demo=H + '''#include "ristra/utils/type_traits.h"
using namespace ristra::utils;
int main() {
  return std::is_same<special_decay_t<std::reference_wrapper<const int>>, const int &>::value &&
      std::is_same<special_decay_t<std::reference_wrapper<int>>, int &>::value ? 0 : 1;
}
'''),
dict(id="u08-container", property="U08",
  edits=[("ristra/utils/type_traits.h", "decltype(std::declval<T>().begin()), decltype(std::declval<T>().end()),",
          "decltype(std::declval<T &>().begin()), decltype(std::declval<T &>().begin()),")],
  needs="a class with everything a container has but end()",
  breaks="a class without an end counts as a container",
  demo=H + '''#include "ristra/utils/type_traits.h"
struct half {
  using value_type = int;
  using size_type = std::size_t;
  using allocator_type = std::allocator<int>;
  using iterator = int *;
  using const_iterator = const int *;
  size_type size();
  iterator begin();
  const_iterator cbegin() const;
  const_iterator cend() const;
  int * data();
};
int main() {
  return !ristra::utils::is_container_v<half> && ristra::utils::is_container_v<std::vector<int>> ? 0 : 1;
}
'''),
dict(id="t01-percent", property="T01",
  edits=[("ristra/io/catalyst/utils/catalystUtils.hpp", "  if ((float)numDiff/numPixels > 0.02)",
          "  if (numDiff*100/numPixels > 2)")],
  needs="two images that differ in more than two but less than three percent of their values",
  breaks="images that differ too much count as similar",
  demo=H + '''#define STB_IMAGE_IMPLEMENTATION
#include "ristra/io/catalyst/utils/catalystUtils.hpp"
void pgm(const char * name, int changed) {
  std::ofstream f(name, std::ios::binary);
  f << "P5\\n40 10\\n255\\n";
  for(int i = 0; i < 400; ++i)
    f << char(i < changed ? 9 : 7);
}
int main() {
  pgm("a.pgm", 0);
  pgm("b.pgm", 8);
  pgm("c.pgm", 11);
  return imageCompare("a.pgm", "b.pgm") && !imageCompare("a.pgm", "c.pgm") ? 0 : 1;
}
''', flags="-w"),
dict(id="t01-space", property="T01",
  edits=[("ristra/io/catalyst/utils/catalystUtils.hpp", """std::equal(std::istreambuf_iterator<char>(f1.rdbuf()),
                    std::istreambuf_iterator<char>(),
                    std::istreambuf_iterator<char>(f2.rdbuf()));""",
          """std::equal(std::istream_iterator<char>(f1),
                    std::istream_iterator<char>(),
                    std::istream_iterator<char>(f2));""")],
  needs="two files of one size that differ only in white space",
  breaks="they count as identical",
  demo=H + '''#define STB_IMAGE_IMPLEMENTATION
#include <iterator>
#include "ristra/io/catalyst/utils/catalystUtils.hpp"
int main() {
  std::ofstream("a.txt") << "one two";
  std::ofstream("b.txt") << "onetw o";
  std::ofstream("c.txt") << "one two";
  return compareFiles("a.txt", "c.txt") && !compareFiles("a.txt", "b.txt") ? 0 : 1;
}
''', flags="-w"),
]

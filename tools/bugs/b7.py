H = "#include <cassert>\n#include <cmath>\n#include <cstdlib>\n#include <fstream>\n#include <iostream>\n#include <string>\n#include <vector>\n"
LUA = dict(flags="-I/usr/include/lua5.3", libs="-llua5.3")
BUGS = [
dict(id="l01-slots", property="L01", **LUA,
  edits=[("ristra/embedded/embed_lua.h", "          luaL_unref(s.get(), LUA_REGISTRYINDEX, *r);\n          delete r;",
          "          // the slots of a long run are given back by the state\n          if (*r < 256) luaL_unref(s.get(), LUA_REGISTRYINDEX, *r);\n          delete r;")],
  needs="more than 256 results alive at the same time, and a look at whether their values can be collected afterwards",
  breaks="the values of the results beyond the first 256 stay alive for ever",
  demo=H + '''#include "ristra/embedded/embed_lua.h"
using namespace ristra::embedded;
int main() {
  lua_t l;
  l.run_string("t = {} w = setmetatable({}, {__mode = 'v'}) for i = 1, 600 do t[i] = {i} w[i] = t[i] end\\n"
               "function live() t = nil collectgarbage() collectgarbage() local n = 0 for _ in pairs(w) do n = n + 1 end return n end");
  {
    std::vector<lua_result_t> r;
    for(int i = 1; i <= 600; ++i)
      r.push_back(l["t"][i]);
  }
  return l["live"]().as<int>() == 0 ? 0 : 1;
}
'''),
dict(id="c01-prefix", property="C01", libs="-lboost_program_options",
  edits=[("ristra/initialization/arguments.h", "      return variables_[var_name].as<T>();",
          "      return variables_[var_name.substr(0, 24)].as<T>();")],
  needs="an option whose name has more than 24 letters",
  breaks="its value is read from another name",
  demo=H + '''#include "ristra/initialization/arguments.h"
int main() {
  ristra::initialization::command_line_arguments_t a;
  a.register_argument<int>("", "a-long-name-for-an-option-of-a-code", "m");
  std::string s[] = {"p", "--a-long-name-for-an-option-of-a-code=5"};
  char * v[] = {&s[0][0], &s[1][0], nullptr};
  auto r = a.process_arguments(2, v, false);
  try {
    return !r.error && r.variables.as<int>("a-long-name-for-an-option-of-a-code") == 5 ? 0 : 1;
  }
  catch(...) {
    return 1;
  }
}
'''),
dict(id="m01-neg-index", property="M01",
  edits=[("ristra/math/multi_array.h", "                         if ( i>= dim  )", "                         if ( i >= static_cast<decltype(i)>(dim) )")],
  needs="a negative index of a signed type given to at()",
  breaks="an element before the array is returned where an exception is due",
  demo=H + '''#include <stdexcept>
#include "ristra/math/multi_array.h"
int main() {
  ristra::math::multi_array<double, 3, 3> a[3];
  for(auto & x : a) x = 1.;
  try {
    a[1].at(1, -2);
  }
  catch(const std::out_of_range &) {
    return 0;
  }
  return 1;
}
'''),
dict(id="t01-low-surrogate", property="T01",
  edits=[("ristra/io/catalyst/utils/json.hpp", "0xDC00 <= codepoint2 and codepoint2 <= 0xDFFF", "0xDC00 <= codepoint2 and codepoint2 < 0xDFFF")],
  needs="a file with an escaped character whose second half is the last low surrogate",
  breaks="a correct file is refused",
  demo=H + '''#include "ristra/io/catalyst/utils/json.hpp"
int main() {
  std::string a = "{\\"k\\": \\"\\\\uD83D\\\\uDFFF\\"}", b = "{\\"k\\": \\"\\\\uD83D\\\\uDFFE\\"}";
  if(nlohmann::json::parse(b)["k"].get<std::string>() != "\\xF0\\x9F\\x9F\\xBE") return 2;
  try {
    return nlohmann::json::parse(a)["k"].get<std::string>() == "\\xF0\\x9F\\x9F\\xBF" ? 0 : 1;
  }
  catch(const std::exception &) {
    return 1;
  }
}
'''),
dict(id="a01-same", property="A01",
  edits=[("ristra/atomics/src/atomics.h", "   } while (!punxweak(atom, old.pun, neu.pun, success, failure));",
          "      // done, too, when the variable holds the new value already\n   } while (!punxweak(atom, old.pun, neu.pun, success, failure) &&\n            old.pun != neu.pun);")],
  needs="two threads that compute the same new value at the same time, through the punned weak scheme with two memory orders",
  breaks="one of two equal updates is lost",
  libs="-lpthread -latomic", flags="-O2 -Iristra/atomics/src",
  demo=H + '''#include <thread>
#include "atomics.h"
int main() {
  namespace at = ristra::atomics;
  for(int round = 0; round < 40; ++round) {
    at::atomic<double, at::strong> x(0);
    std::vector<std::thread> t;
    for(int i = 0; i < 4; ++i)
      t.emplace_back([&] {
        for(int k = 0; k < 200000; ++k)
          at::add<at::weak::pun>(x, 1., std::memory_order_acq_rel, std::memory_order_acquire);
      });
    for(auto & s : t) s.join();
    if(double(x) != 800000) return 1;
  }
  return 0;
}
'''),
dict(id="u03-long-path", property="U03",
  edits=[("ristra/utils/string_utils.h", "  auto i = str.rfind( sep, str.length() );", "  auto i = str.rfind( sep, 4095 ); // PATH_MAX")],
  needs="a path longer than 4096 letters with a directory after that",
  breaks="the name returned still holds directories",
  demo=H + '''#include <algorithm>
#include <iterator>
#include <sstream>
#include <locale>
#include <cstring>
#include <iomanip>
#include "ristra/utils/string_utils.h"
int main() {
  std::string d;
  for(int i = 0; i < 900; ++i) d += "/dir" + std::to_string(i);
  return ristra::utils::basename(d + "/name.txt") == "name.txt" && ristra::utils::basename("/a/b.c") == "b.c" ? 0 : 1;
}
'''),
]

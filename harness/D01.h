// D01: contract assertions report exactly the broken contracts, in each mode.
// The including file sets D01_ACTION (0 throw, 1 notify, 2 nothing) and
// D01_ON (1: RISTRA_REQUIRE_ON); one binary per mode, because the action is a
// property of the program.
#include "vp.h"
#include <ristra/ristra-config.h>
#undef RISTRA_REQUIRE_ON
#undef RISTRA_DBC_THROW
#undef RISTRA_DBC_NOTIFY
#if D01_ON
#define RISTRA_REQUIRE_ON
#endif
#if D01_ACTION == 0
#define RISTRA_DBC_THROW
#elif D01_ACTION == 1
#define RISTRA_DBC_NOTIFY
#endif
#include "ristra/assertions/dbc.h"
#include "ristra/assertions/errors.h"
#include <iostream>
#include <unordered_set>
namespace dbc = ristra::assertions::dbc;

namespace d01 {
enum Kind { INSIST, REQUIRE, CHECK, ENSURE, EQUAL, NOTEQUAL, RANGE, GT, GE, LT, ONEOF, N_KINDS };
const char * kind_name[] = {"Insist", "Require", "Check", "Ensure", "Equal", "NotEqual", "InOpenRange",
  "GreaterThan", "GreaterEqual", "LessThan", "OneOf"};

// what one use of a macro did
struct Seen {
  int result = -1; // value of the expression, where it has one
  bool threw = false;
  std::string text; // exception text or what was written to the stream
  int line = 0;
  const char * func = "";
  int evals_a = 0, evals_b = 0, evals_c = 0, evals_msg = 0;
  bool same = true; // operands unchanged
};
template<class T>
struct Count { // counts how often an operand is evaluated
  const T & v;
  int & n;
  const T & operator()() const {
    ++n;
    return v;
  }
};
template<class T>
void site(Kind k, const T & a, const T & b, const T & c, bool cond, const std::string & msg, const std::set<T> & set,
  const std::unordered_set<T> & uset, Seen & s) {
  Count<T> A{a, s.evals_a}, B{b, s.evals_b}, C{c, s.evals_c};
  auto M = [&]() -> const std::string & {
    ++s.evals_msg;
    return msg;
  };
  auto P = [&] {
    ++s.evals_a;
    return cond;
  };
  (void)M; (void)P;
  s.func = __FUNCTION__;
  // clang-format off
  switch(k) {
  case INSIST: s.line = __LINE__; Insist(P(), M()); break;
  case REQUIRE: s.line = __LINE__; Require(P(), M()); break;
  case CHECK: s.line = __LINE__; Check(P(), M()); break;
  case ENSURE: s.line = __LINE__; Ensure(P(), M()); break;
  case EQUAL: s.line = __LINE__; s.result = Equal(A(), B()); break;
  case NOTEQUAL: s.line = __LINE__; s.result = NotEqual(A(), B()); break;
  case RANGE: s.line = __LINE__; s.result = InOpenRange(A(), B(), C()); break;
  case GT: s.line = __LINE__; s.result = GreaterThan(A(), B()); break;
  case GE: s.line = __LINE__; s.result = GreaterEqual(A(), B()); break;
  case LT: s.line = __LINE__; s.result = LessThan(A(), B()); break;
  case ONEOF:
    if(cond) { s.line = __LINE__; s.result = OneOf(A(), set); }
    else { s.line = __LINE__; s.result = OneOf(A(), uset); }
    break;
  default: break;
  }
  // clang-format on
}
template<class T>
std::string shown(const T & v) {
  std::ostringstream os;
  os << v;
  return os.str();
}
template<class T>
void property(rc::Gen<T> g) {
  // distinct sites in a row: a report must not depend on what came before
  const int n = *vp::range(1, 5);
  struct Use {
    Kind k;
    T a, b, c;
    bool cond;
    std::string msg;
    std::vector<T> members;
  };
  std::vector<Use> uses;
  std::string text;
  int broken = 0;
  const int reps = *rc::gen::element(1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 140); // the same again
  const int pad = *rc::gen::weightedOneOf<int>({{14, rc::gen::just(0)}, {1, vp::large(5000)}}); // long messages
  auto plain_text = rc::gen::resize(12, rc::gen::container<std::string>(
    rc::gen::weightedOneOf<char>({{8, vp::range<char>('a', 'z')}, {1, rc::gen::element<char>('\'', '%', ' ', '\n', '"')}})));
  for(int i = 0; i < n; ++i) {
    Use u{Kind(*vp::range<int>(0, N_KINDS - 1)), *g, *g, *g, *vp::coin(), *plain_text, *rc::gen::weightedOneOf<std::vector<T>>({{9, vp::vec<T>(0, 4, g)}, {1, vp::vec<T>(20, 60, g)}})};
    u.msg += std::string(pad, 'm');
    if(u.k == ONEOF) { // a NaN has no place in a set
      if(!(u.a == u.a))
        u.a = T();
      for(auto & m : u.members)
        if(!(m == m))
          m = T();
    }
    if(*vp::range(0, 3) == 0)
      u.b = u.a;
    if(*vp::range(0, 3) == 0)
      u.c = u.a;
    text += std::string(i ? "; " : "") + kind_name[u.k] + "(" + vp::str(u.a) + "," + vp::str(u.b) + "," +
            vp::str(u.c) + "," + (u.cond ? "true" : "false") + "," + vp::str(u.msg.substr(0, 60)) + "," + vp::str(u.members) + ")";
    uses.push_back(u);
  }
  auto holds = [](const Use & u) {
    switch(u.k) {
    case EQUAL: return u.a == u.b;
    case NOTEQUAL: return !(u.a == u.b);
    case RANGE: return u.b < u.a && u.a < u.c;
    case GT: return u.b < u.a;
    case GE: return u.b < u.a || u.b == u.a;
    case LT: return u.a < u.b;
    case ONEOF: {
      for(auto & m : u.members)
        if(m == u.a)
          return true;
      return false;
    }
    default: return u.cond;
    }
  };
  for(auto & u : uses)
    broken += !holds(u);
  VP_CASE(broken > 0, text << (reps > 1 ? " x140" : "") << " pad=" << pad);
  vp::tag(broken ? "broken" : "kept");
  vp::run([&] {
    std::ostringstream stream;
    struct Swap {
      std::ostream * old = dbc::p_str;
      std::streambuf * cerr = std::cerr.rdbuf();
      std::streambuf * cout = std::cout.rdbuf();
      ~Swap() {
        dbc::p_str = old;
        std::cerr.rdbuf(cerr);
        std::cout.rdbuf(cout);
      }
    } swap;
    std::ostringstream elsewhere;
    dbc::p_str = &stream;
    std::cerr.rdbuf(elsewhere.rdbuf());
    std::cout.rdbuf(elsewhere.rdbuf());
    for(int rep = 0; rep < reps; ++rep)
    for(auto & u : uses) {
      const bool h = holds(u);
      std::set<T> set(u.members.begin(), u.members.end());
      std::unordered_set<T> uset(u.members.begin(), u.members.end());
      Seen s;
      stream.str("");
      try {
        site<T>(u.k, u.a, u.b, u.c, u.cond, u.msg, set, uset, s);
      }
      catch(const std::logic_error & e) {
        s.threw = true;
        s.text = e.what();
      }
      if(!s.threw)
        s.text = stream.str();
      const std::string w = std::string(kind_name[u.k]) + (h ? ", kept" : ", broken");
      const bool active = D01_ON || u.k == INSIST;
      const bool reports = active && !h && D01_ACTION != 2;
      VP_EQ(s.threw, reports && D01_ACTION == 0, w << ": thrown");
      if(!reports)
        VP_EQ(s.text, std::string(), w << ": reported");
      else {
        std::string what;
        switch(u.k) {
        case EQUAL: what = "A() != B()"; break;
        case NOTEQUAL: what = "A() expected != B()"; break;
        case RANGE: what = "A() (" + shown(u.a) + ") was not in range (" + shown(u.b) + "," + shown(u.c) + ")"; break;
        case GT: what = "A() (" + shown(u.a) + ") <= " + shown(u.b); break;
        case GE: what = "A() (" + shown(u.a) + ") < " + shown(u.b); break;
        case LT: what = "A() (" + shown(u.a) + ") >= " + shown(u.b); break;
        case ONEOF: what = "A() not in set"; break;
        default: what = u.msg;
        }
        if(u.k == ONEOF)
          what = what.substr(what.find(" not"));
        std::string want = std::string(__FILE__) + ":" + std::to_string(s.line) + ":" + s.func + " assertion '";
        VP_EQ(s.text.substr(0, want.size()), want, w << ": where");
        std::string rest = s.text.substr(want.size());
        std::string end = what + "' failed.\n";
        VP_ASSERT(rest.size() >= end.size() && rest.substr(rest.size() - end.size()) == end,
          w << ": reported " << vp::str(rest) << ", expected " << vp::str(end));
        if(u.k != ONEOF)
          VP_EQ(rest, end, w << ": reported once");
      }
      // the value of the expression, and one evaluation per operand
      if(u.k >= EQUAL && !s.threw)
        VP_EQ(s.result, int(D01_ON || u.k != ONEOF ? h : true), w << ": value");
      if(active) {
        VP_EQ(s.evals_a, 1, w << ": evaluations of the first operand");
        if(u.k >= EQUAL && u.k <= LT)
          VP_EQ(s.evals_b, 1, w << ": evaluations of the second operand");
        if(u.k == RANGE)
          VP_EQ(s.evals_c, 1, w << ": evaluations of the third operand");
      }
      else if(u.k == REQUIRE || u.k == CHECK || u.k == ENSURE)
        VP_EQ(s.evals_a + s.evals_msg, 0, w << ": evaluations when contracts are off");
      else if(u.k >= EQUAL && u.k <= LT && u.k != RANGE) {
        VP_EQ(s.evals_a, 1, w << ": evaluations of the first operand");
        VP_EQ(s.evals_b, 1, w << ": evaluations of the second operand");
      }
      VP_EQ(elsewhere.str(), std::string(), w << ": written to the standard streams");
    }
  });
}
// operands that are expressions of low precedence
inline void operands() {
  auto v = *vp::vec<int>(7, vp::range(-4, 4));
  bool p = *vp::coin(), q = *vp::coin();
  int a = p ? v[0] : v[1], b = v[2] & v[3], c = q ? v[4] : v[5] | v[6];
  VP_CASE(a != b, "a=" << a << " b=" << b << " c=" << c << " of " << vp::str(v) << p << q);
  vp::run([&] {
    std::ostringstream stream;
    struct Swap {
      std::ostream * old = dbc::p_str;
      ~Swap() { dbc::p_str = old; }
    } swap;
    dbc::p_str = &stream;
    // clang-format off
#define D01_VALUE(holds, ...) \
    { \
      const bool h = holds; \
      int r = h; \
      bool threw = false; \
      try { r = __VA_ARGS__; } catch(const std::logic_error &) { threw = true; } \
      VP_EQ(threw, D01_ON && D01_ACTION == 0 && !h, #__VA_ARGS__ ": thrown"); \
      VP_EQ(r, int(h), #__VA_ARGS__ ": value"); \
    }
    D01_VALUE(a == b, Equal(p ? v[0] : v[1], v[2] & v[3]));
    D01_VALUE(b == a, Equal(v[2] & v[3], p ? v[0] : v[1]));
    D01_VALUE(a != b, NotEqual(p ? v[0] : v[1], v[2] & v[3]));
    D01_VALUE(b != a, NotEqual(v[2] & v[3], p ? v[0] : v[1]));
    D01_VALUE(a > b && a < c, InOpenRange(p ? v[0] : v[1], v[2] & v[3], q ? v[4] : v[5] | v[6]));
    D01_VALUE(b > a && b < c, InOpenRange(v[2] & v[3], p ? v[0] : v[1], q ? v[4] : v[5] | v[6]));
    D01_VALUE(a > b, GreaterThan(p ? v[0] : v[1], v[2] & v[3]));
    D01_VALUE(b > a, GreaterThan(v[2] & v[3], p ? v[0] : v[1]));
    D01_VALUE(a >= b, GreaterEqual(p ? v[0] : v[1], v[2] & v[3]));
    D01_VALUE(b >= a, GreaterEqual(v[2] & v[3], p ? v[0] : v[1]));
    D01_VALUE(a < b, LessThan(p ? v[0] : v[1], v[2] & v[3]));
    D01_VALUE(b < a, LessThan(v[2] & v[3], p ? v[0] : v[1]));
#undef D01_VALUE
    // conditions of the others
    const bool cond = p || q;
    bool threw = false;
    try { Insist(p || q, "either"); } catch(const std::logic_error &) { threw = true; }
    VP_EQ(threw, D01_ACTION == 0 && !cond, "Insist(p || q): thrown");
    threw = false;
    try { Require(p || q, "either"); Check(p ? true : q, "either"); Ensure(p | q, "either"); }
    catch(const std::logic_error &) { threw = true; }
    VP_EQ(threw, D01_ON && D01_ACTION == 0 && !cond, "Require, Check, Ensure: thrown");
    // clang-format on
  });
}
inline rc::Gen<int> ints() {
  return rc::gen::weightedOneOf<int>({{3, vp::range(-3, 3)}, {1, vp::full<int>()}});
}
inline rc::Gen<double> doubles() {
  double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  return rc::gen::weightedOneOf<double>({{4, vp::dyadic(8, 4)},
    {1, vp::of<double>({inf, -inf, nan, 0.0, -0.0, std::numeric_limits<double>::denorm_min()})}});
}
inline rc::Gen<std::string> strings() {
  return rc::gen::resize(3, rc::gen::container<std::string>(vp::range<char>('a', 'c')));
}
} // namespace d01
static void ints_body() { d01::property<int>(d01::ints()); }
static void doubles_body() { d01::property<double>(d01::doubles()); }
static void strings_body() { d01::property<std::string>(d01::strings()); }
VP_INST("operands", 300, d01::operands);
VP_INST("ints", 400, ints_body);
VP_INST("doubles", 400, doubles_body);
VP_INST("strings", 400, strings_body);

// A generated Lua value, its source text, and what the C++ side must read.
#pragma once
#include "vp.h"
#include "ristra/embedded/embed_lua.h"
#include "ristra/math/matrix.h"
#include "ristra/math/vector.h"
#include <array>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <tuple>
namespace em = ristra::embedded;

namespace lm {
struct Quiet { // error macros and failing accesses print
  std::ostringstream os;
  std::streambuf *o = std::cout.rdbuf(os.rdbuf()), *e = std::cerr.rdbuf(os.rdbuf());
  ~Quiet() {
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
  }
};
enum Type { NIL, BOOL, INT, FLT, STR, NUMSTR, TABLE };
struct Value {
  Type t = NIL;
  bool b = false;
  long long i = 0; // INT, NUMSTR holding an integer
  double d = 0; // FLT, NUMSTR holding a real (isreal)
  bool isreal = false;
  std::string s; // STR; NUMSTR: its text
  std::vector<Value> seq; // t[1..n]
  std::map<std::string, Value> named;
  std::map<int, Value> odd; // zero and negative integer keys

  static std::string quote(const std::string & s) {
    std::ostringstream os;
    os << '"';
    for(unsigned char c : s)
      if(c >= 32 && c < 127 && c != '"' && c != '\\')
        os << c;
      else
        os << '\\' << std::setw(3) << std::setfill('0') << int(c);
    os << '"';
    return os.str();
  }
  static std::string num(double d) {
    if(d != d)
      return "(0/0)";
    if(std::isinf(d))
      return d > 0 ? "(1/0)" : "(-1/0)";
    char buf[64];
    snprintf(buf, sizeof buf, "%.17g", d);
    std::string r = buf;
    if(r.find_first_of(".en") == std::string::npos)
      r += ".0";
    return r;
  }
  std::string source() const {
    switch(t) {
    case NIL: return "nil";
    case BOOL: return b ? "true" : "false";
    case INT:
      if(i == std::numeric_limits<long long>::min())
        return "math.mininteger";
      return std::to_string(i);
    case FLT: return num(d);
    case STR: case NUMSTR: return quote(s);
    default: break;
    }
    std::string r = "{";
    for(auto & v : seq)
      r += v.source() + ",";
    for(auto & kv : named)
      r += "[" + quote(kv.first) + "]=" + kv.second.source() + ",";
    for(auto & kv : odd)
      r += "[" + std::to_string(kv.first) + "]=" + kv.second.source() + ",";
    return r + "}";
  }
  Value at(const std::string & k) const {
    auto it = named.find(k);
    return it == named.end() ? Value() : it->second;
  }
  Value at(int k) const {
    if(k >= 1 && k <= (int)seq.size())
      return seq[k - 1];
    auto it = odd.find(k);
    return it == odd.end() ? Value() : it->second;
  }
  std::size_t len() const {
    return t == TABLE ? seq.size() : t == STR || t == NUMSTR ? s.size() : 0;
  }
};

// ------------------------------------------------------------- conversions
// the value as T, or nothing where T cannot hold it (the access must throw)
template<class T, class = void>
struct conv;
inline std::optional<double> number(const Value & v) {
  switch(v.t) {
  case INT: return double(v.i);
  case FLT: return v.d;
  case NUMSTR: return v.isreal ? v.d : double(v.i);
  default: return {};
  }
}
inline std::optional<long long> integer(const Value & v) {
  if(v.t == INT || (v.t == NUMSTR && !v.isreal))
    return v.i;
  if(v.t == FLT || v.t == NUMSTR)
    if(v.d == std::floor(v.d) && v.d >= -9223372036854775808.0 && v.d < 9223372036854775808.0)
      return (long long)v.d;
  return {};
}
template<class T>
struct conv<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
  static std::optional<T> get(const Value & v) {
    auto i = integer(v);
    if(!i)
      return {};
    __int128 w = *i;
    if(w < __int128(std::numeric_limits<T>::min()) || w > __int128(std::numeric_limits<T>::max()))
      return {};
    return T(*i);
  }
};
template<class T>
struct conv<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  static std::optional<T> get(const Value & v) {
    auto d = number(v);
    if(!d)
      return {};
    return T(*d);
  }
};
template<>
struct conv<bool> {
  static std::optional<bool> get(const Value & v) {
    if(v.t != BOOL)
      return {};
    return v.b;
  }
};
template<>
struct conv<std::string> {
  static std::optional<std::string> get(const Value & v) {
    if(v.t == STR || v.t == NUMSTR)
      return v.s;
    if(v.t == INT)
      return std::to_string(v.i);
    if(v.t == FLT) { // lua_Number2str, LUAI_NUMFFORMAT "%.14g"
      char buf[64];
      snprintf(buf, sizeof buf, "%.14g", v.d);
      std::string r = buf;
      if(r.find_first_not_of("-0123456789") == std::string::npos)
        r += ".0";
      return r;
    }
    return {};
  }
};
template<class T>
struct conv<std::vector<T>> {
  static std::optional<std::vector<T>> get(const Value & v) {
    if(v.t != TABLE)
      return {};
    std::vector<T> r;
    for(auto & e : v.seq) {
      auto x = conv<T>::get(e);
      if(!x)
        return {};
      r.push_back(*x);
    }
    return r;
  }
};
template<class C, class T, std::size_t N>
std::optional<C> conv_array(const Value & v) {
  if(v.t != TABLE || v.seq.size() != N)
    return {};
  C r;
  for(std::size_t i = 0; i < N; ++i) {
    auto x = conv<T>::get(v.seq[i]);
    if(!x)
      return {};
    r[i] = *x;
  }
  return r;
}
template<class T, std::size_t N>
struct conv<std::array<T, N>> {
  static auto get(const Value & v) { return conv_array<std::array<T, N>, T, N>(v); }
};
template<class T, std::size_t N>
struct conv<ristra::math::array<T, N>> {
  static auto get(const Value & v) { return conv_array<ristra::math::array<T, N>, T, N>(v); }
};
template<class T, std::size_t M, std::size_t N>
struct conv<ristra::math::multi_array<T, M, N>> {
  using R = ristra::math::matrix<T, M, N>;
  static std::optional<R> get(const Value & v) {
    if(v.t != TABLE || v.seq.size() != M)
      return {};
    R r;
    for(std::size_t i = 0; i < M; ++i) {
      if(v.seq[i].t != TABLE || v.seq[i].seq.size() != N)
        return {};
      for(std::size_t j = 0; j < N; ++j) {
        auto x = conv<T>::get(v.seq[i].seq[j]);
        if(!x)
          return {};
        r(i, j) = *x;
      }
    }
    return r;
  }
};
template<class T>
bool same(const T & a, const T & b) {
  if constexpr(std::is_floating_point_v<T>)
    return a == b ? std::signbit(a) == std::signbit(b) : (a != a && b != b);
  else if constexpr(std::is_same_v<T, std::string> || std::is_integral_v<T>)
    return a == b;
  else {
    auto i = a.begin();
    auto j = b.begin();
    if(a.size() != b.size())
      return false;
    for(; i != a.end(); ++i, ++j) {
      using E = std::decay_t<decltype(*i)>;
      E x = *i, y = *j;
      if(!same<E>(x, y))
        return false;
    }
    return true;
  }
}
template<class T>
std::string text(const T & v) {
  return vp::str(v);
}
template<>
inline std::string text(const std::vector<bool> & v) {
  std::string r;
  for(bool b : v)
    r += b ? 't' : 'f';
  return r;
}

// ------------------------------------------------------------- generators
inline rc::Gen<double> reals() {
  double inf = std::numeric_limits<double>::infinity();
  return rc::gen::weightedOneOf<double>({{6, vp::dyadic(64, 8)}, {2, rc::gen::cast<double>(vp::range(-50, 50))},
    {1, vp::of<double>({inf, -inf, 1e300, -1e-300, 4294967296.0, 2147483648.0, 9223372036854775808.0,
          -9223372036854775808.0, 9007199254740993.0, -0.0, 1e6})}});
}
inline rc::Gen<std::string> bytes() { // never looks like a number
  return rc::gen::map(rc::gen::resize(8, rc::gen::container<std::string>(rc::gen::weightedOneOf<char>({
                        {6, vp::range<char>('a', 'z')}, {2, rc::gen::cast<char>(vp::range<int>(0, 255))},
                        {1, vp::of<char>({'\0', '"', '\\', '\n', ']'})}}))),
    [](std::string s) { return s.empty() ? s : "k" + s; });
}
inline rc::Gen<std::string> keys() {
  return vp::of<std::string>({"a", "b", "c", "1", "key with spaces", "x.y", std::string("n\0l", 3), ""});
}
inline rc::Gen<Value> value(int depth);
inline Value draw(int depth, int kind = -1) {
  Value v;
  int k = kind >= 0 ? kind : *rc::gen::weightedElement<int>({{1, NIL}, {2, BOOL}, {4, INT}, {4, FLT}, {3, STR},
                               {2, NUMSTR}, {std::size_t(depth > 0 ? 8 : 0), TABLE}});
  v.t = Type(k);
  switch(v.t) {
  case BOOL: v.b = *vp::coin(); break;
  case INT:
    v.i = *rc::gen::weightedOneOf<long long>({{3, rc::gen::cast<long long>(vp::range(-20, 20))},
      {1, vp::full<long long>()}, {1, rc::gen::cast<long long>(vp::full<int>())}});
    break;
  case FLT: v.d = *reals(); break;
  case STR: v.s = *bytes(); break;
  case NUMSTR:
    v.isreal = *vp::coin();
    if(v.isreal) {
      v.d = *vp::dyadic(400, 8);
      char buf[32];
      snprintf(buf, sizeof buf, "%.3f", v.d);
      v.s = buf;
    }
    else {
      v.i = *vp::range<int>(-5000, 5000);
      v.s = std::to_string(v.i);
    }
    break;
  case TABLE: {
    int n = *vp::range(0, 4);
    int like = *vp::range(0, 2); // mostly elements of one kind
    int ek = *rc::gen::weightedElement<int>({{1, BOOL}, {3, INT}, {3, FLT}, {2, STR}, {1, NUMSTR},
      {std::size_t(depth > 1 ? 3 : 0), TABLE}});
    for(int i = 0; i < n; ++i) {
      Value e = draw(depth - 1, like ? ek : -1);
      if(e.t == NIL)
        e.t = BOOL;
      v.seq.push_back(e);
    }
    for(int i = *vp::range(0, 2); i > 0; --i) {
      Value e = draw(depth - 1);
      if(e.t != NIL)
        v.named[*keys()] = e;
    }
    if(*vp::range(0, 3) == 0) {
      Value e = draw(depth - 1);
      if(e.t != NIL)
        v.odd[*vp::range(-2, 0)] = e;
    }
    break;
  }
  default: break;
  }
  return v;
}

// ------------------------------------------------------------- comparisons
// r must convert to what v is, or refuse
template<class T>
void expect(const em::lua_result_t & r, const Value & v, const char * name) {
  auto want = conv<T>::get(v);
  std::optional<T> got;
  try {
    got = r.as<T>();
  }
  catch(const std::runtime_error &) {
  }
  VP_ASSERT(got.has_value() == want.has_value(),
    v.source() << " as " << name << (got ? " gave " + text(*got) + " where it cannot hold the value"
                                         : " was refused, expected " + text(*want)));
  if(got)
    VP_ASSERT(same<T>(*got, *want), v.source() << " as " << name << " gave " << text(*got) << ", expected " << text(*want));
  // a default is used when there is nothing, and only then
  T def{};
  if constexpr(std::is_arithmetic_v<T>)
    def = T(1);
  std::optional<T> dflt;
  try {
    dflt = r.as<T>(def);
  }
  catch(const std::runtime_error &) {
  }
  if(v.t == NIL)
    VP_ASSERT(dflt && same<T>(*dflt, def), "nothing as " << name << " with a default");
  else
    VP_ASSERT(dflt.has_value() == want.has_value() && (!dflt || same<T>(*dflt, *want)),
      v.source() << " as " << name << " with a default");
}
#define LM_TYPES(M)                                                            \
  M(bool) M(int) M(long) M(long long) M(unsigned) M(std::size_t) M(short) M(unsigned char) M(double) M(float) \
  M(std::string) M(std::vector<int>) M(std::vector<double>) M(std::vector<std::string>) M(std::vector<bool>) \
  M(std::vector<std::vector<int>>) M(std::vector<std::vector<double>>)
using A3i = std::array<int, 3>;
using A2d = std::array<double, 2>;
using A2s = std::array<std::string, 2>;
using V3d = ristra::math::vector<double, 3>;
using V2i = ristra::math::vector<int, 2>;
using VA2 = std::vector<std::array<int, 2>>;
using M22 = ristra::math::matrix<double, 2, 2>;
using M23 = ristra::math::matrix<int, 2, 3>;
using M32 = ristra::math::matrix<double, 3, 2>;
#define LM_TYPES2(M) M(A3i) M(A2d) M(A2s) M(V3d) M(V2i) M(VA2) M(M22) M(M23) M(M32)
} // namespace lm

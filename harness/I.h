// Generated Lua input files and input-engine values shared by I01-I03.
#pragma once
#include "lua_model.h"
#include "ristra/initialization/init_value.h"
#include "ristra/initialization/input_engine.h"
#include <cstdio>
#include <fcntl.h>
#include <set>
#include <unistd.h>
namespace in {
using lm::Value;
using Dbl = double;
using Str = std::string;
using ArrD = std::array<double, 2>;
using ArrS = std::array<std::size_t, 2>;
using Siz = std::size_t;
using Ret = std::tuple<double, ArrD, double>;
using Fn = std::function<Ret(ArrD const &, double const &)>;
struct traits {
  using types = std::tuple<Dbl, Str, ArrD, ArrS, Siz, Fn>;
};
struct engine : ristra::input_engine_t<traits> {
  using base = ristra::input_engine_t<traits>;
  template<class T>
  auto & data() { return base::get_registry<T>(); }
  template<class T>
  auto & targets() { return base::get_target_set<T>(); }
  template<class T>
  auto & failed() { return base::get_failed_target_set<T>(); }
};

struct Hush { // the code under test uses printf as well
  lm::Quiet q;
  int saved;
  Hush() {
    fflush(stdout);
    saved = dup(1);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    close(n);
  }
  ~Hush() {
    fflush(stdout);
    dup2(saved, 1);
    close(saved);
  }
};

// a function by its coefficients, so that it can live on either side
struct Coef {
  double a = 0, b = 0, c = 0;
  Ret operator()(const ArrD & x, double t) const { return Ret(a * x[0] + t, ArrD{b, x[1]}, c - x[0]); }
  std::string source() const {
    return "function(x,y,t) return " + Value::num(a) + "*x+t, {" + Value::num(b) + ",y}, " + Value::num(c) + "-x end";
  }
};
struct LV { // a Lua value or function
  bool fn = false;
  Coef f;
  Value v;
  bool nil() const { return !fn && v.t == lm::NIL; }
  std::string source() const { return fn ? f.source() : v.source(); }
};
inline Coef draw_coef() { return {*vp::dyadic(64, 4), *vp::dyadic(64, 4), *vp::dyadic(64, 4)}; }
inline Value numbers2(bool ints) {
  Value v;
  v.t = lm::TABLE;
  for(int i = 0; i < 2; ++i)
    v.seq.push_back(lm::draw(0, ints ? lm::INT : lm::FLT));
  if(ints)
    for(auto & e : v.seq)
      e.i = e.i & 0xffffff;
  return v;
}
inline LV draw_lv() {
  LV r;
  int k = *vp::range(0, 9);
  if(k == 0) {
    r.fn = true;
    r.f = draw_coef();
  }
  else if(k < 3)
    r.v = numbers2(k == 1);
  else if(k == 3)
    r.v = lm::draw(1);
  else if(k < 6)
    r.v = lm::draw(0, lm::STR);
  else if(k < 8) {
    r.v = lm::draw(0, lm::INT);
    r.v.i &= 0xffff;
  }
  else
    r.v = lm::draw(0, lm::FLT);
  return r;
}
inline std::string write_file(const std::string & text) {
  std::string name = vp::scratch() + "/in_XXXXXX";
  int fd = mkstemp(&name[0]);
  if(write(fd, text.data(), text.size()) != (ssize_t)text.size())
    throw std::logic_error("cannot write");
  close(fd);
  return name;
}

// values of the five types by kind
struct Any {
  Dbl d = 0;
  Str s;
  ArrD ad{};
  ArrS as{};
  Siz n = 0;
  Coef f;
};
inline Any draw_any() {
  Any a;
  a.d = *lm::reals();
  a.s = *lm::bytes();
  a.ad = {*vp::dyadic(99, 4), *vp::dyadic(99, 4)};
  a.as = {*vp::full<std::size_t>(), *vp::full<std::size_t>()};
  a.n = *vp::full<std::size_t>();
  a.f = draw_coef();
  return a;
}
template<class T> struct pick;
template<> struct pick<Dbl> { static Dbl get(const Any & a) { return a.d; } };
template<> struct pick<Str> { static Str get(const Any & a) { return a.s + " some text that is long enough for the heap"; } };
template<> struct pick<ArrD> { static ArrD get(const Any & a) { return a.ad; } };
template<> struct pick<ArrS> { static ArrS get(const Any & a) { return a.as; } };
template<> struct pick<Siz> { static Siz get(const Any & a) { return a.n; } };
// model values: a function is its coefficients, or nothing for a Lua value that cannot be called
template<class T> struct model { using type = T; };
template<> struct model<Fn> { using type = std::optional<Coef>; };
template<class T> using model_t = typename model<T>::type;
template<class T>
model_t<T> hard(const Any & a) {
  if constexpr(std::is_same_v<T, Fn>)
    return a.f;
  else
    return pick<T>::get(a);
}
template<class T>
T cpp(const model_t<T> & m) {
  if constexpr(std::is_same_v<T, Fn>) {
    Coef c = *m;
    return [c](ArrD const & x, double const & t) { return c(x, t); };
  }
  else
    return m;
}
// what a Lua value is as T; outer: convertible
template<class T>
std::optional<model_t<T>> from_lua(const LV & v) {
  if constexpr(std::is_same_v<T, Fn>)
    return v.fn ? std::optional<Coef>(v.f) : std::optional<Coef>();
  else {
    if(v.fn)
      return {};
    return lm::conv<T>::get(v.v);
  }
}
template<class T>
void check_same(const T & got, const model_t<T> & want, const std::string & what) {
  if constexpr(std::is_same_v<T, Fn>) {
    for(ArrD x : {ArrD{0, 0}, ArrD{1.5, -2}}) {
      if(!want) {
        VP_THROWS(std::exception, got(x, 0.25), what << " (a Lua value that is no function) was called");
        continue;
      }
      Ret g = got(x, 0.25), w = (*want)(x, 0.25);
      VP_ASSERT(g == w, what << " is not the function expected: at (" << x[0] << "," << x[1] << ",0.25) it gives "
                             << std::get<0>(g) << ", expected " << std::get<0>(w));
    }
  }
  else
    VP_ASSERT(lm::same<T>(got, want), what << " is " << vp::str(got) << ", expected " << vp::str(want));
}
template<class F>
void by_type(int t, F && f) {
  switch(t) {
  case 0: f(Dbl()); break;
  case 1: f(Str()); break;
  case 2: f(ArrD()); break;
  case 3: f(ArrS()); break;
  case 4: f(Siz()); break;
  default: f(Fn()); break;
  }
}
inline const char * type_name(int t) {
  static const char * n[] = {"double", "string", "array<double>", "array<size_t>", "size_t", "function"};
  return n[t];
}
constexpr int ntypes = 6;

// where the built-in keys of a lua_source_t live
struct Place {
  const char *key, *table, *lua;
};
inline const std::vector<Place> & places() {
  static const std::vector<Place> p{{"prefix", "hydro", "prefix"}, {"suffix", "hydro", "postfix"},
    {"output_freq", "hydro", "output_freq"}, {"CFL", "hydro", "CFL"}, {"final_time", "hydro", "final_time"},
    {"max_steps", "hydro", "max_steps"}, {"ics_func", "hydro", "ics"}, {"mesh_type", "mesh", "type"},
    {"dimensions", "mesh", "dimensions"}, {"xmin", "mesh", "xmin"}, {"xmax", "mesh", "xmax"}, {"file", "mesh", "file"}};
  return p;
}
// a Lua input file: hydro and hydro.mesh, each with some keys and some decoys
struct File {
  std::map<std::string, LV> hydro, mesh;
  std::string source() const {
    std::string r = "hydro = {";
    for(auto & kv : hydro)
      r += "[" + Value::quote(kv.first) + "]=" + kv.second.source() + ",";
    r += "mesh={";
    for(auto & kv : mesh)
      r += "[" + Value::quote(kv.first) + "]=" + kv.second.source() + ",";
    return r + "}}\n";
  }
  const LV * at(const std::string & table, const std::string & key) const {
    auto & m = table == "hydro" ? hydro : mesh;
    auto it = m.find(key);
    return it == m.end() || it->second.nil() ? nullptr : &it->second;
  }
};
inline File draw_file() {
  File f;
  for(auto & p : places())
    if(*vp::range(0, 2))
      (p.table == std::string("hydro") ? f.hydro : f.mesh)[p.lua] = draw_lv();
  // decoys: the C++ name of an aliased key, a key in the other table
  for(auto k : {"suffix", "ics_func", "xmin", "dimensions", "alpha"})
    if(*vp::range(0, 2) == 0)
      f.hydro[k] = draw_lv();
  for(auto k : {"mesh_type", "CFL", "prefix", "b", "alpha"})
    if(*vp::range(0, 2) == 0)
      f.mesh[k] = draw_lv();
  return f;
}
} // namespace in

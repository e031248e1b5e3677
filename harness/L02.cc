// L02: calling Lua functions from C++; errors; histories of both.
#include "lua_model.h"
#include <cstdio>
#include <sys/mman.h>
#include <unistd.h>
#include <variant>
using lm::Value;

namespace {
using Arg = std::variant<int, std::size_t, long long, float, double, bool, std::string, std::array<double, 2>,
  ristra::math::vector<double, 3>>;
// what Lua receives for it
void spread(const Arg & a, std::vector<Value> & out) {
  std::visit(
    [&](auto & x) {
      using T = std::decay_t<decltype(x)>;
      Value v;
      if constexpr(std::is_same_v<T, bool>) {
        v.t = lm::BOOL;
        v.b = x;
      }
      else if constexpr(std::is_integral_v<T>) {
        v.t = lm::INT;
        v.i = (long long)x;
      }
      else if constexpr(std::is_floating_point_v<T>) {
        v.t = lm::FLT;
        v.d = x;
      }
      else if constexpr(std::is_same_v<T, std::string>) {
        v.t = lm::STR;
        v.s = x;
      }
      else {
        v.t = lm::FLT;
        for(double d : x) {
          v.d = d;
          out.push_back(v);
        }
        return;
      }
      out.push_back(v);
    },
    a);
}
std::string show(const Arg & a) {
  std::vector<Value> v;
  spread(a, v);
  std::string r = std::to_string(a.index()) + ":";
  for(auto & x : v)
    r += x.source() + " ";
  return r;
}
Arg draw_arg() {
  switch(*vp::range(0, 8)) {
  case 0: return *vp::full<int>();
  case 1: return std::size_t(*vp::full<long long>() & 0x7fffffffffffffffll);
  case 2: return *vp::full<long long>();
  case 3: return float(*vp::dyadic(1000, 16));
  case 4: return *lm::reals();
  case 5: return *vp::coin();
  case 6: return *lm::bytes();
  case 7: return std::array<double, 2>{*vp::dyadic(99, 4), *vp::dyadic(99, 4)};
  default:
    return ristra::math::vector<double, 3>{*vp::dyadic(99, 4), *vp::dyadic(99, 4), *vp::dyadic(99, 4)};
  }
}
em::lua_result_t call(const em::lua_result_t & f, const std::vector<Arg> & args, bool cstr) {
  if(args.empty())
    return f();
  if(args.size() == 1)
    return std::visit(
      [&](auto & a) {
        if constexpr(std::is_same_v<std::decay_t<decltype(a)>, std::string>)
          if(cstr && a.find('\0') == std::string::npos)
            return f(a.c_str());
        return f(a);
      },
      args[0]);
  if(args.size() == 2)
    return std::visit([&](auto & a, auto & b) { return f(a, b); }, args[0], args[1]);
  // longer lists: a fixed middle, generated ends
  return std::visit([&](auto & a, auto & b) { return f(a, 17, "mid", 2.5, b); }, args[0], args[1]);
}
std::vector<Value> received(const std::vector<Arg> & args) {
  std::vector<Value> r;
  if(args.size() < 3) {
    for(auto & a : args)
      spread(a, r);
    return r;
  }
  spread(args[0], r);
  Value v;
  v.t = lm::INT;
  v.i = 17;
  r.push_back(v);
  v.t = lm::STR;
  v.s = "mid";
  r.push_back(v);
  v.t = lm::FLT;
  v.d = 2.5;
  r.push_back(v);
  spread(args[1], r);
  return r;
}
void natural(const em::lua_result_t & r, const Value & v, const std::string & what) {
  switch(v.t) {
  case lm::BOOL: lm::expect<bool>(r, v, what.c_str()); break;
  case lm::INT: // integers and reals read differently as text
    lm::expect<long long>(r, v, what.c_str());
    lm::expect<std::string>(r, v, what.c_str());
    break;
  case lm::FLT:
    lm::expect<double>(r, v, what.c_str());
    lm::expect<std::string>(r, v, what.c_str());
    break;
  default: lm::expect<std::string>(r, v, what.c_str()); break;
  }
}
// several results, each of one of four types, as a tuple
template<class... T>
void tuple_check(const em::lua_result_t & r, const std::vector<Value> & vs) {
  std::optional<std::tuple<T...>> got, want, again;
  std::size_t i = 0;
  std::tuple<std::optional<T>...> parts{lm::conv<T>::get(vs[i++])...};
  bool all = std::apply([](auto &... p) { return (p.has_value() && ...); }, parts);
  if(all)
    want = std::apply([](auto &... p) { return std::tuple<T...>(*p...); }, parts);
  try {
    got = r.template as<T...>();
  }
  catch(const std::runtime_error &) {
  }
  try {
    again = r.template as<std::tuple<T...>>();
  }
  catch(const std::runtime_error &) {
  }
  std::string src;
  for(auto & v : vs)
    src += v.source() + " ";
  VP_ASSERT(got.has_value() == all && again.has_value() == all, "results " << src << "as a tuple: converted " << got.has_value());
  if(all)
    VP_ASSERT(*got == *want && *again == *want, "results " << src << "as a tuple differ");
  // one more or one fewer is refused
  bool refused = false;
  try {
    r.template as<T..., int>();
  }
  catch(const std::runtime_error &) {
    refused = true;
  }
  VP_ASSERT(refused, "more values were read than the function returned");
  if constexpr(sizeof...(T) > 1) {
    refused = false;
    try {
      r.template as<int>();
    }
    catch(const std::runtime_error &) {
      refused = true;
    }
    VP_ASSERT(refused, "several results were read as one value");
  }
}
template<class... T>
void tuple_kinds(const em::lua_result_t & r, const std::vector<Value> & vs, const std::vector<int> & kinds, std::size_t i) {
  if(i == vs.size()) {
    if constexpr(sizeof...(T) >= 2)
      tuple_check<T...>(r, vs);
    return;
  }
  if constexpr(sizeof...(T) < 3)
    switch(kinds[i]) {
    case 0: return tuple_kinds<T..., int>(r, vs, kinds, i + 1);
    case 1: return tuple_kinds<T..., double>(r, vs, kinds, i + 1);
    case 2: return tuple_kinds<T..., std::string>(r, vs, kinds, i + 1);
    default: return tuple_kinds<T..., std::array<double, 2>>(r, vs, kinds, i + 1);
    }
}
Value draw_kind(int k) {
  Value v;
  switch(k) {
  case 0: return lm::draw(0, lm::INT);
  case 1: return lm::draw(0, lm::FLT);
  case 2: return lm::draw(0, lm::STR);
  default: {
    v.t = lm::TABLE;
    int n = *vp::range(0, 7) ? 2 : *vp::range(0, 3);
    for(int i = 0; i < n; ++i)
      v.seq.push_back(lm::draw(0, lm::FLT));
    return v;
  }
  }
}

enum Op { PACK, RESULTS, COUNT, FAIL, SCRIPT, BAD_SCRIPT, FILE_OK, FILE_BAD, WRAP, KEEP, SUM, BAD_VALUE, MANY, N_OPS };
const char * op_name[] = {"pack", "results", "count", "fail", "script", "bad script", "file", "bad file", "wrap", "keep",
  "sum", "bad value", "many"};
struct Step {
  Op op;
  int which = 0; // interpreter
  std::vector<Arg> args;
  std::vector<Value> vals;
  std::vector<int> kinds;
  int n = 0;
  bool flag = false;
};
const char * prelude = R"(
counter = 0
function count() counter = counter + 1; return counter end
function pack(...) return {n = select('#', ...), ...} end
function sum(a, b, c) return a + b * 2 + (c or 0) * 4 end
function echo(...) return ... end
function results() return table.unpack(vals, 1, nvals) end
fails = {
  function(...) error("generated", 2) end,
  function(...) error({code = 1}) end,
  function(...) local x = nil; return x.y end,
  function(...) local function f(n) return 1 + f(n + 1) end; return f(0) end,
  function(...) return end,
  function(...) return nil end,
  function(...) return 1, nil end,
  function(...) return ("x"):rep(-1) .. {} end,
  function(...) error() end,
  12, "text", {}, true, nil,
}
nfails = 14
)";
struct Interp {
  std::unique_ptr<em::lua_t> lua;
  long long counter = 0;
  std::map<std::string, long long> globals;
  std::vector<std::pair<em::lua_result_t, Value>> kept;
  std::vector<std::function<double(double, double)>> funcs;
};
void must_throw(const std::function<void()> & f, const std::string & what) {
  bool threw = false;
  try {
    f();
  }
  catch(const std::runtime_error &) {
    threw = true;
  }
  VP_ASSERT(threw, what << " did not report an error");
}
// more arguments and results than Lua's stack has room for at first
template<std::size_t... I>
auto as_tuple(const em::lua_result_t & r, std::index_sequence<I...>) {
  return r.as<std::tuple<decltype(I, 0.)...>>();
}
template<std::size_t N>
void many(em::lua_t & L, int n) {
  std::array<double, N> a;
  ristra::math::array<double, N + 7> b;
  for(std::size_t i = 0; i < N; ++i)
    a[i] = n + i / 4.;
  for(std::size_t i = 0; i < N + 7; ++i)
    b[i] = n - double(i);
  auto r = L["pack"](a, "mid", b, n);
  VP_EQ(r["n"].template as<std::size_t>(), 2 * N + 9, "number of arguments");
  for(std::size_t i = 0; i < N; ++i)
    VP_EQ(r[int(i + 1)].template as<double>(), a[i], "element " << i << " of the first array");
  VP_EQ(r[int(N + 1)].template as<std::string>(), std::string("mid"), "argument between arrays");
  for(std::size_t i = 0; i < N + 7; ++i)
    VP_EQ(r[int(N + 2 + i)].template as<double>(), b[i], "element " << i << " of the second array");
  VP_EQ(r[int(2 * N + 9)].template as<int>(), n, "last argument");
  auto back = L["echo"](a);
  VP_EQ(back.size(), N, "number of results");
  for(int i = 0; i < 3; ++i) // the stack shrinks again
    L.run_string("collectgarbage()");
  auto t = as_tuple(back, std::make_index_sequence<N>());
  std::array<double, N> got = std::apply([](auto... x) { return std::array<double, N>{x...}; }, t);
  VP_ASSERT(got == a, N << " results as a tuple");
}
std::string temp_file(const std::string & text) {
  std::string name = vp::scratch() + "/lua_XXXXXX";
  int fd = mkstemp(name.data());
  if(fd < 0)
    throw std::runtime_error("mkstemp");
  if(write(fd, text.data(), text.size()) != (ssize_t)text.size()) {
  }
  close(fd);
  return name;
}
void step(Interp & I, const Step & st) {
  em::lua_t & L = *I.lua;
  switch(st.op) {
  case PACK: {
    auto want = received(st.args);
    auto r = call(L["pack"], st.args, st.flag);
    lm::expect<int>(r["n"], [&] {
      Value v;
      v.t = lm::INT;
      v.i = want.size();
      return v;
    }(), "number of arguments");
    for(std::size_t i = 0; i < want.size(); ++i)
      natural(r[int(i + 1)], want[i], "argument " + std::to_string(i + 1));
    VP_ASSERT(r[int(want.size() + 1)].empty(), "one argument too many");
    break;
  }
  case RESULTS: {
    std::string s = "nvals = " + std::to_string(st.vals.size()) + "; vals = {";
    for(auto & v : st.vals)
      s += v.source() + ",";
    L.run_string(s + "}");
    auto r = L["results"]();
    VP_EQ(r.size(), st.vals.size(), "number of results");
    VP_EQ(r.empty(), false, "empty");
    if(st.vals.size() == 1)
      natural(r, st.vals[0], "the only result");
    else
      tuple_kinds<>(r, st.vals, st.kinds, 0);
    break;
  }
  case COUNT:
    VP_EQ(L["count"]().as<long long>(), I.counter + 1, "calls of count()");
    ++I.counter;
    break;
  case SUM: {
    double a = st.n / 4., b = st.n % 7;
    VP_EQ(L["sum"](a, b).as<double>(), a + 2 * b, "sum");
    VP_EQ(L["sum"](st.n, 3, 1.5).as<double>(), st.n + 6 + 6., "sum");
    VP_EQ(L["sum"](st.n, 3).as<int>(), st.n + 6, "sum");
    break;
  }
  case FAIL: {
    auto f = L["fails"][1 + st.n % 14];
    must_throw([&] { call(f, st.args, st.flag); }, "failing call " + std::to_string(1 + st.n % 14));
    must_throw([&] { L["no_such_function"](); }, "a call of nothing");
    break;
  }
  case SCRIPT: {
    std::string g = "x" + std::to_string(st.n % 4);
    std::string s = g + " = (" + g + " or 0) + " + std::to_string(st.n);
    L.run_string((st.flag ? s : "local t = 1; " + s + "; counter = counter + t") + (st.n % 3 ? "" : "; return 1, {}, 'x'"));
    I.globals[g] += st.n;
    I.counter += !st.flag;
    break;
  }
  case BAD_SCRIPT:
    if(st.flag)
      must_throw([&] { L.run_string("x0 = = 1"); }, "a script with a syntax error");
    else { // what ran before the error stays
      std::string g = "x" + std::to_string(st.n % 4);
      must_throw([&] { L.run_string(g + " = " + std::to_string(st.n) + "; error('stop'); " + g + " = -1"); },
        "a script that stops");
      I.globals[g] = st.n;
    }
    break;
  case FILE_OK: {
    std::string g = "x" + std::to_string(st.n % 4);
    auto f = temp_file("# first line\n" + g + " = " + std::to_string(st.n) + "\n-- end" + (st.flag ? st.n % 2 ? "\nreturn {1, 2}" : "\nreturn {1, 2}, 'x', nil, 3" : ""));
    try {
      L.loadfile(f);
    }
    catch(...) {
      unlink(f.c_str());
      throw;
    }
    unlink(f.c_str());
    I.globals[g] = st.n;
    break;
  }
  case FILE_BAD: {
    must_throw([&] { L.loadfile(vp::scratch() + "/no_such_file"); }, "loading a file that is not there");
    auto f = temp_file("x1 = (");
    must_throw([&] { L.loadfile(f); }, "loading a file with a syntax error");
    unlink(f.c_str());
    break;
  }
  case WRAP: { // functions that outlive the result they were made from
    using F = std::function<double(double, double)>;
    if(st.flag) {
      auto r = std::make_unique<em::lua_result_t>(L["sum"]);
      em::Lua_Func_Wrapper<F> w(*r);
      I.funcs.push_back(F(w));
      VP_EQ(w(1., 2.), 5., "wrapped function");
      r.reset();
    }
    else {
      em::Lua_Func_Wrapper<F> w(std::make_unique<em::lua_result_t>(L["sum"]));
      auto copy = w;
      I.funcs.push_back(F(copy));
    }
    break;
  }
  case MANY:
    switch(st.n % 4) {
    case 0: many<18>(L, st.n); break;
    case 1: many<25>(L, st.n); break;
    case 2: many<41>(L, st.n); break;
    default: many<90>(L, st.n); break;
    }
    break;
  case KEEP:
    L.run_string("keep = " + st.vals[0].source());
    I.kept.emplace_back(L["keep"], st.vals[0]);
    break;
  default:
    L.run_string("bad = {1, {2}, 'three'}");
    must_throw([&] { L["bad"].as<std::vector<int>>(); }, "a mixed table as a vector");
    must_throw([&] { L["bad"].as<double>(); }, "a table as a number");
    must_throw([&] { L["bad"][1]["x"]; }, "a lookup in a number");
    must_throw([&] { L["bad"]["nothing"][1]; }, "a lookup in nothing");
    break;
  }
  for(auto & kv : I.globals)
    VP_EQ(L[kv.first].as<long long>(), kv.second, "global " << kv.first);
  VP_EQ(L["counter"].as<long long>(), I.counter, "counter");
  VP_EQ(lua_gettop(L.state()), 0, "values left on the stack after " << op_name[st.op]);
}
void finish(Interp & I, bool early) {
  if(early)
    I.lua.reset();
  for(auto & kv : I.kept)
    natural(kv.first, kv.second, "kept value");
  for(auto & f : I.funcs) {
    auto g = f;
    VP_EQ(g(3., 4.5), 12., "wrapped function called later");
  }
}
} // namespace

VP_PROP(history, 150) {
  int n = *vp::range(1, 8);
  std::vector<Step> steps;
  std::string t;
  int distinct = 0;
  bool seen[N_OPS] = {};
  for(int i = 0; i < n; ++i) {
    Step s;
    s.op = Op(*vp::range<int>(0, N_OPS - 1));
    s.which = *vp::range(0, 1);
    s.n = *vp::range(0, 60);
    s.flag = *vp::coin();
    if(s.op == PACK || s.op == FAIL)
      for(int k = *vp::range(0, 3); k > 0; --k)
        s.args.push_back(draw_arg());
    if(s.op == RESULTS) {
      int m = *vp::range(1, 3);
      for(int k = 0; k < m; ++k) {
        int kind = *vp::range(0, m == 1 ? 2 : 3);
        s.kinds.push_back(*vp::range(0, 9) ? kind : *vp::range(0, 2));
        s.vals.push_back(draw_kind(kind));
      }
    }
    if(s.op == KEEP)
      s.vals.push_back(lm::draw(0));
    distinct += !seen[s.op];
    seen[s.op] = true;
    t += std::string(i ? "; " : "") + op_name[s.op] + (s.which ? "@2 " : " ") + std::to_string(s.n) +
         (s.flag ? " f" : "");
    for(auto & a : s.args)
      t += " " + show(a);
    for(auto & v : s.vals)
      t += " " + v.source();
    vp::tag(op_name[s.op]);
    steps.push_back(s);
  }
  bool early = *vp::coin();
  VP_CASE(distinct >= 3, t << (early ? " early" : ""));
  vp::run([&] {
    lm::Quiet q;
    Interp I[2];
    for(auto & i : I) {
      i.lua = std::make_unique<em::lua_t>();
      i.lua->run_string(prelude);
    }
    for(auto & s : steps)
      step(I[s.which], s);
    finish(I[0], early);
    finish(I[1], !early);
  });
}

// ---- more arguments and results than Lua sets aside room for
namespace {
template<std::size_t... I>
auto call_many(const em::lua_result_t & f, const std::vector<long long> & v, std::index_sequence<I...>) {
  return f(v[I]...);
}
template<std::size_t>
using ll = long long;
template<std::size_t... I>
std::vector<long long> read_many(const em::lua_result_t & r, std::index_sequence<I...>) {
  auto t = r.as<ll<I>...>();
  return {std::get<I>(t)...};
}
// An allocator for Lua that ends every block of some size at a page nobody may touch: what is pushed beyond the room
// on the stack is noticed there.
std::map<void *, std::pair<char *, std::size_t>> fenced;
void * fence(void *, void * p, std::size_t old, std::size_t size) {
  auto it = p ? fenced.find(p) : fenced.end();
  if(it == fenced.end() && size < 256) { // a small block, or one that was there before
    if(size == 0) {
      free(p);
      return nullptr;
    }
    return realloc(p, size);
  }
  char * q = nullptr;
  if(size) {
    const std::size_t page = 4096, used = (size + 15) / 16 * 16, whole = (used + page - 1) / page * page;
    auto base = (char *)mmap(nullptr, whole + page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if(base == MAP_FAILED)
      return nullptr;
    mprotect(base + whole, page, PROT_NONE);
    q = base + whole - used;
    if(p)
      memcpy(q, p, std::min(old, size));
    fenced[q] = {base, whole + page};
  }
  if(it != fenced.end()) {
    munmap(it->second.first, it->second.second);
    fenced.erase(it);
  }
  else
    free(p);
  return q;
}
template<std::size_t N>
void many(vp::Lcg & g, bool fresh) {
  em::lua_t lua(!fresh);
  lua.run_string("function f(...) return ... end\n"
                 "function r(...) local t = {...} local u = {} for i = 1, #t do u[i] = t[#t + 1 - i] end\n"
                 "  n = #t return (table and table.unpack or function() return u[1] end)(u) end");
  lua_setallocf(lua.state(), fence, nullptr);
  std::vector<long long> v(N);
  for(auto & x : v)
    x = g.next();
  auto seq = std::make_index_sequence<N>();
  auto f = lua["f"];
  for(int k = 0; k < 3; ++k) {
    auto res = call_many(f, v, seq);
    VP_EQ(res.size(), N, "number of results");
    for(int i = 0; i < 8; ++i) // gives back the room on the stack
      lua_gc(lua.state(), LUA_GCCOLLECT, 0);
    VP_EQ(read_many(res, seq), v, "results of a function of many arguments");
    VP_EQ(lua_gettop(lua.state()), 0, "values left on the stack");
  }
  if(!fresh) {
    auto back = v;
    std::reverse(back.begin(), back.end());
    VP_EQ(read_many(call_many(lua["r"], v, seq), seq), back, "results in reverse");
    VP_EQ(lua["n"].as<std::size_t>(), N, "arguments received");
  }
}
} // namespace
VP_PROP(wide, 12) {
  auto which = *vp::range(0, 4);
  bool fresh = *vp::coin();
  auto seed = *vp::range(0, 1 << 30);
  VP_CASE(which > 0, "which=" << which << " fresh=" << fresh << " seed=" << seed);
  vp::run([&] {
    lm::Quiet q;
    vp::Lcg g(seed);
    switch(which) {
    case 0: return many<5>(g, fresh);
    case 1: return many<21>(g, fresh);
    case 2: return many<48>(g, fresh);
    case 3: return many<100>(g, fresh);
    default: return many<180>(g, fresh);
    }
  });
}

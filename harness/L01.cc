// L01: reading Lua values from C++.
#include "lua_model.h"
using lm::Value;

namespace {
struct Step {
  bool named;
  std::string key;
  int index;
};
Value biased_container() { // shaped like the fixed-size targets
  Value v;
  v.t = lm::TABLE;
  int n = *vp::range(1, 3), kind = *vp::of<int>({lm::INT, lm::FLT, lm::STR, lm::NUMSTR, lm::BOOL});
  bool nested = *vp::coin();
  int m = *vp::range(1, 3);
  for(int i = 0; i < n; ++i) {
    Value e;
    if(nested) {
      e.t = lm::TABLE;
      int mm = *vp::range(0, 7) ? m : *vp::range(0, 3);
      for(int j = 0; j < mm; ++j) {
        Value x = lm::draw(0, *vp::range(0, 11) ? kind : -1);
        if(x.t == lm::NIL)
          x.t = lm::BOOL;
        e.seq.push_back(x);
      }
      if(*vp::range(0, 11) == 0)
        e = lm::draw(0, kind);
    }
    else
      e = lm::draw(0, *vp::range(0, 11) ? kind : -1);
    if(e.t == lm::NIL)
      e.t = lm::BOOL;
    v.seq.push_back(e);
  }
  return v;
}
void all(const em::lua_result_t & r, const Value & v) {
#define M(...) lm::expect<__VA_ARGS__>(r, v, #__VA_ARGS__);
  LM_TYPES(M)
  using namespace lm;
  LM_TYPES2(M)
#undef M
}
void check_values(const std::vector<Value> & roots, const std::vector<std::vector<Step>> & paths, bool early) {
  lm::Quiet q;
  auto lua = std::make_unique<em::lua_t>();
  lua_State * s = lua->state();
  std::string script;
  for(std::size_t i = 0; i < roots.size(); ++i)
    script += "g" + std::to_string(i) + " = " + roots[i].source() + "\n";
  VP_EQ((*lua)(script), false, "running the script");
  std::vector<std::pair<em::lua_result_t, Value>> kept;
  for(std::size_t p = 0; p < paths.size(); ++p) {
    std::size_t g = p % (roots.size() + 1);
    Value v = g < roots.size() ? roots[g] : Value();
    std::string name = "g" + std::to_string(g);
    auto r = std::make_unique<em::lua_result_t>((*lua)[name]);
    VP_EQ(r->name(), name, "name");
    bool refused = false;
    for(auto & st : paths[p]) {
      VP_EQ(r->empty(), v.t == lm::NIL, name << " = " << v.source() << " empty");
      VP_EQ(r->size(), v.len(), name << " = " << v.source() << " size");
      name += st.named ? "." + vp::str(st.key) : "[" + std::to_string(st.index) + "]";
      try {
        r = std::make_unique<em::lua_result_t>(st.named ? (*r)[st.key] : (*r)[st.index]);
      }
      catch(const std::runtime_error &) {
        refused = true;
      }
      VP_EQ(refused, v.t != lm::TABLE, name << " of " << v.source() << ": refused");
      VP_EQ(lua_gettop(s), 0, name << ": values left on the stack by a lookup");
      if(refused)
        break;
      v = st.named ? v.at(st.key) : v.at(st.index);
    }
    if(refused)
      continue;
    VP_EQ(r->empty(), v.t == lm::NIL, name << " = " << v.source() << " empty");
    VP_EQ(r->size(), v.len(), name << " = " << v.source() << " size");
    all(*r, v);
    VP_EQ(lua_gettop(s), 0, name << ": values left on the stack by conversions");
    if(paths[p].size() == 1 && paths[p][0].named && g < roots.size()) {
      // the macros: as above, or an error when there is nothing
      auto top = (*lua)["g" + std::to_string(g)];
      std::optional<double> got;
      bool exists = false, threw = false;
      try {
        auto x = lua_try_access(top, paths[p][0].key);
        exists = !x.empty();
      }
      catch(const std::runtime_error &) {
        threw = true;
      }
      VP_ASSERT(exists == (v.t != lm::NIL) && threw == !exists, "lua_try_access of " << name);
      try {
        got = lua_try_access_as(top, paths[p][0].key, double);
      }
      catch(const std::runtime_error &) {
      }
      auto want = lm::conv<double>::get(v);
      VP_ASSERT(got.has_value() == want.has_value() && (!got || lm::same(*got, *want)), "lua_try_access_as of " << name);
    }
    kept.emplace_back(*r, v);
  }
  // results keep their values: the globals change, the garbage collector runs,
  // and (early) the interpreter object goes away first
  std::string wipe;
  for(std::size_t i = 0; i < roots.size(); ++i)
    wipe += "g" + std::to_string(i) + " = nil\n";
  lua->run_string(wipe + "collectgarbage()");
  if(early)
    lua.reset();
  for(auto & kv : kept) {
    VP_EQ(kv.first.empty(), kv.second.t == lm::NIL, "kept result empty");
    all(kv.first, kv.second);
  }
  while(!kept.empty()) {
    auto last = kept.back();
    kept.erase(kept.begin());
    if(early && kept.empty()) {
      em::lua_t again = last.first.get_top();
      again.run_string("after = 5");
      VP_EQ(last.first.get_top()["after"].as<int>(), 5, "state reached through a result");
    }
  }
}
} // namespace

VP_PROP(values, 150) {
  int n = *vp::range(1, 3);
  std::vector<Value> roots;
  for(int i = 0; i < n; ++i)
    roots.push_back(*vp::coin() ? biased_container() : lm::draw(3));
  auto step = [](int named, std::string key, int index) { return Step{named != 0, key, index}; };
  auto paths = *rc::gen::resize(8,
    rc::gen::container<std::vector<std::vector<Step>>>(rc::gen::resize(3,
      rc::gen::container<std::vector<Step>>(
        rc::gen::apply(step, vp::range(0, 1), lm::keys(), vp::range(-2, 4))))));
  bool early = *vp::coin();
  std::string t;
  bool table = false;
  for(auto & v : roots) {
    t += v.source() + " ";
    table |= v.t == lm::TABLE && v.len() > 0;
    vp::tag("root_" + std::to_string(v.t));
  }
  for(auto & p : paths) {
    t += " /";
    for(auto & s : p)
      t += s.named ? "." + vp::str(s.key) : "[" + std::to_string(s.index) + "]";
  }
  VP_CASE(table, t << (early ? " early" : ""));
  vp::run([&] {
    paths.insert(paths.begin(), roots.size(), {});
    check_values(roots, paths, early);
  });
}

// ---- long sequences, strings and paths, many results at a time
VP_PROP(large, 25) {
  int n = *vp::large(40000);
  int depth = *vp::range(5, 150);
  int many = *vp::range(50, 600);
  auto seed = *vp::range(0, 1 << 30);
  VP_CASE(true, "n=" << n << " depth=" << depth << " many=" << many << " seed=" << seed);
  vp::run([&] {
    lm::Quiet q;
    vp::Lcg g(seed);
    em::lua_t lua;
    lua_State * s = lua.state();
    std::string key(std::size_t(n), 'k');
    for(auto & c : key)
      c = char('a' + g.upto(26));
    std::ostringstream src;
    src << "t = {} r = {} w = {} for i = 1, " << n << " do t[i] = (i * 7919) % 1000 - 500; r[i] = t[i] / 8; w[i] = 's' .. i end\n";
    src << "str = string.rep('ab\\0c', " << n << ")\n";
    src << "k = {" << key << " = 17, other = 4}\n";
    src << "m = {} for i = 1, 300 do m[i] = {i, -i, i * 2} end\n";
    src << "deep = 'bottom' for i = 1, " << depth << " do deep = i % 2 == 0 and {deep} or {down = deep} end\n";
    src << "outer = {} for i = 1, " << many << " do outer[i] = {v = i, ['n' .. i] = -i} end\n";
    src << "weak = setmetatable({}, {__mode = 'v'}) for i, r in ipairs(outer) do weak[i] = r end\n";
    VP_EQ(lua(src.str()), false, "running the script");
    auto want = [](int i) { return (i * 7919LL) % 1000 - 500; };
    auto t = lua["t"], r = lua["r"];
    VP_EQ(t.size(), std::size_t(n), "size of a long sequence");
    auto vi = t.as<std::vector<int>>();
    auto vd = r.as<std::vector<double>>();
    auto vl = t.as<std::vector<long long>>();
    auto vs = lua["w"].as<std::vector<std::string>>();
    VP_EQ(vi.size(), std::size_t(n), "long vector<int>");
    VP_EQ(vd.size(), std::size_t(n), "long vector<double>");
    VP_EQ(vl.size(), std::size_t(n), "long vector<long long>");
    VP_EQ(vs.size(), std::size_t(n), "long vector<string>");
    for(int i = 1; i <= n; ++i) {
      VP_EQ((long long)vi[i - 1], want(i), "vector<int> element " << i);
      VP_EQ(vl[i - 1], want(i), "vector<long long> element " << i);
      VP_EQ(vd[i - 1], want(i) / 8., "vector<double> element " << i);
      VP_EQ(vs[i - 1], "s" + std::to_string(i), "vector<string> element " << i);
    }
    for(int k = 0; k < 20; ++k) {
      int i = k == 0 ? n : 1 + g.upto(n);
      VP_EQ((long long)t[i].as<int>(), want(i), "element " << i);
    }
    VP_ASSERT(t[n + 1].empty(), "element past the end");
    VP_EQ(lua_gettop(s), 0, "values left on the stack");
    std::string ls;
    for(int i = 0; i < n; ++i)
      ls += std::string("ab\0c", 4);
    VP_EQ(lua["str"].size(), ls.size(), "size of a long string");
    VP_ASSERT(lua["str"].as<std::string>() == ls, "long string");
    VP_EQ(lua["k"][key].as<int>(), 17, "long key");
    VP_ASSERT(lua["k"][key + "x"].empty(), "longer key");
    VP_ASSERT(lua["k"][key.substr(1)].empty(), "shorter key");
    auto mm = lua["m"].as<std::vector<std::vector<int>>>();
    VP_EQ(mm.size(), std::size_t(300), "long matrix");
    for(int i = 1; i <= 300; ++i)
      VP_EQ(mm[i - 1], (std::vector<int>{i, -i, i * 2}), "matrix row " << i);
    // down a deep path
    auto d = std::make_unique<em::lua_result_t>(lua["deep"]);
    for(int i = depth; i >= 1; --i)
      d = std::make_unique<em::lua_result_t>(i % 2 == 0 ? (*d)[1] : (*d)["down"]);
    VP_EQ(d->as<std::string>(), std::string("bottom"), "end of a deep path");
    VP_EQ(lua_gettop(s), 0, "values left on the stack by a deep path");
    // many results alive at once
    std::vector<em::lua_result_t> rows, vals, names;
    {
    auto outer = lua["outer"];
    for(int i = 1; i <= many; ++i) {
      rows.push_back(outer[i]);
      vals.push_back(rows.back()["v"]);
      names.push_back(rows.back()["n" + std::to_string(i)]);
    }
    }
    lua.run_string("outer = nil collectgarbage()");
    for(int i = 1; i <= many; ++i) {
      VP_ASSERT(!vals[i - 1].empty() && !rows[i - 1].empty(), "kept value " << i << " is there");
      VP_EQ(vals[i - 1].as<int>(), i, "kept value " << i);
      VP_EQ(vals[i - 1].as<int>(-77), i, "kept value " << i << " before a default");
      VP_EQ(names[i - 1].as<int>(), -i, "kept named value " << i);
      VP_EQ(rows[i - 1]["v"].as<int>(), i, "value through a kept row " << i);
    }
    rows.clear();
    vals.clear();
    names.clear();
    lua.run_string("collectgarbage() collectgarbage() left = 0 for _ in pairs(weak) do left = left + 1 end");
    VP_EQ(lua["left"].as<int>(), 0, "rows still alive after the last result was dropped");
    VP_EQ(lua_gettop(s), 0, "values left on the stack in the end");
  });
}

// ---- a result keeps its value alive as long as it lives, and no longer
VP_PROP(lifetime, 150) {
  auto op = [](int what, int a, int b) { return std::vector<int>{what, a, b}; };
  auto ops = *rc::gen::resize(30,
    rc::gen::container<std::vector<std::vector<int>>>(rc::gen::apply(op, vp::range(0, 9), vp::range(0, 4), vp::range(0, 5))));
  std::string t;
  int gets = 0, drops = 0;
  for(auto & o : ops) {
    t += std::to_string(o[0]) + "(" + std::to_string(o[1]) + "," + std::to_string(o[2]) + ") ";
    gets += o[0] <= 3;
    drops += o[0] >= 6;
  }
  VP_CASE(gets > 1 && drops > 1, t);
  vp::run([&] {
    lm::Quiet q;
    em::lua_t lua;
    lua_State * s = lua.state();
    lua.run_string("W = setmetatable({}, {__mode = 'v'}) G = {}\n"
                   "for i = 1, 5 do local o = i % 2 == 0 and {v = i, inner = {i}} or function() return i end; G['o' .. i] = o; W[i] = o end");
    bool held[5] = {true, true, true, true, true};
    std::vector<std::pair<em::lua_result_t, int>> rs; // a result and its object
    std::vector<std::pair<std::function<int()>, int>> fs;
    auto collect = [&](const char * when) {
      lua.run_string("collectgarbage() collectgarbage()");
      for(int i = 0; i < 5; ++i) {
        bool want = held[i];
        for(auto & r : rs)
          want |= r.second == i;
        for(auto & f : fs)
          want |= f.second == i;
        lua_getglobal(s, "W");
        lua_rawgeti(s, -1, i + 1);
        bool alive = !lua_isnil(s, -1);
        lua_pop(s, 2);
        VP_EQ(alive, want, "object " << i << " alive " << when);
      }
      VP_EQ(lua_gettop(s), 0, "values left on the stack " << when);
    };
    for(auto & o : ops) {
      int i = o[1];
      auto pick = [&]() -> std::pair<em::lua_result_t, int> & { return rs[o[2] % rs.size()]; };
      switch(o[0]) {
        case 0:
        case 1:
          if(held[i])
            rs.emplace_back(lua["G"]["o" + std::to_string(i + 1)], i);
          break;
        case 2:
          if(!rs.empty())
            rs.push_back(std::make_pair(pick().first, pick().second));
          break;
        case 3: // the result is used: nothing else is kept
          for(auto & r : rs)
            if(r.second % 2) {
              VP_EQ(r.first["v"].as<int>(), r.second + 1, "value of the object kept");
              VP_EQ(r.first["inner"].as<std::vector<int>>(), std::vector<int>{r.second + 1}, "inner value kept");
            }
            else
              VP_EQ(r.first().as<int>(), r.second + 1, "result of the function kept");
          break;
        case 4:
          if(!rs.empty() && pick().second % 2 == 0) {
            em::Lua_Func_Wrapper<std::function<int()>> w(pick().first);
            fs.emplace_back(w, pick().second);
          }
          break;
        case 5:
          for(auto & f : fs)
            VP_EQ(f.first(), f.second + 1, "result of a wrapped function");
          break;
        case 6:
          lua.run_string("G.o" + std::to_string(i + 1) + " = nil");
          held[i] = false;
          break;
        case 7:
          if(!rs.empty())
            rs.erase(rs.begin() + o[2] % rs.size());
          break;
        case 8:
          if(!fs.empty())
            fs.erase(fs.begin() + o[2] % fs.size());
          break;
        default:
          if(!rs.empty()) { // a result takes the place of another
            auto copy = rs[(o[1] + o[2]) % rs.size()];
            pick() = copy;
          }
      }
      if(o[0] >= 6)
        collect("after a step");
    }
    rs.clear();
    fs.clear();
    collect("in the end");
  });
}

// ---- sequences with holes: a missing element is no value of any type
VP_PROP(holes, 60) {
  auto elems = *rc::gen::resize(7, rc::gen::container<std::vector<int>>(vp::range(-2, 9)));
  bool grown = *vp::coin();
  std::string src = "t = {", t;
  for(int e : elems) // negative: a hole
    src += (e < 0 ? "nil" : std::to_string(e)) + ", ";
  src += "}";
  if(grown) { // in the hash part
    src = "t = {}";
    for(std::size_t i = elems.size(); i-- > 0;)
      if(elems[i] >= 0)
        src += " t[" + std::to_string(i + 1) + "] = " + std::to_string(elems[i]);
  }
  int holes = 0;
  for(int e : elems)
    holes += e < 0;
  VP_CASE(holes && holes < (int)elems.size(), src);
  vp::run([&] {
    lm::Quiet q;
    em::lua_t lua;
    lua.run_string(src);
    auto r = lua["t"];
    lua_State * s = lua.state();
    lua_getglobal(s, "t");
    auto n = lua_rawlen(s, -1); // any border is a length
    lua_pop(s, 1);
    VP_EQ(r.size(), std::size_t(n), "size of " << src);
    std::vector<int> want;
    bool whole = true;
    for(std::size_t i = 0; i < n; ++i) {
      whole &= elems[i] >= 0;
      want.push_back(elems[i]);
    }
    auto read = [&](auto sample, const char *) {
      using T = decltype(sample);
      std::optional<T> got;
      try {
        got = r.template as<T>();
      }
      catch(const std::runtime_error &) {
      }
      VP_EQ(lua_gettop(s), 0, "values left on the stack");
      return got;
    };
    auto vi = read(std::vector<int>(), "vector<int>");
    VP_EQ(vi.has_value(), whole, "reading a vector<int>");
    if(vi)
      VP_EQ(*vi, want, "vector<int>");
    VP_EQ(read(std::vector<double>(), "vector<double>").has_value(), whole, "reading a vector<double>");
    VP_EQ(read(std::vector<std::string>(), "vector<string>").has_value(), whole, "reading a vector<string>");
    VP_EQ(read(std::array<int, 3>(), "array<int,3>").has_value(), whole && n == 3, "reading an array<int,3>");
    VP_EQ(read(std::array<double, 2>(), "array<double,2>").has_value(), whole && n == 2, "reading an array<double,2>");
    for(std::size_t i = 0; i < elems.size(); ++i) {
      VP_EQ(r[int(i) + 1].empty(), elems[i] < 0, "element " << i + 1);
      if(elems[i] >= 0)
        VP_EQ(r[int(i) + 1].as<int>(), elems[i], "element " << i + 1);
    }
    VP_EQ(lua_gettop(s), 0, "values left on the stack in the end");
  });
}

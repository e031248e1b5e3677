// I01: input_engine_t resolves registered targets: Lua first, then hard-coded.
#include "I.h"
using namespace in;

namespace {
struct Op {
  int kind, type, name, n;
  Any a, b;
  File f;
};
const std::vector<std::string> names{"prefix", "suffix", "CFL", "max_steps", "ics_func", "mesh_type", "dimensions", "xmin",
  "alpha", "beta", "ns:CFL", ""};
enum { REG, REGS, HARD, LUA, NOLUA, RESOLVE, GET, INSTANT, RESOLVED, WRITE, CLEAR, OTHER, NKINDS };
const char * kind_name[] = {"register", "register several", "hard-code", "lua file", "no lua", "resolve", "get", "instant",
  "resolved?", "write", "clear", "other engine"};

template<class T>
struct Table {
  std::set<std::string> targets, failed;
  std::map<std::string, model_t<T>> data;
  std::set<std::string> vague; // a later resolution failed: the old value may or may not be left
  std::map<std::string, model_t<T>> hc;
};
struct Model {
  std::tuple<Table<Dbl>, Table<Str>, Table<ArrD>, Table<ArrS>, Table<Siz>, Table<Fn>> t;
  bool has_hc = false, resolved_once = false;
  std::optional<File> lua;
  template<class T>
  Table<T> & of() { return std::get<Table<T>>(t); }
  const LV * in_lua(const std::string & key) const {
    if(!lua)
      return nullptr;
    for(auto & p : places())
      if(key == p.key)
        return lua->at(p.table, p.lua);
    if(key == "beta")
      return lua->at("mesh", "b"); // registered below
    return nullptr;
  }
  // 0 not found, 1 found (v), 2 refused
  template<class T>
  int find(const std::string & key, std::optional<model_t<T>> & v) {
    if(auto l = in_lua(key)) {
      v = from_lua<T>(*l);
      if constexpr(std::is_same_v<T, Fn>)
        if(!v)
          v.emplace();
      return v ? 1 : 2;
    }
    auto & hc = of<T>().hc;
    if(has_hc && hc.count(key)) {
      v = hc[key];
      return 1;
    }
    return 0;
  }
  template<class T>
  void clear() {
    auto & x = of<T>();
    x.targets.clear();
    x.failed.clear();
    x.data.clear();
    x.vague.clear();
  }
};
template<class T>
void resolve_type(Model & m, bool & all, bool & refused) {
  auto & x = m.of<T>();
  x.failed.clear();
  for(auto & k : x.targets) {
    std::optional<model_t<T>> v;
    int r = m.find<T>(k, v);
    if(r == 1) {
      x.data[k] = *v;
      x.vague.erase(k);
    }
    else if(r == 2)
      refused = true;
    else {
      all = false;
      x.failed.insert(k);
      if(x.data.count(k))
        x.vague.insert(k);
    }
  }
}
template<class T>
void compare(engine & e, Model & m, const char * when) {
  auto & x = m.of<T>();
  VP_ASSERT(e.targets<T>() == x.targets, when << ": the set of targets of a type is wrong");
  for(auto & k : names) {
    if(x.vague.count(k))
      continue;
    auto it = x.data.find(k);
    if(it == x.data.end()) {
      VP_THROWS(std::exception, e.get_value<T>(k), when << ": reading " << k << ", which has no value");
      VP_ASSERT(!e.resolved<T>(k), when << ": " << k << " counts as resolved without a value");
    }
    else {
      check_same<T>(e.get_value<T>(k), it->second, std::string(when) + ": " + k);
      if(m.resolved_once)
        VP_ASSERT(e.resolved<T>(k), when << ": " << k << " does not count as resolved");
    }
  }
}
void compare_all(engine & e, Model & m, const char * when) {
  for(int t = 0; t < ntypes; ++t)
    by_type(t, [&](auto x) { compare<decltype(x)>(e, m, when); });
}
void history(const std::vector<Op> & ops, bool hc_first) {
  Hush hush;
  auto e = std::make_unique<engine>();
  e->clear_registry();
  ristra::hard_coded_source_t().clear_registry<traits::types>();
  Model m;
  auto provide_hc = [&] {
    if(!m.has_hc)
      e->register_hard_coded_source(ristra::mk_hard_coded_source().release());
    m.has_hc = true;
  };
  if(hc_first)
    provide_hc();
  std::vector<std::string> files;
  for(auto & op : ops) {
    const std::string & k = names[op.name];
    by_type(op.type, [&](auto tag) {
      using T = decltype(tag);
      auto & x = m.of<T>();
      const char * what = kind_name[op.kind];
      switch(op.kind) {
      case REG:
        e->register_target<T>(k);
        x.targets.insert(k);
        break;
      case REGS: {
        std::set<std::string> s;
        for(int i = 0; i <= op.n; ++i)
          s.insert(names[(op.name + 5 * i) % names.size()]);
        e->register_targets<T>(s);
        x.targets.insert(s.begin(), s.end());
        break;
      }
      case HARD: {
        provide_hc();
        std::map<std::string, T> add;
        for(int i = 0; i <= op.n; ++i) {
          auto & kk = names[(op.name + 7 * i) % names.size()];
          x.hc[kk] = hard<T>(i % 2 ? op.a : op.b);
          add[kk] = cpp<T>(x.hc[kk]);
        }
        e->get_hard_coded_source().set_registry<T>(add);
        T v{};
        for(auto & kk : names) {
          bool has = e->get_hard_coded_source().get_value(kk, v);
          VP_EQ(has, x.hc.count(kk) == 1, "hard-coded source holds " << kk);
          if(has)
            check_same<T>(v, x.hc[kk], "hard-coded " + kk);
        }
        break;
      }
      case LUA: {
        files.push_back(write_file(op.f.source()));
        auto s = ristra::mk_lua(files.back());
        VP_ASSERT(!s->register_value("beta", "mesh", "b"), "beta was registered already");
        e->register_lua_source(s.release());
        m.lua = op.f;
        break;
      }
      case NOLUA:
        e->register_lua_source(nullptr);
        m.lua.reset();
        break;
      case RESOLVE: {
        bool all = true, refused = false;
        for(int t = 0; t < ntypes; ++t)
          by_type(t, [&](auto y) { resolve_type<decltype(y)>(m, all, refused); });
        if(refused) {
          vp::tag("refused");
          VP_THROWS(std::exception, e->resolve_inputs(), "resolving a target whose Lua value has another type");
          e->clear_registry();
          for(int t = 0; t < ntypes; ++t)
            by_type(t, [&](auto y) { m.clear<decltype(y)>(); });
          break;
        }
        vp::tag(all ? "all resolved" : "some unresolved");
        VP_EQ(e->resolve_inputs(), all, "resolve_inputs");
        m.resolved_once = true;
        for(int t = 0; t < ntypes; ++t)
          by_type(t, [&](auto y) {
            using Y = decltype(y);
            VP_EQ(e->failed<Y>(), m.of<Y>().failed, "targets reported as failed");
          });
        break;
      }
      case INSTANT: {
        std::optional<model_t<T>> v;
        int r = m.find<T>(k, v);
        if(r == 1) {
          check_same<T>(e->get_instant_value<T>(k), *v, "instant value of " + k);
          x.data[k] = *v;
          x.vague.erase(k);
        }
        else if(r == 2 || !x.data.count(k)) // else an older value may be returned
          VP_THROWS(std::exception, e->get_instant_value<T>(k), "instant value of " << k << ", which cannot be resolved");
        else
          x.vague.insert(k);
        break;
      }
      case WRITE:
        if(x.data.count(k) && !x.vague.count(k)) {
          auto v = hard<T>(op.a);
          if constexpr(!std::is_same_v<T, Fn>) {
            e->get_value<T>(k) = v;
            x.data[k] = v;
          }
        }
        break;
      case CLEAR:
        e->clear_registry();
        for(int t = 0; t < ntypes; ++t)
          by_type(t, [&](auto y) { m.clear<decltype(y)>(); });
        break;
      case OTHER: {
        engine o; // the values are shared, the sources are not
        compare_all(o, m, "another engine");
        VP_ASSERT(!o.has_lua_source() && !o.has_hard_coded_source(), "a new engine has a source");
        break;
      }
      default: compare<T>(*e, m, what);
      }
      VP_EQ(e->has_lua_source(), m.lua.has_value(), "has_lua_source");
      VP_EQ(e->has_hard_coded_source(), m.has_hc, "has_hard_coded_source");
      compare<T>(*e, m, what);
    });
  }
  compare_all(*e, m, "at the end");
  // resolved values outlive the engine that resolved them
  e.reset();
  engine o;
  compare_all(o, m, "after the engine is gone");
  o.clear_registry();
  ristra::hard_coded_source_t().clear_registry<traits::types>();
  for(auto & f : files)
    unlink(f.c_str());
}

// names and types are mostly drawn from a small pool of the history's own, so that operations meet
void random_history(int max_len, bool narrow) {
  int len = *vp::range(3, max_len);
  std::vector<int> pool_n, pool_t;
  for(int i = 0; i < 2; ++i) {
    pool_n.push_back(*vp::range(0, (int)names.size() - 1));
    pool_t.push_back(*vp::range(0, ntypes - 1));
  }
  std::vector<Op> ops;
  bool hc = *vp::coin();
  for(int i = 0; i < len; ++i) {
    Op op;
    op.kind = *rc::gen::weightedElement<int>({{5, REG}, {4, REGS}, {5, HARD}, {3, LUA}, {1, NOLUA}, {6, RESOLVE}, {1, GET},
      {3, INSTANT}, {1, RESOLVED}, {1, WRITE}, {1, CLEAR}, {1, OTHER}});
    op.type = *vp::range(0, ntypes - 1);
    op.name = *vp::range(0, (int)names.size() - 1);
    if(narrow) {
      op.type = pool_t[op.type % 2];
      op.name = pool_n[op.name % 2];
    }
    op.n = *vp::range(0, narrow ? 1 : 3);
    op.a = draw_any();
    op.b = draw_any();
    if(op.kind == LUA)
      op.f = draw_file();
    ops.push_back(op);
  }
  std::string t;
  int resolves = 0;
  bool values = hc, targets = false;
  for(auto & op : ops) {
    t += std::string(kind_name[op.kind]) + "<" + type_name(op.type) + ">(" + names[op.name] + "," + std::to_string(op.n) +
         ")" + (op.kind == LUA ? op.f.source() : "") + "; ";
    resolves += op.kind == RESOLVE;
    values |= op.kind == HARD || op.kind == LUA;
    targets |= op.kind == REG || op.kind == REGS;
  }
  VP_CASE(resolves > 0 && values && targets, (hc ? "hc; " : "") << t);
  vp::run([&] { history(ops, hc); });
}
} // namespace
VP_PROP(histories, 500) { random_history(14, false); }
VP_PROP(close_histories, 500) { random_history(24, true); }
// the engine as an application drives it: all targets, one file, defaults, resolve
VP_PROP(startup, 400) {
  File f = draw_file();
  bool lua = *vp::range(0, 3) != 0;
  struct Pick {
    int type, mode;
    Any a;
  };
  std::vector<Pick> picks;
  for(std::size_t i = 0; i < names.size(); ++i)
    picks.push_back(Pick{*vp::range(0, ntypes - 1), *vp::range(0, 3), draw_any()});
  std::vector<Op> ops;
  if(lua) {
    Op o;
    o.kind = LUA;
    o.type = o.name = o.n = 0;
    o.f = f;
    ops.push_back(o);
  }
  std::string t;
  for(std::size_t i = 0; i < names.size(); ++i) {
    Op o;
    o.kind = HARD;
    o.type = picks[i].type;
    // mostly the type the file has, so that the resolution goes through
    const LV * v = nullptr;
    for(auto & p : places())
      if(lua && names[i] == p.key)
        v = f.at(p.table, p.lua);
    if(v)
      for(int k = 0; k < ntypes; ++k) {
        int ty = (picks[i].type + k) % ntypes;
        bool ok = false;
        by_type(ty, [&](auto x) {
          using T = decltype(x);
          auto c = from_lua<T>(*v);
          if constexpr(std::is_same_v<T, Fn>)
            ok = v->fn;
          else
            ok = c.has_value();
        });
        if(ok) {
          o.type = ty;
          break;
        }
      }
    o.name = int(i);
    o.n = 0;
    o.a = o.b = picks[i].a;
    if(picks[i].mode & 1)
      ops.push_back(o);
    o.kind = REG;
    if(picks[i].mode != 0)
      ops.push_back(o);
    t += names[i] + ":" + type_name(o.type) + "/" + std::to_string(picks[i].mode) + " ";
  }
  Op r;
  r.kind = RESOLVE;
  r.type = r.name = r.n = 0;
  ops.push_back(r);
  ops.push_back(r);
  VP_CASE(true, t << (lua ? f.source() : ""));
  vp::run([&] { history(ops, true); });
}

// ---- many targets, long names
VP_PROP(large, 30) {
  int n = *vp::large(1200);
  auto seed = *vp::range(0, 1 << 30);
  bool every = *vp::coin(); // every target has a value
  VP_CASE(n > 10, "n=" << n << " seed=" << seed << " every=" << every);
  vp::run([&] {
    Hush hush;
    vp::Lcg g(seed);
    engine e;
    e.clear_registry();
    ristra::hard_coded_source_t hc;
    hc.clear_registry<traits::types>();
    std::vector<std::string> key(n);
    std::vector<int> from(n); // bit 0: hard-coded, bit 1: in the Lua file
    std::map<std::string, double> hd;
    std::map<std::string, std::string> hs;
    std::string lua = "hydro = {";
    std::set<std::string> ts;
    bool all = true;
    for(int i = 0; i < n; ++i) {
      key[i] = "k" + std::string(g.upto(50) == 0 ? g.upto(3000) : g.upto(20), char('a' + g.upto(26))) + std::to_string(i);
      from[i] = every ? 1 + g.upto(3) : g.upto(4);
      all &= from[i] != 0;
      if(from[i] & 1) {
        hd[key[i]] = i + 0.25;
        hs[key[i]] = "hard " + key[i];
      }
      if(from[i] & 2)
        lua += key[i] + "=" + std::to_string(i) + ".5,";
      ts.insert(key[i]);
    }
    auto file = write_file(lua + "mesh={}}\n");
    auto s = ristra::mk_lua(file);
    for(int i = 0; i < n; ++i)
      VP_ASSERT(!s->register_value(key[i], "hydro", key[i]), "key was registered already");
    e.register_lua_source(s.release());
    e.register_hard_coded_source(ristra::mk_hard_coded_source().release());
    e.get_hard_coded_source().set_registry<Dbl>(hd);
    e.get_hard_coded_source().set_registry<Str>(hs);
    e.register_targets<Dbl>(ts);
    e.register_targets<Str>(ts);
    VP_EQ(e.resolve_inputs(), all, "resolve_inputs");
    unlink(file.c_str());
    for(int i = 0; i < n; ++i) {
      VP_EQ(e.resolved<Dbl>(key[i]), from[i] != 0, "resolved number " << i);
      VP_EQ(e.resolved<Str>(key[i]), from[i] != 0, "resolved text " << i);
      VP_EQ(e.failed<Dbl>().count(key[i]), std::size_t(from[i] == 0), "failed " << i);
      if(!from[i])
        continue;
      VP_EQ(e.get_value<Dbl>(key[i]), i + (from[i] & 2 ? .5 : .25), "value " << i);
      auto text = e.get_value<Str>(key[i]);
      VP_EQ(text, from[i] & 2 ? std::to_string(i) + ".5" : "hard " + key[i], "text " << i);
    }
    e.clear_registry();
    hc.clear_registry<traits::types>();
  });
}

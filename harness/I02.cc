// I02: lua_source_t looks where it was told to; input_t reads a loaded file.
#include "I.h"
#include "ristra/initialization/input.h"
using namespace in;

namespace {
// a tree of named tables with generated values at the leaves
struct Node {
  std::map<std::string, LV> values;
  std::map<std::string, Node> tables;
  std::string source() const {
    std::string r = "{";
    for(auto & kv : values)
      r += "[" + Value::quote(kv.first) + "]=" + kv.second.source() + ",";
    for(auto & kv : tables)
      r += "[" + Value::quote(kv.first) + "]=" + kv.second.source() + ",";
    return r + "}";
  }
};
const std::vector<std::string> tnames{"hydro", "mesh", "eos", "bc", "t1"};
const std::vector<std::string> vnames{"CFL", "suffix", "postfix", "prefix", "a", "b", "mesh_type", "type"};
Node draw_node(int depth) {
  Node n;
  for(auto & v : vnames)
    if(*vp::range(0, 1))
      n.values[v] = draw_lv();
  if(depth > 0)
    for(auto & t : tnames)
      if(*vp::range(0, 2) == 0)
        n.tables[t] = draw_node(depth - 1);
  return n;
}
struct Op {
  int kind; // 0 register_table 1 register_value 2 read
  std::string name, parent, lua;
};
struct Model {
  std::map<std::string, std::string> where, alias;
  std::map<std::string, const Node *> tables;
  std::set<std::string> vague; // registered anew without the alias it had, or by a failed call
  std::string lua_key(const std::string & k) const {
    auto it = alias.find(k);
    return it == alias.end() ? k : it->second;
  }
};
template<class T>
void read_as(ristra::lua_source_t & s, const std::string & key, const LV & v) {
  std::optional<model_t<T>> want = from_lua<T>(v);
  T got{};
  bool found = false, thrown = false;
  try {
    found = s.get_value(key, got);
  }
  catch(const std::exception &) {
    thrown = true;
  }
  if(v.nil())
    VP_ASSERT(!thrown && !found, key << " is not in its table but " << (thrown ? "reading it throws" : "counts as found"));
  else if(want) {
    VP_ASSERT(found, key << " = " << v.source() << " is not found");
    check_same<T>(got, *want, key);
  }
  else
    VP_ASSERT(thrown, key << " = " << v.source() << " was read as a type it does not have");
}
void read(ristra::lua_source_t & s, const Model & m, const std::string & key) {
  if(m.vague.count(key))
    return;
  auto w = m.where.find(key);
  if(w == m.where.end()) {
    double d = 0;
    std::string str;
    em::lua_result_uptr_t u;
    VP_ASSERT(!s.get_value(key, d) && !s.get_value(key, str) && !s.get_value(key, u), key << " was never registered but found");
    VP_THROWS(std::exception, s.get_size(key), "size of " << key << ", which was never registered");
    return;
  }
  auto t = m.tables.find(w->second);
  if(m.vague.count(w->second))
    return;
  double d = 0;
  if(t == m.tables.end()) {
    VP_THROWS(std::exception, s.get_value(key, d), "reading " << key << " from a table that was never registered");
    VP_THROWS(std::exception, s.get_size(key), "size of " << key << " in a table that was never registered");
    return;
  }
  std::string lk = m.lua_key(key);
  auto raw = s.get_lua_result_raw(key);
  auto sub = t->second->tables.find(lk);
  auto val = t->second->values.find(lk);
  if(sub != t->second->tables.end()) { // the key names a table
    VP_ASSERT(raw.first && !raw.second.empty(), key << " is a table but not found");
    for(auto & kv : sub->second.values)
      if(!kv.second.fn)
        VP_EQ(raw.second[kv.first].empty(), kv.second.nil(), key << "." << kv.first << " through its table is empty");
    VP_EQ(s.get_size(key), std::size_t(0), "size of the table " << key);
    return;
  }
  LV v;
  if(val != t->second->values.end())
    v = val->second;
  VP_EQ(raw.first, !v.nil(), key << " found as raw result");
  VP_EQ(raw.second.empty(), v.nil(), "raw result of " << key << " empty");
  if(!v.fn && !v.nil())
    VP_EQ(s.get_size(key), v.v.len(), "size of " << key << " = " << v.source());
  if(v.fn) {
    auto r = raw.second(1.5, -2.0, 0.25).template as<double, ArrD, double>();
    VP_ASSERT(Ret(r) == v.f(ArrD{1.5, -2}, 0.25), "calling " << key);
    em::lua_result_uptr_t u;
    VP_ASSERT(s.get_value(key, u) && u, key << " is a function but not found");
    VP_ASSERT(Ret((*u)(0.5, 3.0, 1.0).template as<double, ArrD, double>()) == v.f(ArrD{0.5, 3}, 1), "calling " << key);
  }
  read_as<Dbl>(s, key, v);
  read_as<Str>(s, key, v);
  read_as<ArrD>(s, key, v);
  read_as<ArrS>(s, key, v);
  read_as<Siz>(s, key, v);
}
void check_table(ristra::lua_source_t & s, const std::string & name, const Node & n) {
  auto & t = s.get_table(name);
  for(auto & k : vnames) {
    auto it = n.values.find(k);
    LV v = it == n.values.end() ? LV() : it->second;
    VP_EQ(t[k].empty(), v.nil(), "table " << name << ": " << k << " empty");
    if(!v.fn)
      lm::expect<double>(t[k], v.v, "double");
  }
}
void run_source(const std::map<std::string, Node> & globals, const std::vector<Op> & ops) {
  Hush hush;
  std::string text;
  for(auto & g : globals)
    text += g.first + " = " + g.second.source() + "\n";
  std::string file = write_file(text);
  Model m;
  auto h = globals.find("hydro");
  bool ok = h != globals.end() && h->second.tables.count("mesh");
  if(!ok) {
    vp::tag("incomplete file");
    VP_THROWS(std::exception, ristra::lua_source_t{file}, "a file without hydro.mesh");
    unlink(file.c_str());
    return;
  }
  ristra::lua_source_t s(file);
  unlink(file.c_str()); // the file is read once
  m.tables["hydro"] = &h->second;
  m.tables["mesh"] = &h->second.tables.at("mesh");
  m.where["hydro"] = "base_state";
  m.where["mesh"] = "hydro";
  for(auto & p : places()) {
    m.where[p.key] = p.table;
    if(p.key != std::string(p.lua))
      m.alias[p.key] = p.lua;
  }
  for(auto & op : ops) {
    bool had = m.where.count(op.name);
    if(op.kind == 2) {
      if(m.where.count(op.name) && m.where[op.name] == "base_state")
        continue;
      read(s, m, op.name);
      continue;
    }
    if(op.lua.empty() ? m.alias.count(op.name) > 0 : false)
      m.vague.insert(op.name);
    else
      m.vague.erase(op.name);
    if(!op.lua.empty())
      m.alias[op.name] = op.lua;
    m.where[op.name] = op.parent;
    if(op.kind == 1) {
      VP_EQ(s.register_value(op.name, op.parent, op.lua), had, "register_value(" << op.name << ") displaced a definition");
      continue;
    }
    // register_table
    const Node * found = nullptr;
    bool vague = m.vague.count(op.name) || (op.parent != "base_state" && m.vague.count(op.parent));
    std::string lk = m.lua_key(op.name);
    if(op.parent == "base_state") {
      auto it = globals.find(lk);
      if(it != globals.end())
        found = &it->second;
    }
    else if(m.tables.count(op.parent)) {
      auto & tt = m.tables[op.parent]->tables;
      auto it = tt.find(lk);
      if(it != tt.end())
        found = &it->second;
    }
    if(vague || (!found && m.tables.count(op.parent) && m.tables[op.parent]->values.count(lk))) {
      // unspecified: not a table, or an alias left from before
      try {
        s.register_table(op.name, op.parent, op.lua);
      }
      catch(const std::exception &) {
      }
      m.vague.insert(op.name);
    }
    else if(!found) {
      VP_THROWS(std::exception, s.register_table(op.name, op.parent, op.lua), "registering the missing table " << op.name);
      m.vague.insert(op.name);
    }
    else {
      vp::tag("table");
      VP_EQ(s.register_table(op.name, op.parent, op.lua), had, "register_table(" << op.name << ") displaced a definition");
      m.tables[op.name] = found;
      check_table(s, op.name, *found);
    }
  }
  for(auto & v : vnames)
    if(m.where.count(v) && m.where[v] != "base_state")
      read(s, m, v);
  for(auto & t : m.tables)
    if(!m.vague.count(t.first))
      check_table(s, t.first, *t.second);
  VP_THROWS(std::exception, s.get_table("no such table"), "getting a table that was never registered");
}
} // namespace

VP_PROP(source, 300) {
  std::map<std::string, Node> g;
  if(*vp::range(0, 9)) {
    g["hydro"] = draw_node(2);
    if(*vp::range(0, 9))
      g["hydro"].tables["mesh"] = draw_node(1);
  }
  for(auto k : {"mesh", "eos", "bc"})
    if(*vp::range(0, 1))
      g[k] = draw_node(1);
  auto ops = *vp::seq<Op>(12,
    rc::gen::apply(
      [](int kind, std::string t, std::string v, std::string p, std::string l, int alias) {
        Op o{kind, kind == 0 ? t : v, p, ""};
        if(alias == 0)
          o.lua = kind == 0 ? l : v == "a" ? "b" : "a";
        if(kind == 1 && p == "base_state")
          o.parent = "mesh";
        return o;
      },
      vp::range(0, 2), vp::of(tnames), vp::of(vnames), vp::of<std::string>({"base_state", "hydro", "mesh", "eos", "bc", "t1"}),
      vp::of(tnames), vp::range(0, 2)));
  std::string t;
  for(auto & kv : g)
    t += kv.first + "=" + kv.second.source() + " ";
  for(auto & o : ops)
    t += (o.kind == 0 ? "table(" : o.kind == 1 ? "value(" : "read(") + o.name + "," + o.parent + "," + o.lua + "); ";
  VP_CASE(g.count("hydro") && ops.size() > 1, t);
  vp::run([&] { run_source(g, ops); });
}

// input_t: several files loaded into one input
VP_PROP(input, 200) {
  struct Load {
    std::map<std::string, Value> vars;
    int bad;
  };
  std::vector<Load> loads;
  int n = *vp::range(1, 3);
  std::string t;
  for(int i = 0; i < n; ++i) {
    Load l;
    l.bad = *vp::range(0, 5);
    for(auto k : {"a", "b", "c", "d"})
      if(*vp::range(0, 2))
        l.vars[k] = lm::draw(2);
    t += "load" + std::to_string(l.bad);
    for(auto & kv : l.vars)
      t += " " + kv.first + "=" + kv.second.source();
    t += "; ";
    loads.push_back(l);
  }
  VP_CASE(n > 1, t);
  vp::run([&] {
    Hush hush;
    ristra::initialization::input_t in;
    std::map<std::string, Value> m;
    for(auto & l : loads) {
      if(l.bad == 0) {
        std::string f = write_file("this is no Lua (");
        VP_THROWS(std::exception, in.load(f), "loading a file that is not Lua");
        unlink(f.c_str());
        VP_THROWS(std::exception, in.load(f), "loading a file that is not there");
      }
      else {
        std::string text;
        for(auto & kv : l.vars) {
          text += kv.first + " = " + kv.second.source() + "\n";
          m[kv.first] = kv.second;
        }
        std::string f = write_file(text);
        in.load(f);
        VP_EQ(in.filename(), f, "filename");
        unlink(f.c_str());
      }
      for(auto k : {"a", "b", "c", "d", "e"}) {
        Value v = m.count(k) ? m[k] : Value();
        auto r = in[k];
        VP_EQ(r.empty(), v.t == lm::NIL, k << " empty");
        lm::expect<double>(r, v, "double");
        lm::expect<std::string>(r, v, "string");
        lm::expect<std::vector<int>>(r, v, "vector<int>");
        std::optional<double> via;
        try {
          via = inputs_try_access_as(in, k, double);
        }
        catch(const std::runtime_error &) {
        }
        auto want = lm::conv<double>::get(v);
        VP_ASSERT(via.has_value() == want.has_value() && (!via || lm::same(*via, *want)), "inputs_try_access_as of " << k);
        if(v.t == lm::NIL) {
          VP_THROWS(std::runtime_error, in.try_access(k), "try_access of the missing " << k);
          VP_THROWS(std::runtime_error, inputs_try_access(in, k), "inputs_try_access of the missing " << k);
        }
        else {
          lm::expect<std::string>(in.try_access(k), v, "string");
          lm::expect<std::string>(inputs_try_access(in, k), v, "string");
        }
      }
    }
  });
}

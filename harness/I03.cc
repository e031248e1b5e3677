// I03: init_value_t registers itself, and hands out resolved and valid values only.
#include "I.h"
using namespace in;
using st = ristra::init_val_status_t;

namespace {
const std::vector<std::string> names{"CFL", "nsx"};
const std::vector<std::string> spaces{"", "CF", "ns"};
std::string full(int n, int s) { return spaces[s].empty() ? names[n] : spaces[s] + ":" + names[n]; }

// what the validators look at: a number made from the value
double key_of(const Dbl & d) { return d; }
double key_of(const Str & s) { return double(s.size()) - 50; }
double key_of(const ArrD & a) { return a[0] - a[1]; }
double key_of(const ArrS & a) { return a[0] < a[1] ? -1 : 1; }
double key_of(const Siz & n) { return n % 2 ? 1 : -1; }
double key_of(const Fn & f) { return std::get<0>(f(ArrD{1, 0}, 0)); }
double key_of(const std::optional<Coef> & c) { return c->a; }

struct Op {
  int kind, type, name, space, mode;
  double limit;
  Any a;
  int which;
};
enum { NEW, HARD, RESOLVE, GET, VALID, RESOLVED, STATUS, WRITE, INSTANT, CLEAR };
const char * kind_name[] = {"new", "hard", "resolve", "get", "valid", "resolved", "status", "write", "instant", "clear"};

template<class T>
struct Obj {
  ristra::init_value_t<T, engine> v;
  std::string key;
  int mode; // 0 always valid (default validator), 1 validated by limit, 2 never
  double limit;
  int version; // of the datum when the status was last decided, -1 undecided
  bool touched = false;
};
template<class T>
struct Tab {
  std::vector<std::unique_ptr<Obj<T>>> objs;
  std::map<std::string, model_t<T>> data, hc;
  std::map<std::string, int> version;
  std::set<std::string> targets, vague;
};
struct World {
  engine e;
  bool once = false; // resolve_inputs was called
  int clock = 0;
  std::tuple<Tab<Dbl>, Tab<Str>, Tab<ArrD>, Tab<ArrS>, Tab<Siz>, Tab<Fn>> t;
  template<class T>
  Tab<T> & of() { return std::get<Tab<T>>(t); }
};
template<class T>
void step(World & w, const Op & op) {
  auto & x = w.of<T>();
  std::string k = full(op.name, op.space);
  switch(op.kind) {
  case NEW: {
    double limit = op.limit;
    auto check = [limit](T const & v) { return key_of(v) <= limit; };
    auto never = [](T const &) { return false; };
    using IV = ristra::init_value_t<T, engine>;
    auto o = std::unique_ptr<Obj<T>>(new Obj<T>{
      op.mode == 0 && op.space == 0   ? IV(names[op.name])
      : op.mode == 0                  ? IV(names[op.name], [](T const &) { return true; }, spaces[op.space])
      : op.mode == 1 && op.space == 0 ? IV(names[op.name], check)
      : op.mode == 1                  ? IV(names[op.name], check, spaces[op.space])
                                      : IV(names[op.name], never, spaces[op.space]),
      k, op.mode, op.limit, -1});
    VP_ASSERT(o->v.status() == st::registered, "a new init value is " << ristra::init_val_status_name(o->v.status()));
    x.objs.push_back(std::move(o));
    x.targets.insert(k);
    VP_ASSERT(w.e.targets<T>().count(k), "the engine does not know " << k);
    return;
  }
  case HARD:
    x.hc[k] = hard<T>(op.a);
    w.e.get_hard_coded_source().template set_registry<T>({{k, cpp<T>(x.hc[k])}});
    return;
  case WRITE:
    if constexpr(!std::is_same_v<T, Fn>)
      if(x.data.count(k) && !x.vague.count(k)) {
        auto v = hard<T>(op.a);
        w.e.get_value<T>(k) = v;
        x.data[k] = v;
        x.version[k] = ++w.clock;
      }
    return;
  case INSTANT:
    if(x.hc.count(k)) {
      w.e.get_instant_value<T>(k);
      x.data[k] = x.hc[k];
      x.version[k] = ++w.clock;
      x.vague.erase(k);
    }
    return;
  default: break;
  }
  if(x.objs.empty())
    return;
  auto & o = *x.objs[op.which % x.objs.size()];
  if(x.vague.count(o.key))
    return;
  bool has = x.data.count(o.key) != 0;
  bool fine = has && (o.mode == 0 || (o.mode == 1 && key_of(x.data[o.key]) <= o.limit));
  // a value obtained with get_instant_value before the first resolution may or may not count
  bool unsure = has && !w.once;
  switch(op.kind) {
  case GET: {
    if(unsure)
      return;
    st before = o.v.status();
    vp::tag(fine ? "get" : has ? "get invalid" : "get unresolved");
    if(!fine)
      VP_THROWS(std::exception, o.v.get(), (has ? "get of the invalid " : "get of the unresolved ") << o.key);
    else
      check_same<T>(o.v.get(), x.data[o.key], o.key);
    st s = o.v.status();
    if(has || before < st::initialized) // (a value cleared since leaves the status as it was)
      VP_ASSERT(fine ? s == st::valid : has ? s == st::invalid : s == st::resolve_failed,
      "status after get of " << (fine ? "a valid " : has ? "an invalid " : "an unresolved ") << o.key << " is "
                             << ristra::init_val_status_name(s));
    if(has)
      o.version = x.version[o.key];
    o.touched = true;
    if constexpr(!std::is_same_v<T, Fn>)
      if(fine && op.mode == 1) { // a reference to the shared value
        T & r = o.v.get();
        r = x.data[o.key] = hard<T>(op.a);
        x.version[o.key] = ++w.clock;
      }
    break;
  }
  case VALID: {
    if(unsure || (o.version >= 0 && (!has || o.version != x.version[o.key])))
      return; // decided for another value
    vp::tag(fine ? "valid" : has ? "invalid" : "unresolved");
    VP_EQ(o.v.valid(), fine, o.key << " valid");
    if(has)
      VP_ASSERT(o.v.status() == (fine ? st::valid : st::invalid), "status after valid()");
    if(has)
      o.version = x.version[o.key];
    o.touched = true;
    break;
  }
  case RESOLVED:
    if(unsure)
      return;
    VP_EQ(o.v.resolved(), has, o.key << " resolved");
    if(has) {
      VP_ASSERT(o.v.status() >= st::initialized, "status of a resolved value");
      if(o.v.status() == st::initialized)
        o.version = -1;
    }
    o.touched = true;
    break;
  default:
    if(!o.touched)
      VP_ASSERT(o.v.status() == st::registered, "status of an untouched value");
    break;
  }
}
template<class T>
void resolve_type(World & w, bool & all) {
  auto & x = w.of<T>();
  for(auto & k : x.targets)
    if(x.hc.count(k)) {
      x.data[k] = x.hc[k];
      x.version[k] = ++w.clock;
      x.vague.erase(k);
    }
    else {
      all = false;
      if(x.data.count(k))
        x.vague.insert(k);
    }
}
void history(const std::vector<Op> & ops) {
  Hush hush;
  World w;
  w.e.clear_registry();
  ristra::hard_coded_source_t().clear_registry<traits::types>();
  w.e.register_hard_coded_source(ristra::mk_hard_coded_source().release());
  for(auto & op : ops) {
    if(op.kind == RESOLVE) {
      bool all = true;
      for(int t = 0; t < ntypes; ++t)
        by_type(t, [&](auto y) { resolve_type<decltype(y)>(w, all); });
      VP_EQ(w.e.resolve_inputs(), all, "resolve_inputs");
      w.once = true;
    }
    else if(op.kind == CLEAR) {
      w.e.clear_registry();
      for(int t = 0; t < ntypes; ++t)
        by_type(t, [&](auto y) {
          auto & x = w.of<decltype(y)>();
          x.data.clear();
          x.vague.clear();
          x.targets.clear();
        });
    }
    else
      by_type(op.type, [&](auto y) { step<decltype(y)>(w, op); });
  }
  w.e.clear_registry();
  ristra::hard_coded_source_t().clear_registry<traits::types>();
}
rc::Gen<int> kinds() {
  return rc::gen::weightedElement<int>({{6, NEW}, {6, HARD}, {4, RESOLVE}, {6, GET}, {4, VALID}, {3, RESOLVED}, {1, STATUS},
    {1, WRITE}, {1, INSTANT}, {1, CLEAR}});
}
} // namespace

VP_PROP(histories, 1500) {
  int len = *vp::range(4, 24);
  int types = *vp::range(1, 2); // few, so that objects meet
  int t0 = *vp::range(0, ntypes - 1);
  std::vector<Op> ops;
  std::string t;
  int news = 0, reads = 0;
  for(int i = 0; i < len; ++i) {
    Op o;
    o.kind = i == 0 ? NEW : i == 1 ? HARD : *kinds();
    o.type = (t0 + *vp::range(0, types - 1) * 2) % ntypes;
    o.name = *vp::range(0, 1);
    o.space = *vp::range(0, 2) == 0 ? *vp::range(0, 2) : 0;
    o.mode = *vp::range(0, 9) == 0 ? 2 : *vp::range(0, 1);
    o.limit = *vp::dyadic(16, 2);
    o.a = draw_any();
    o.which = *vp::range(0, 5);
    ops.push_back(o);
    news += o.kind == NEW;
    reads += o.kind == GET || o.kind == VALID;
    t += std::string(kind_name[o.kind]) + "<" + type_name(o.type) + ">(" + full(o.name, o.space) + "," + std::to_string(o.mode) +
         "," + std::to_string(o.which) + "); ";
  }
  VP_CASE(news > 0 && reads > 1, t);
  vp::run([&] { history(ops); });
}
VP_PROP(names, 50) {
  int i = *vp::range(0, 5), j = *vp::range(0, 5);
  VP_CASE(i != j, i << " " << j);
  vp::run([&] {
    static const char * n[] = {"unregistered", "registered", "resolve_failed", "initialized", "invalid", "valid"};
    VP_EQ(ristra::init_val_status_name(st(i)), std::string(n[i]), "status name");
    VP_ASSERT((st(i) < st(j)) == (i < j), "status order");
  });
}

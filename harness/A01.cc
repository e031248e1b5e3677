// A01: atomic operations take effect exactly once, in isolation.
//
// Four searches:
//  - own schedule: std::atomic of a type of ours is replaced by a version that
//    runs interfering operations (another thread's) and spurious failures at
//    generated points between any two accesses, and records what the operation
//    did and with which memory orders;
//  - own schedule, plain types: the same at the compiler's compare-and-swap, as
//    the C++ library calls it, for the types it handles itself and for the
//    punned schemes;
//  - nested: the interference runs inside the value type's own operator, which
//    also reaches the punned compare-and-swap schemes;
//  - threads: generated per-thread programs on real threads, final values and
//    returned values checked against what some serial order must produce.

#include "vp.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <deque>
#include <iostream>
#include <memory>
#include <mutex>
#include <set>
#include <thread>

// ------------------------------------------------------------ the value type
struct Obs {
  int v;
  Obs() = default;
  explicit constexpr Obs(int x) : v(x) {}
};
#define OBS_OP(op)                                                             \
  inline Obs & operator op(Obs & a, Obs b) {                                   \
    a.v op b.v;                                                                \
    return a;                                                                  \
  }                                                                            \
  inline Obs & operator op(Obs & a, int b) {                                   \
    a.v op b;                                                                  \
    return a;                                                                  \
  }
#define OBS_BIN(op)                                                            \
  inline Obs operator op(Obs a, Obs b) { return Obs(a.v op b.v); }             \
  inline Obs operator op(Obs a, int b) { return Obs(a.v op b); }               \
  inline Obs operator op(int a, Obs b) { return Obs(a op b.v); }
#define OBS_CMP(op)                                                            \
  inline bool operator op(Obs a, Obs b) { return a.v op b.v; }                 \
  inline bool operator op(Obs a, int b) { return a.v op b; }                   \
  inline bool operator op(int a, Obs b) { return a op b.v; }
OBS_BIN(+) OBS_BIN(-) OBS_BIN(*) OBS_BIN(/) OBS_BIN(%) OBS_BIN(<<) OBS_BIN(>>) OBS_BIN(&) OBS_BIN(|) OBS_BIN(^)
OBS_CMP(<) OBS_CMP(>) OBS_CMP(<=) OBS_CMP(>=) OBS_CMP(==) OBS_CMP(!=)
OBS_OP(+=) OBS_OP(-=) OBS_OP(*=) OBS_OP(/=) OBS_OP(%=) OBS_OP(<<=) OBS_OP(>>=) OBS_OP(&=) OBS_OP(|=) OBS_OP(^=)
inline Obs & operator++(Obs & a) {
  ++a.v;
  return a;
}
inline Obs operator++(Obs & a, int) {
  Obs o = a;
  ++a.v;
  return o;
}
inline Obs & operator--(Obs & a) {
  --a.v;
  return a;
}
inline Obs operator--(Obs & a, int) {
  Obs o = a;
  --a.v;
  return o;
}

// ------------------------------------------------------------ the schedule
struct Interference {
  int at; // before which access of the operation
  int kind, val;
};
struct Change {
  int before, after;
  bool mine;
  std::memory_order order;
};
struct Read {
  int value;
};
struct Sched {
  const volatile void * target = nullptr; // other objects of the type are private
  std::vector<Interference> plan;
  std::set<int> spurious; // which weak attempts fail for no reason
  int access = 0, attempt = 0;
  std::vector<Change> changes;
  std::vector<Read> reads;
  std::vector<std::memory_order> failure_orders;
} * sched = nullptr;
inline void interfere(int & v, int kind, int val) {
  switch(kind) {
  case 0:
    v += val;
    break;
  case 1:
    v ^= val;
    break;
  case 2:
    v = val;
    break;
  default: // a change and back: the same value again
    break;
  }
}
namespace std {
template<>
struct atomic<Obs> {
  using value_type = Obs;
  static constexpr bool is_always_lock_free = true;
  bool is_lock_free() const volatile noexcept { return true; }
  mutable int v;
  atomic() noexcept : v(0) {}
  constexpr atomic(Obs o) noexcept : v(o.v) {}
  atomic(const atomic &) = delete;
  atomic & operator=(const atomic &) = delete;
  bool on() const volatile { return sched && sched->target == this; }
  // every access goes through here; the interference runs first
  int & cell() const volatile {
    int & c = const_cast<int &>(v);
    if(on()) {
      int k = sched->access++;
      for(auto & i : sched->plan)
        if(i.at == k) {
          int before = c;
          interfere(c, i.kind, i.val);
          sched->changes.push_back({before, c, false, std::memory_order_seq_cst});
        }
    }
    return c;
  }
  void mine(int before, int after, std::memory_order o) const volatile {
    if(on())
      sched->changes.push_back({before, after, true, o});
  }
  Obs load(std::memory_order = std::memory_order_seq_cst) const volatile noexcept {
    int c = cell();
    if(on())
      sched->reads.push_back({c});
    return Obs{c};
  }
  operator Obs() const volatile noexcept { return load(); }
  void store(Obs o, std::memory_order m = std::memory_order_seq_cst) volatile noexcept {
    int & c = cell();
    mine(c, o.v, m);
    c = o.v;
  }
  Obs operator=(Obs o) volatile noexcept {
    store(o);
    return o;
  }
  Obs exchange(Obs o, std::memory_order m = std::memory_order_seq_cst) volatile noexcept {
    int & c = cell();
    mine(c, o.v, m);
    Obs r{c};
    c = o.v;
    return r;
  }
  bool cas(Obs & old, Obs neu, std::memory_order s, std::memory_order f, bool weak) volatile noexcept {
    int & c = cell();
    bool fail = false;
    if(on() && weak)
      fail = sched->spurious.count(sched->attempt++) > 0;
    if(c == old.v && !fail) {
      mine(c, neu.v, s);
      c = neu.v;
      return true;
    }
    old.v = c;
    if(on()) {
      sched->reads.push_back({c});
      sched->failure_orders.push_back(f);
    }
    return false;
  }
  static std::memory_order drop(std::memory_order m) {
    return m == std::memory_order_acq_rel ? std::memory_order_acquire
           : m == std::memory_order_release ? std::memory_order_relaxed
                                            : m;
  }
  bool compare_exchange_strong(Obs & o, Obs n, std::memory_order s, std::memory_order f) volatile noexcept {
    return cas(o, n, s, f, false);
  }
  bool compare_exchange_weak(Obs & o, Obs n, std::memory_order s, std::memory_order f) volatile noexcept {
    return cas(o, n, s, f, true);
  }
  bool compare_exchange_strong(Obs & o, Obs n, std::memory_order s = std::memory_order_seq_cst) volatile noexcept {
    return cas(o, n, s, drop(s), false);
  }
  bool compare_exchange_weak(Obs & o, Obs n, std::memory_order s = std::memory_order_seq_cst) volatile noexcept {
    return cas(o, n, s, drop(s), true);
  }
#define FETCH(name, op)                                                        \
  Obs name(Obs x, std::memory_order m = std::memory_order_seq_cst) volatile noexcept { \
    int & c = cell();                                                          \
    Obs r{c};                                                                  \
    c op x.v;                                                                  \
    mine(r.v, c, m);                                                           \
    return r;                                                                  \
  }                                                                            \
  Obs name(int x, std::memory_order m = std::memory_order_seq_cst) volatile noexcept { \
    return name(Obs{x}, m);                                                    \
  }
  FETCH(fetch_add, +=) FETCH(fetch_sub, -=) FETCH(fetch_and, &=) FETCH(fetch_or, |=) FETCH(fetch_xor, ^=)
#undef FETCH
#define COMPOUND(op, name)                                                     \
  Obs operator op##=(Obs x) volatile noexcept { return Obs{name(x).v op x.v}; } \
  Obs operator op##=(int x) volatile noexcept { return Obs{name(x).v op x}; }
  COMPOUND(+, fetch_add) COMPOUND(-, fetch_sub) COMPOUND(&, fetch_and) COMPOUND(|, fetch_or) COMPOUND(^, fetch_xor)
#undef COMPOUND
  Obs operator++() volatile noexcept { return Obs{fetch_add(1).v + 1}; }
  Obs operator++(int) volatile noexcept { return fetch_add(1); }
  Obs operator--() volatile noexcept { return Obs{fetch_sub(1).v - 1}; }
  Obs operator--(int) volatile noexcept { return fetch_sub(1); }
};
} // namespace std

#include "atomics.h"
namespace at = ristra::atomics;

namespace {
enum Op { ADD, SUB, MUL, DIV, MOD, SHL, SHR, AND, OR, XOR, MIN, MAX, PREINC, POSTINC, PREDEC, POSTDEC, INC, DEC, N_OPS };
const char * op_name[] = {"add", "sub", "mul", "div", "mod", "lshift", "rshift", "andeq", "oreq", "xoreq", "min", "max",
  "preinc", "postinc", "predec", "postdec", "inc", "dec"};
// plain semantics: (new value, returned value)
std::pair<int, int> plain(Op op, int a, int b) {
  int n = a;
  switch(op) {
  case ADD: n = a + b; break;
  case SUB: n = a - b; break;
  case MUL: n = a * b; break;
  case DIV: n = a / b; break;
  case MOD: n = a % b; break;
  case SHL: n = a << b; break;
  case SHR: n = a >> b; break;
  case AND: n = a & b; break;
  case OR: n = a | b; break;
  case XOR: n = a ^ b; break;
  case MIN: n = std::min(a, b); break;
  case MAX: n = std::max(a, b); break;
  case PREINC: case INC: n = a + 1; break;
  case PREDEC: case DEC: n = a - 1; break;
  case POSTINC: return {a + 1, a};
  case POSTDEC: return {a - 1, a};
  default: break;
  }
  return {n, n};
}
bool cpp_has(Op op) {
  return op == ADD || op == SUB || op == AND || op == OR || op == XOR || op >= PREINC;
}
// operands: any small non-negative state, so that shifts and division are defined
int operand(Op op, int raw) {
  int m = std::abs(raw);
  switch(op) {
  case MUL: return m % 4;
  case DIV: return 1 + m % 5;
  case MOD: return 1 + m % 9;
  case SHL: case SHR: return m % 4;
  default: return m % 64;
  }
}
enum Form { OPERATOR, MEMBER, FUNCTION, MEMBER_SYNC, FUNCTION_SYNC, MEMBER_SF, FUNCTION_SF, N_FORMS };
const char * form_name[] = {"operator", "member", "function", "member(sync)", "function(sync)",
  "member(success,failure)", "function(success,failure)"};

struct Call {
  Op op;
  Form form;
  int val;
  std::memory_order s, f;
};
#define FORMS(nm, ...)                                                         \
  switch(c.form) {                                                             \
  case MEMBER: return x.template nm<S>(__VA_ARGS__);                           \
  case FUNCTION: return at::nm<S>(x, ##__VA_ARGS__);                           \
  default: break;                                                              \
  }                                                                            \
  if constexpr(SYNC)                                                           \
    switch(c.form) {                                                           \
    case MEMBER_SYNC: return x.template nm<S>(__VA_ARGS__ __VA_OPT__(, ) c.s); \
    case FUNCTION_SYNC: return at::nm<S>(x, ##__VA_ARGS__, c.s);               \
    default: break;                                                            \
    }                                                                          \
  if constexpr(SF)                                                             \
    switch(c.form) {                                                           \
    case MEMBER_SF: return x.template nm<S>(__VA_ARGS__ __VA_OPT__(, ) c.s, c.f); \
    case FUNCTION_SF: return at::nm<S>(x, ##__VA_ARGS__, c.s, c.f);            \
    default: break;                                                            \
    }                                                                          \
  break;
// A: (possibly volatile) atomic type; S: scheme used; CPP: only cpp's operations
template<class S, bool CPP, bool SYNC, bool SF, class A, class V>
auto invoke(A & x, const Call & c, V val) {
  using T = typename std::remove_cv_t<A>::value_type;
  switch(c.op) {
#define BIN(OP, nm, sym)                                                       \
  case OP:                                                                     \
    if(c.form == OPERATOR)                                                     \
      return T(x sym val);                                                     \
    FORMS(nm, val)
    BIN(ADD, add, +=) BIN(SUB, sub, -=) BIN(AND, andeq, &=) BIN(OR, oreq, |=) BIN(XOR, xoreq, ^=)
#define UN(OP, nm, expr)                                                       \
  case OP:                                                                     \
    if(c.form == OPERATOR)                                                     \
      return T(expr);                                                          \
    if constexpr(CPP) { /* std::atomic's ++ and -- take no memory order */     \
      if(c.form == MEMBER)                                                     \
        return x.template nm<S>();                                             \
      return at::nm<S>(x);                                                     \
    }                                                                          \
    else {                                                                     \
      FORMS(nm)                                                                \
    }                                                                          \
    break;
    UN(PREINC, preinc, ++x) UN(POSTINC, postinc, x++) UN(PREDEC, predec, --x) UN(POSTDEC, postdec, x--)
    UN(INC, inc, ++x) UN(DEC, dec, --x)
  default: break;
  }
  if constexpr(!CPP) {
    switch(c.op) {
      BIN(MUL, mul, *=) BIN(DIV, div, /=) BIN(MOD, mod, %=) BIN(SHL, lshift, <<=) BIN(SHR, rshift, >>=)
    case MIN:
      if(c.form == OPERATOR)
        return T(x.min(val));
      FORMS(min, val)
    case MAX:
      if(c.form == OPERATOR)
        return T(x.max(val));
      FORMS(max, val)
    default: break;
    }
  }
  throw vp::Failure("harness: no such form");
}
bool at_least(std::memory_order got, std::memory_order want) {
  auto rank = [](std::memory_order m) -> int {
    switch(m) {
    case std::memory_order_relaxed: return 0;
    case std::memory_order_consume: return 1;
    case std::memory_order_acquire: return 3;
    case std::memory_order_release: return 4;
    case std::memory_order_acq_rel: return 7;
    default: return 15;
    }
  };
  return (rank(got) & rank(want)) == rank(want);
}
const std::vector<std::memory_order> orders = {std::memory_order_relaxed, std::memory_order_acquire,
  std::memory_order_release, std::memory_order_acq_rel, std::memory_order_seq_cst};
const std::vector<std::memory_order> fail_orders = {
  std::memory_order_relaxed, std::memory_order_acquire, std::memory_order_seq_cst};
rc::Gen<Call> call(std::vector<Op> ops, int forms) {
  return rc::gen::apply(
    [](Op op, int form, int raw, std::memory_order s, std::memory_order f) {
      return Call{op, Form(form), operand(op, raw), s, f};
    },
    rc::gen::elementOf(ops), vp::range<int>(0, forms - 1), vp::range<int>(0, 1000), rc::gen::elementOf(orders),
    rc::gen::elementOf(fail_orders));
}
std::vector<Op> all_ops(bool cpp) {
  std::vector<Op> r;
  for(int i = 0; i < N_OPS; ++i)
    if(!cpp || cpp_has(Op(i)))
      r.push_back(Op(i));
  return r;
}

// now and then it takes very many attempts
void storm(std::vector<Interference> & plan, std::vector<int> & sp, bool weak) {
  int n = *rc::gen::weightedOneOf<int>({{30, rc::gen::just(0)}, {1, vp::range(5, 600)}});
  for(int i = 0; i < n; ++i)
    if(weak && n % 2)
      sp.push_back(i);
    else
      plan.push_back({i, i % 3, i % 3 == 2 ? i % 50 : 1});
}

// ---- 1. own schedule
template<class SCHEME, class S, bool VOL>
void schedule() {
  constexpr bool cpp = std::is_same_v<S, at::cpp>;
  constexpr bool weak = std::is_same_v<S, at::weak>;
  constexpr bool own = std::is_same_v<S, SCHEME>;
  auto c = *call(all_ops(cpp), cpp ? FUNCTION_SYNC + 1 : N_FORMS);
  if(!own && c.form == OPERATOR) // an operator cannot name another scheme
    c.form = MEMBER;
  if(cpp && c.op >= PREINC && c.form > FUNCTION)
    c.form = FUNCTION;
  int init = *vp::range(0, 200);
  auto plan = *rc::gen::resize(4,
    rc::gen::container<std::vector<Interference>>(rc::gen::apply(
      [](int at_, int k, int v) { return Interference{at_, k, v}; }, vp::range(0, 5), vp::range(0, 3), vp::range(0, 63))));
  std::vector<int> sp;
  if(weak)
    sp = *rc::gen::resize(3, rc::gen::container<std::vector<int>>(vp::range(0, 4)));
  storm(plan, sp, weak);
  bool ordered = c.form >= MEMBER_SYNC, two = c.form >= MEMBER_SF;
  std::string pl;
  for(auto & i : plan)
    pl += " " + std::to_string(i.at) + ":" + std::to_string(i.kind) + "/" + std::to_string(i.val);
  VP_CASE(!plan.empty() || !sp.empty(), op_name[c.op] << " as " << form_name[c.form] << " operand=" << c.val
                                                      << " init=" << init << " order=" << int(c.s) << "," << int(c.f)
                                                      << " interference (access:kind/value):" << pl
                                                      << " spurious=" << vp::str(sp));
  vp::tag(plan.empty() && sp.empty() ? "undisturbed" : "disturbed");
  vp::run([&] {
    using A = std::conditional_t<VOL, volatile at::atomic<Obs, SCHEME>, at::atomic<Obs, SCHEME>>;
    A x(Obs{init});
    Sched s;
    s.plan = plan;
    s.spurious.insert(sp.begin(), sp.end());
    s.target = &x;
    sched = &s;
    int ret = 0;
    try {
      ret = invoke<S, cpp, true, !cpp>(x, c, c.val).v;
    }
    catch(...) {
      sched = nullptr;
      throw;
    }
    sched = nullptr;
    // replay the history: it must be one chain from init to the final value
    int cur = init, mine = 0;
    const Change * m = nullptr;
    for(auto & ch : s.changes) {
      VP_EQ(ch.before, cur, "harness: broken chain");
      cur = ch.after;
      if(ch.mine) {
        ++mine;
        m = &ch;
      }
    }
    VP_EQ(Obs(x).v, cur, "final value");
    VP_ASSERT(mine <= 1, "the operation changed the variable " << mine << " times");
    if(mine == 1) {
      auto w = plain(c.op, m->before, c.val);
      VP_EQ(m->after, w.first, "value written over " << m->before);
      VP_EQ(ret, w.second, "value returned when " << m->before << " was replaced by " << m->after);
      std::memory_order want = ordered ? c.s : std::memory_order_seq_cst;
      VP_ASSERT(at_least(m->order, want), "requested memory order " << int(want) << ", used " << int(m->order));
    }
    else { // allowed only if it acted on a value it leaves as it is
      bool ok = false;
      for(auto & r : s.reads) {
        auto w = plain(c.op, r.value, c.val);
        ok |= w.first == r.value && w.second == ret;
      }
      VP_ASSERT(ok, "the operation changed nothing and returned " << ret);
    }
    if(two)
      for(auto f : s.failure_orders)
        VP_ASSERT(at_least(f, c.f), "requested failure order " << int(c.f) << ", used " << int(f));
  });
}

// ---- 1b. own schedule, plain types
template<class T>
struct PlainTap : Tap {
  T * x;
  std::vector<Interference> plan;
  std::set<int> fails;
  int access = 0, attempt = 0;
  std::vector<std::pair<long, long>> others;
  std::vector<Change> changes;
  std::vector<long> reads;
  std::vector<int> failure_orders;
  void before() override {
    int k = access++;
    for(auto & i : plan)
      if(i.at == k) {
        int v = int(*x), w = v;
        interfere(w, i.kind, i.val);
        *x = T(w);
        changes.push_back({v, int(*x), false, std::memory_order_seq_cst});
      }
  }
  void loaded(long v) override { reads.push_back(T(v)); }
  bool spurious() override { return fails.count(attempt++) > 0; }
  void swapped(long a, long b, int o) override { changes.push_back({int(T(a)), int(T(b)), true, std::memory_order(o)}); }
  void failed(long v, int o) override {
    reads.push_back(T(v));
    failure_orders.push_back(o);
  }
};
template<class T, class S, bool VOL>
void plain_schedule() {
  constexpr bool weak = std::is_same_v<S, at::weak> || std::is_same_v<S, at::weak::pun>;
  auto c = *call(all_ops(false), N_FORMS);
  int init = *vp::range(0, 100);
  auto plan = *rc::gen::resize(4,
    rc::gen::container<std::vector<Interference>>(rc::gen::apply(
      [](int at_, int k, int v) { return Interference{at_, k, v}; }, vp::range(0, 5), vp::range(0, 3), vp::range(0, 63))));
  std::vector<int> sp;
  if(weak)
    sp = *rc::gen::resize(3, rc::gen::container<std::vector<int>>(vp::range(0, 4)));
  storm(plan, sp, weak);
  bool ordered = c.form >= MEMBER_SYNC, two = c.form >= MEMBER_SF;
  std::string pl;
  for(auto & i : plan)
    pl += " " + std::to_string(i.at) + ":" + std::to_string(i.kind) + "/" + std::to_string(i.val);
  VP_CASE(!plan.empty() || !sp.empty(), op_name[c.op] << " as " << form_name[c.form] << " operand=" << c.val
                                                      << " init=" << init << " order=" << int(c.s) << "," << int(c.f)
                                                      << " interference (access:kind/value):" << pl
                                                      << " spurious=" << vp::str(sp));
  vp::tag(plan.empty() && sp.empty() ? "undisturbed" : "disturbed");
  vp::run([&] {
    using A = std::conditional_t<VOL, volatile at::atomic<T, S>, at::atomic<T, S>>;
    A x{T(init)};
    PlainTap<T> t;
    t.target = &x;
    t.x = reinterpret_cast<T *>(const_cast<at::atomic<T, S> *>(&x));
    t.plan = plan;
    t.fails.insert(sp.begin(), sp.end());
    long ret = 0;
    tap = &t;
    try {
      ret = long(invoke<S, false, true, true>(x, c, c.val));
    }
    catch(...) {
      tap = nullptr;
      throw;
    }
    tap = nullptr;
    auto model = [&](long v) {
      auto w = plain(c.op, int(v), c.val);
      return std::pair<long, long>(T(w.first), T(w.second));
    };
    if(t.access == 0) { // by other means
      VP_EQ(long(T(x)), model(init).first, "final value");
      VP_EQ(ret, model(init).second, "value returned");
      return;
    }
    long cur = init;
    int mine = 0;
    const Change * m = nullptr;
    for(auto & ch : t.changes) {
      VP_EQ(long(ch.before), cur, "the variable changed between two changes");
      cur = ch.after;
      if(ch.mine) {
        ++mine;
        m = &ch;
      }
    }
    VP_EQ(long(T(x)), cur, "final value");
    VP_ASSERT(mine <= 1, "the operation changed the variable " << mine << " times");
    if(mine == 1) {
      VP_EQ(long(m->after), model(m->before).first, "value written over " << m->before);
      VP_EQ(ret, model(m->before).second, "value returned when " << m->before << " was replaced by " << m->after);
      std::memory_order want = ordered ? c.s : std::memory_order_seq_cst;
      VP_ASSERT(at_least(m->order, want), "requested memory order " << int(want) << ", used " << int(m->order));
    }
    else {
      bool ok = false;
      for(auto r : t.reads)
        ok |= model(r) == std::pair<long, long>(r, ret);
      VP_ASSERT(ok, "the operation changed nothing and returned " << ret);
    }
    if(two)
      for(auto f : t.failure_orders)
        VP_ASSERT(at_least(std::memory_order(f), c.f), "requested failure order " << int(c.f) << ", used " << f);
  });
}

// ---- 2. interference inside the value's own operators
template<std::size_t BYTES>
struct Nest {
  using I = std::conditional_t<BYTES == 1, signed char,
    std::conditional_t<BYTES == 2, short, std::conditional_t<BYTES == 4, int, long>>>;
  I v;
  static std::function<void()> hook; // runs in the middle of every operation
  static void mid() {
    if(hook)
      hook();
  }
  Nest & operator+=(int b) {
    I o = v;
    mid();
    v = I(o + b);
    return *this;
  }
  Nest & operator^=(int b) {
    I o = v;
    mid();
    v = I(o ^ b);
    return *this;
  }
  Nest & operator*=(int b) {
    I o = v;
    mid();
    v = I(o * b);
    return *this;
  }
  Nest & operator-=(int b) { return *this += -b; }
  Nest & operator++() { return *this += 1; }
  Nest operator--(int) {
    Nest o = *this;
    *this += -1;
    return o;
  }
  friend Nest operator+(Nest a, int b) { return a += b; }
  friend Nest operator-(Nest a, int b) { return a += -b; }
  friend Nest operator^(Nest a, int b) { return a ^= b; }
  friend Nest operator*(Nest a, int b) { return a *= b; }
  Nest operator++(int) {
    Nest o = *this;
    mid();
    v = I(o.v + 1);
    return o;
  }
  Nest & operator--() {
    I o = v;
    mid();
    v = I(o - 1);
    return *this;
  }
};
template<std::size_t B>
std::function<void()> Nest<B>::hook;

struct NOp {
  int kind; // 0 += 1 ^= 2 *= 3 x++ 4 --x
  int val;
  int via; // which scheme
  int order; // 0 none, 1 sync, 2 success/failure
};
template<class S, class A>
int nest_apply(A & x, const NOp & o) {
  const auto s = std::memory_order_acq_rel, f = std::memory_order_acquire;
#define VARIANTS(nm, ...)                                                      \
  return o.order == 0 ? x.template nm<S>(__VA_ARGS__).v                        \
         : o.order == 1 ? x.template nm<S>(__VA_ARGS__ __VA_OPT__(, ) s).v     \
                        : x.template nm<S>(__VA_ARGS__ __VA_OPT__(, ) s, f).v;
  switch(o.kind) {
  case 0: VARIANTS(add, o.val)
  case 1: VARIANTS(xoreq, o.val)
  case 2: VARIANTS(mul, o.val)
  case 3: VARIANTS(postinc)
  default: VARIANTS(predec)
  }
}
template<class A>
int nest_any(A & x, const NOp & o) {
  switch(o.via) {
  case 0: return nest_apply<at::strong>(x, o);
  case 1: return nest_apply<at::weak>(x, o);
  case 2: return nest_apply<at::strong::pun>(x, o);
  default: return nest_apply<at::weak::pun>(x, o);
  }
}
template<class I>
std::pair<int, int> nest_plain(const NOp & o, int a) {
  switch(o.kind) {
  case 0: return {I(a + o.val), I(a + o.val)};
  case 1: return {I(a ^ o.val), I(a ^ o.val)};
  case 2: return {I(a * o.val), I(a * o.val)};
  case 3: return {I(a + 1), a};
  default: return {I(a - 1), I(a - 1)};
  }
}
rc::Gen<NOp> nop() {
  return rc::gen::apply([](int k, int v, int via, int o) { return NOp{k, v, via, o}; }, vp::range(0, 4),
    vp::range(0, 5), vp::range(0, 3), vp::range(0, 2));
}
std::string show(const NOp & o) {
  const char * n[] = {"+=", "^=", "*=", "x++", "--x"};
  const char * v[] = {"strong", "weak", "strong::pun", "weak::pun"};
  return std::string(n[o.kind]) + (o.kind < 3 ? std::to_string(o.val) : "") + " " + v[o.via] + " order" +
         std::to_string(o.order);
}
// the outer operation is in flight while the others run to completion, in up
// to three rounds; it must take effect after those it overlapped and saw change
template<std::size_t B, bool VOL>
void nested() {
  using N = Nest<B>;
  using I = typename N::I;
  auto outer = *nop();
  auto rounds = *rc::gen::resize(3,
    rc::gen::container<std::vector<std::vector<NOp>>>(rc::gen::resize(3, rc::gen::container<std::vector<NOp>>(nop()))));
  int init = *vp::range(-20, 20);
  std::string t;
  for(auto & r : rounds) {
    t += " [";
    for(auto & o : r)
      t += " " + show(o);
    t += " ]";
  }
  VP_CASE(!rounds.empty(), "outer=" << show(outer) << " init=" << init << " meanwhile" << t);
  vp::run([&] {
    using A = std::conditional_t<VOL, volatile at::atomic<N, at::strong>, at::atomic<N, at::strong>>;
    A x(N{I(init)});
    std::size_t round = 0;
    bool inside = false;
    int model = init;
    int evals = 0;
    std::string err; // the library declares its operations noexcept
    N::hook = [&] {
      if(inside)
        return;
      VP_ASSERT(++evals < 100, "the operation is retried although nothing interferes");
      if(round < rounds.size()) {
        inside = true;
        for(auto & o : rounds[round]) {
          int r = nest_any(x, o);
          auto w = nest_plain<I>(o, model);
          model = w.first;
          if(r != w.second && err.empty())
            err = "operation " + show(o) + " returned " + std::to_string(r) + ", expected " + std::to_string(w.second);
        }
        ++round;
        inside = false;
      }
    };
    int got = nest_any(x, outer);
    N::hook = nullptr;
    VP_ASSERT(err.empty(), err);
    auto w = nest_plain<I>(outer, model);
    VP_EQ(got, w.second, "result of the operation in flight");
    VP_EQ(int(N(x).v), w.first, "final value");
  });
  N::hook = nullptr;
}

// ---- 3. real threads
struct Prog {
  std::vector<std::vector<int>> val; // per thread, per operation
  int rounds;
};
struct Barrier {
  std::atomic<int> n;
  explicit Barrier(int k) : n(k) {}
  void wait() {
    --n;
    while(n.load() > 0) {
    }
  }
};
template<class F>
void on_threads(int n, F f) {
  Barrier b(n);
  std::vector<std::thread> t;
  for(int i = 0; i < n; ++i)
    t.emplace_back([&, i] {
      b.wait();
      f(i);
    });
  for(auto & x : t)
    x.join();
}
struct Pair8 { // a user-defined type of eight bytes
  int a, b;
  Pair8 & operator+=(int k) {
    a += k;
    b += k;
    return *this;
  }
  Pair8 & operator-=(int k) {
    a -= k;
    b -= k;
    return *this;
  }
};
struct Big { // larger than any lock-free compare-and-swap
  long a[4];
  Big & operator+=(int k) {
    for(auto & e : a)
      e += k;
    return *this;
  }
  Big & operator-=(int k) {
    for(auto & e : a)
      e -= k;
    return *this;
  }
};
long num(long v) { return v; }
long num(double v) { return long(v); }
long num(long double v) { return long(v); }
long num(int v) { return v; }
long num(short v) { return v; }
long num(float v) { return long(v); }
long num(unsigned v) { return long(v); }
long num(const Pair8 & v) {
  return v.a == v.b ? v.a : -999999;
}
long num(const Big & v) {
  for(long e : v.a)
    if(e != v.a[0])
      return -999999;
  return v.a[0];
}
int cells[1 << 17];
long num(int * v) { return v - cells; }
template<class T>
T zero() {
  if constexpr(std::is_same_v<T, int *>)
    return cells;
  else if constexpr(std::is_arithmetic_v<T>)
    return T(0);
  else
    return T{};
}
// one increasing addition, in whichever form and scheme
template<class T, class SCHEME, class A>
long bump(A & x, int v, int form, bool mixed) {
  constexpr bool pun_ok = sizeof(T) <= 8;
  if constexpr(!std::is_same_v<SCHEME, at::lock>) {
    if(mixed)
      switch(form % 4) {
      case 0: return num(x.template add<at::strong>(v));
      case 1: return num(at::add<at::weak>(x, v));
      case 2:
        if constexpr(pun_ok)
          return num(x.template add<at::strong::pun>(v));
        else
          return num(x.template add<at::strong>(v));
      default:
        if constexpr(pun_ok)
          return num(at::add<at::weak::pun>(x, v));
        else
          return num(x.template add<at::weak>(v));
      }
  }
  switch(form % 3) {
  case 0: return num(T(x += v));
  case 1: return num(x.add(v));
  default:
    if constexpr(!std::is_same_v<SCHEME, at::lock>)
      return num(at::add(x, v, std::memory_order_acq_rel));
    else
      return num(at::add(x, v));
  }
}
// growing sums: the returned values name the order in which the additions took
// effect; it must be one chain, in program order for each thread
template<class T, class SCHEME>
void growing() {
  int threads = *vp::range(2, 6);
  auto vals = *vp::vec<std::vector<int>>(threads, vp::vec<int>(1, 4, vp::range(1, 3)));
  int form = *vp::range(0, 11);
  bool mixed = *vp::coin();
  int rounds = 60 * vp::effort();
  VP_CASE(threads > 1, threads << " threads adding " << vp::str(vals) << " x" << rounds << " form=" << form
                               << (mixed ? " mixed schemes" : ""));
  vp::run([&] {
    at::atomic<T, SCHEME> x(zero<T>());
    std::vector<std::vector<std::pair<long, int>>> got(threads); // (returned, operand)
    for(auto & g : got)
      g.reserve(rounds * 4);
    std::atomic<bool> bad{false};
    on_threads(threads, [&](int t) {
      int f = form;
      for(int r = 0; r < rounds; ++r)
        for(int v : vals[t])
          got[t].push_back({bump<T, SCHEME>(x, v, f++, mixed), v});
      (void)bad;
    });
    std::vector<std::pair<long, int>> all;
    for(auto & g : got) {
      for(std::size_t i = 1; i < g.size(); ++i)
        VP_ASSERT(g[i].first > g[i - 1].first, "a thread's additions took effect out of order: "
                                                 << g[i - 1].first << " then " << g[i].first);
      all.insert(all.end(), g.begin(), g.end());
    }
    std::sort(all.begin(), all.end());
    long cur = 0;
    for(auto & a : all) {
      VP_ASSERT(a.first == cur + a.second, "an addition of " << a.second << " returned " << a.first
                                                              << ", but the additions before it sum up to " << cur);
      cur = a.first;
    }
    VP_EQ(num(T(x)), cur, "final value");
  });
}
// ups and downs: only the final value is determined
template<class T, class SCHEME>
void updown() {
  int threads = *vp::range(2, 6);
  auto vals = *vp::vec<std::vector<int>>(threads, vp::vec<int>(1, 4, vp::range(-3, 3)));
  int rounds = 100 * vp::effort();
  VP_CASE(threads > 1, threads << " threads adding/subtracting " << vp::str(vals) << " x" << rounds);
  vp::run([&] {
    volatile at::atomic<T, SCHEME> x(zero<T>());
    x += 50000;
    on_threads(threads, [&](int t) {
      for(int r = 0; r < rounds; ++r)
        for(int v : vals[t]) {
          if(v >= 0)
            x += v;
          else
            x.sub(-v);
        }
    });
    long want = 50000;
    for(auto & g : vals)
      for(int v : g)
        want += long(v) * rounds;
    VP_EQ(num(T(x)), want, "final value");
  });
}
// bits, extrema, products: final values
template<class SCHEME>
void bits() {
  int threads = *vp::range(2, 6);
  auto vals = *vp::vec<std::vector<int>>(threads, vp::vec<int>(1, 6, vp::full<int>()));
  int rounds = 60 * vp::effort();
  VP_CASE(threads > 1, threads << " threads with " << vp::str(vals) << " x" << rounds);
  vp::run([&] {
    at::atomic<int, SCHEME> xo(0), orr(0), an(-1), mi(INT32_MAX), ma(INT32_MIN);
    at::atomic<double, SCHEME> pr(1);
    std::atomic<bool> bad{false};
    on_threads(threads, [&](int t) {
      int lo = INT32_MAX, hi = INT32_MIN;
      for(int r = 0; r < rounds; ++r)
        for(std::size_t k = 0; k < vals[t].size(); ++k) {
          int v = vals[t][k];
          if(k == 0 && r % 2)
            ; // odd number of xors for some
          else
            xo ^= v;
          orr |= v;
          an &= v;
          int m = mi.min(v), M = ma.max(v);
          if(m > v || m > lo || M < v || M < hi)
            bad = true;
          lo = m;
          hi = M;
          if(k % 2)
            pr *= 2.0;
          else
            pr.div(2.0);
        }
    });
    int wx = 0, wo = 0, wa = -1, wmi = INT32_MAX, wma = INT32_MIN;
    long e = 0;
    for(auto & g : vals)
      for(std::size_t k = 0; k < g.size(); ++k) {
        if((k == 0 ? (rounds + 1) / 2 : rounds) % 2)
          wx ^= g[k];
        wo |= g[k];
        wa &= g[k];
        wmi = std::min(wmi, g[k]);
        wma = std::max(wma, g[k]);
        e += (k % 2 ? 1 : -1) * rounds;
      }
    VP_EQ(int(xo), wx, "xor");
    VP_EQ(int(orr), wo, "or");
    VP_EQ(int(an), wa, "and");
    VP_EQ(int(mi), wmi, "min");
    VP_EQ(int(ma), wma, "max");
    VP_ASSERT(!bad, "min or max returned a value that a thread had already passed");
    // only exact while the running product stays in range
    if(e > -1000 && e < 1000 && rounds * threads * 3 < 1000)
      VP_EQ(double(pr), std::ldexp(1.0, int(e)), "product");
  });
}
// pre/post increments and decrements: every value is handed out once
template<class T, class SCHEME>
void tickets() {
  int threads = *vp::range(2, 6);
  int rounds = 100 * vp::effort();
  int pre = *vp::range(0, 1), down = *vp::range(0, 1), form = *vp::range(0, 2);
  VP_CASE(true, threads << " threads x" << rounds << (pre ? " pre" : " post") << (down ? "dec" : "inc") << " form "
                        << form);
  vp::run([&] {
    at::atomic<T, SCHEME> x(T(1000));
    std::vector<std::vector<long>> got(threads);
    on_threads(threads, [&](int t) {
      for(int r = 0; r < rounds; ++r) {
        long v = 0;
        switch(form * 4 + pre * 2 + down) {
        case 0: v = num(T(x++)); break;
        case 1: v = num(T(x--)); break;
        case 2: v = num(T(++x)); break;
        case 3: v = num(T(--x)); break;
        case 4: v = num(x.postinc()); break;
        case 5: v = num(x.postdec()); break;
        case 6: v = num(x.preinc()); break;
        case 7: v = num(x.predec()); break;
        case 8: v = num(at::postinc(x)); break;
        case 9: v = num(at::postdec(x)); break;
        case 10: v = num(at::inc(x)); break;
        default: v = num(at::dec(x)); break;
        }
        got[t].push_back(v);
      }
    });
    std::vector<long> all;
    for(auto & g : got) {
      for(std::size_t i = 1; i < g.size(); ++i)
        VP_ASSERT(down ? g[i] < g[i - 1] : g[i] > g[i - 1], "tickets of one thread out of order");
      all.insert(all.end(), g.begin(), g.end());
    }
    std::sort(all.begin(), all.end());
    long n = long(threads) * rounds;
    long first = down ? 1000 - n + (pre ? 0 : 1) : 1000 + (pre ? 1 : 0);
    for(long i = 0; i < n; ++i)
      VP_ASSERT(all[i] == first + i, "ticket " << first + i << " is missing or given out twice (" << all[i] << ")");
    VP_EQ(num(T(x)), down ? 1000 - n : 1000 + n, "final value");
  });
}
// lock: while one thread is inside an operation, no other gets in
struct Gate {
  long v;
  static std::atomic<int> inside, worst;
  Gate & operator+=(int k) {
    int n = ++inside;
    int w = worst.load();
    while(n > w && !worst.compare_exchange_weak(w, n)) {
    }
    for(int i = 0; i < 200 && worst.load() < 2; ++i)
      std::this_thread::yield();
    v += k;
    --inside;
    return *this;
  }
};
std::atomic<int> Gate::inside{0}, Gate::worst{0};
void exclusion() {
  int threads = *vp::range(2, 5);
  int rounds = *vp::range(1, 8);
  int form = *vp::range(0, 3);
  VP_CASE(threads * rounds > 2, threads << " threads x" << rounds << " form " << form);
  vp::run([&] {
    Gate::worst = 0;
    Gate::inside = 0;
    at::atomic<Gate, at::lock> x(Gate{0});
    on_threads(threads, [&](int) {
      for(int r = 0; r < rounds; ++r)
        switch(form) {
        case 0: x += 1; break;
        case 1: x.add(1); break;
        case 2: at::add(x, 1); break;
        default: x.add<at::lock>(1); break;
        }
    });
    VP_ASSERT(Gate::worst.load() <= 1, Gate::worst.load() << " threads were inside the operation at once");
    VP_EQ(Gate(x).v, long(threads) * rounds, "final value");
  });
}
} // namespace
VP_INST("schedule_strong", 600, schedule<at::strong, at::strong, false>);
VP_INST("schedule_strong_volatile", 300, schedule<at::strong, at::strong, true>);
VP_INST("schedule_weak", 600, schedule<at::weak, at::weak, false>);
VP_INST("schedule_weak_volatile", 300, schedule<at::weak, at::weak, true>);
VP_INST("schedule_cpp", 600, schedule<at::cpp, at::cpp, false>);
VP_INST("schedule_cpp_volatile", 300, schedule<at::cpp, at::cpp, true>);
VP_INST("schedule_weak_over_strong", 300, schedule<at::strong, at::weak, false>);
VP_INST("schedule_strong_over_weak", 300, schedule<at::weak, at::strong, true>);
VP_INST("schedule_cpp_over_strong", 300, schedule<at::strong, at::cpp, false>);
VP_INST("plain_int_strong_pun", 300, plain_schedule<int, at::strong::pun, false>);
VP_INST("plain_int_weak_pun", 300, plain_schedule<int, at::weak::pun, true>);
VP_INST("plain_long_weak_pun", 300, plain_schedule<long, at::weak::pun, false>);
VP_INST("plain_long_strong_pun", 300, plain_schedule<long, at::strong::pun, true>);
VP_INST("plain_short_weak_pun", 200, plain_schedule<short, at::weak::pun, false>);
VP_INST("plain_short_strong", 200, plain_schedule<short, at::strong, true>);
VP_INST("plain_char_strong_pun", 200, plain_schedule<unsigned char, at::strong::pun, false>);
VP_INST("plain_uchar_weak", 200, plain_schedule<unsigned char, at::weak, false>);
VP_INST("nested_1", 300, nested<1, false>);
VP_INST("nested_2", 300, nested<2, true>);
VP_INST("nested_4", 300, nested<4, false>);
VP_INST("nested_8", 300, nested<8, true>);
VP_INST("growing_int_strong", 8, growing<int, at::strong>);
VP_INST("growing_long_weak", 8, growing<long, at::weak>);
VP_INST("growing_double_strong", 8, growing<double, at::strong>);
VP_INST("growing_double_weak_pun", 8, growing<double, at::weak::pun>);
VP_INST("growing_float_strong_pun", 8, growing<float, at::strong::pun>);
VP_INST("growing_longdouble_weak", 4, growing<long double, at::weak>);
VP_INST("growing_pointer_strong", 8, growing<int *, at::strong>);
VP_INST("growing_long_cpp", 8, growing<long, at::cpp>);
VP_INST("growing_pair_strong_pun", 8, growing<Pair8, at::strong::pun>);
VP_INST("growing_pair_lock", 8, growing<Pair8, at::lock>);
VP_INST("growing_big_strong", 4, growing<Big, at::strong>);
VP_INST("growing_big_lock", 8, growing<Big, at::lock>);
VP_INST("growing_double_lock", 8, growing<double, at::lock>);
VP_INST("updown_int_weak", 6, updown<int, at::weak>);
VP_INST("updown_double_strong", 6, updown<double, at::strong>);
VP_INST("updown_double_strong_pun", 6, updown<double, at::strong::pun>);
VP_INST("updown_unsigned_cpp", 6, updown<unsigned, at::cpp>);
VP_INST("updown_long_lock", 6, updown<long, at::lock>);
VP_INST("bits_strong", 4, bits<at::strong>);
VP_INST("bits_weak", 4, bits<at::weak>);
VP_INST("bits_strong_pun", 4, bits<at::strong::pun>);
VP_INST("bits_weak_pun", 4, bits<at::weak::pun>);
VP_INST("bits_lock", 4, bits<at::lock>);
VP_INST("tickets_int_strong", 5, tickets<int, at::strong>);
VP_INST("tickets_long_weak_pun", 5, tickets<long, at::weak::pun>);
VP_INST("tickets_double_weak", 5, tickets<double, at::weak>);
VP_INST("tickets_long_cpp", 5, tickets<long, at::cpp>);
VP_INST("tickets_int_strong_pun", 5, tickets<int, at::strong::pun>);
VP_INST("tickets_int_lock", 5, tickets<int, at::lock>);
VP_INST("exclusion", 6, exclusion);

// A02: on one thread, every atomic operation is the plain operation - in every
// scheme, form, memory order and cv-qualification, for every value type.
// Histories of operations on one variable are run against a plain value.
#pragma once
#include "vp.h"
#include <atomic>
#include <iostream>
#include <sstream>
#include "atomics.h"
namespace at = ristra::atomics;

namespace a02 {
enum Op { ADD, SUB, MUL, DIV, MIN, MAX, PREINC, POSTINC, PREDEC, POSTDEC, INC, DEC, MOD, SHL, SHR, AND, OR, XOR,
  ASSIGN, STORE, EXCHANGE, CAS, REF, PRINT, N_OPS };
inline const char * op_name[] = {"add", "sub", "mul", "div", "min", "max", "preinc", "postinc", "predec", "postdec",
  "inc", "dec", "mod", "lshift", "rshift", "andeq", "oreq", "xoreq", "assign", "store", "exchange", "cas", "ref",
  "print"};
enum Form { OPERATOR, MEMBER, FUNCTION, MEMBER_SYNC, FUNCTION_SYNC, MEMBER_SF, FUNCTION_SF, V_OPERATOR, V_MEMBER,
  N_FORMS };
inline const char * form_name[] = {"operator", "member", "function", "member(sync)", "function(sync)",
  "member(success,failure)", "function(success,failure)", "volatile operator", "volatile member"};
enum Scheme { OWN, STRONG, STRONG_PUN, WEAK, WEAK_PUN, LOCK, SERIAL, CPP, N_SCHEMES };
inline const char * scheme_name[] = {"own", "strong", "strong::pun", "weak", "weak::pun", "lock", "serial", "cpp"};
struct Step {
  Op op;
  Form form;
  Scheme scheme;
  int raw;
  int order;
};
inline const std::memory_order orders[] = {std::memory_order_relaxed, std::memory_order_acquire,
  std::memory_order_release, std::memory_order_acq_rel, std::memory_order_seq_cst};

// A user-defined value type and a different operand type for it.
struct By {
  int v;
};
inline std::ostream & operator<<(std::ostream & os, const By & b) { return os << "by " << b.v; }
struct User { // v counts, w remembers the operations: both must arrive
  int v = 0;
  unsigned w = 0;
  User() = default;
  User(int v_, unsigned w_) : v(v_), w(w_) {}
  explicit User(const By & b) : v(b.v), w(7) {}
#define A02_USER(op, k)                                                        \
  User & operator op(const By & b) {                                           \
    v op b.v;                                                                  \
    w = w * 31 + k;                                                            \
    return *this;                                                              \
  }
  A02_USER(+=, 1) A02_USER(-=, 2) A02_USER(*=, 3) A02_USER(/=, 4) A02_USER(%=, 5) A02_USER(<<=, 6) A02_USER(>>=, 7)
  A02_USER(&=, 8) A02_USER(|=, 9) A02_USER(^=, 10)
#undef A02_USER
  User & operator++() {
    ++v;
    w = w * 31 + 11;
    return *this;
  }
  User operator++(int) {
    User o = *this;
    v += 1;
    w = w * 31 + 11;
    return o;
  }
  User & operator--() {
    --v;
    w = w * 31 + 13;
    return *this;
  }
  User operator--(int) {
    User o = *this;
    v -= 1;
    w = w * 31 + 13;
    return o;
  }
  bool operator==(const User & o) const { return v == o.v && w == o.w; }
  bool operator!=(const User & o) const { return !(*this == o); }
};
#define A02_CMP(op)                                                            \
  inline bool operator op(const User & a, const By & b) { return a.v op b.v; } \
  inline bool operator op(const By & b, const User & a) { return b.v op a.v; }
A02_CMP(<) A02_CMP(>) A02_CMP(<=) A02_CMP(>=)
#undef A02_CMP
#define A02_BIN(op, ass)                                                       \
  inline User operator op(User a, const By & b) { return a ass b; }
A02_BIN(+, +=) A02_BIN(-, -=) A02_BIN(*, *=) A02_BIN(/, /=) A02_BIN(%, %=) A02_BIN(<<, <<=) A02_BIN(>>, >>=)
A02_BIN(&, &=) A02_BIN(|, |=) A02_BIN(^, ^=)
#undef A02_BIN
inline std::ostream & operator<<(std::ostream & os, const User & u) { return os << u.v << "/" << u.w; }

template<class T>
constexpr bool integral = std::is_integral_v<T>;
template<class T>
constexpr bool pointer = std::is_pointer_v<T>;
constexpr bool cpp_op(Op op) {
  return op == ADD || op == SUB || op == AND || op == OR || op == XOR || (op >= PREINC && op <= DEC);
}
template<class T>
constexpr bool has(Op op) {
  if(op >= ASSIGN)
    return true;
  if(op >= MOD)
    return integral<T> || std::is_same_v<T, User>;
  if(op == MUL || op == DIV)
    return !pointer<T>;
  return true;
}
// the operation on a plain value; returns what it returns
template<Op OP, class T, class X>
T plain(T & t, X x) {
  if constexpr(OP == ADD)
    return t += x;
  else if constexpr(OP == SUB)
    return t -= x;
  else if constexpr(OP == MUL)
    return t *= x;
  else if constexpr(OP == DIV)
    return t /= x;
  else if constexpr(OP == MOD)
    return t %= x;
  else if constexpr(OP == SHL)
    return t <<= x;
  else if constexpr(OP == SHR)
    return t >>= x;
  else if constexpr(OP == AND)
    return t &= x;
  else if constexpr(OP == OR)
    return t |= x;
  else if constexpr(OP == XOR)
    return t ^= x;
  else if constexpr(OP == MIN)
    return t = (x < t ? T(x) : t);
  else if constexpr(OP == MAX)
    return t = (t < x ? T(x) : t);
  else if constexpr(OP == PREINC || OP == INC)
    return ++t;
  else if constexpr(OP == PREDEC || OP == DEC)
    return --t;
  else if constexpr(OP == POSTINC)
    return t++;
  else if constexpr(OP == POSTDEC)
    return t--;
}
template<Op OP, class A, class X>
auto by_operator(A & x, X v) {
  if constexpr(OP == ADD)
    return x += v;
  else if constexpr(OP == SUB)
    return x -= v;
  else if constexpr(OP == MUL)
    return x *= v;
  else if constexpr(OP == DIV)
    return x /= v;
  else if constexpr(OP == MOD)
    return x %= v;
  else if constexpr(OP == SHL)
    return x <<= v;
  else if constexpr(OP == SHR)
    return x >>= v;
  else if constexpr(OP == AND)
    return x &= v;
  else if constexpr(OP == OR)
    return x |= v;
  else if constexpr(OP == XOR)
    return x ^= v;
  else if constexpr(OP == MIN)
    return x.min(v);
  else if constexpr(OP == MAX)
    return x.max(v);
  else if constexpr(OP == PREINC)
    return ++x;
  else if constexpr(OP == INC)
    return x.inc();
  else if constexpr(OP == PREDEC)
    return --x;
  else if constexpr(OP == DEC)
    return x.dec();
  else if constexpr(OP == POSTINC)
    return x++;
  else
    return x--;
}
#define A02_NAMED(MAC)                                                         \
  MAC(ADD, add) MAC(SUB, sub) MAC(MUL, mul) MAC(DIV, div) MAC(MOD, mod) MAC(SHL, lshift) MAC(SHR, rshift) \
  MAC(AND, andeq) MAC(OR, oreq) MAC(XOR, xoreq) MAC(MIN, min) MAC(MAX, max)
#define A02_UNARY(MAC)                                                         \
  MAC(PREINC, preinc) MAC(POSTINC, postinc) MAC(PREDEC, predec) MAC(POSTDEC, postdec) MAC(INC, inc) MAC(DEC, dec)
template<Op OP, class S, class A, class X, class... O>
auto by_member(A & x, X v, O... o) {
  (void)v;
#define M(OPC, nm)                                                             \
  if constexpr(OP == OPC)                                                      \
    return x.template nm<S>(v, o...);                                          \
  else
  A02_NAMED(M)
#undef M
#define M(OPC, nm)                                                             \
  if constexpr(OP == OPC)                                                      \
    return x.template nm<S>(o...);                                             \
  else
  A02_UNARY(M)
#undef M
  static_assert(OP < ASSIGN, "");
}
template<Op OP, class S, class A, class X, class... O>
auto by_function(A & x, X v, O... o) {
  (void)v;
#define M(OPC, nm)                                                             \
  if constexpr(OP == OPC)                                                      \
    return at::nm<S>(x, v, o...);                                              \
  else
  A02_NAMED(M)
#undef M
#define M(OPC, nm)                                                             \
  if constexpr(OP == OPC)                                                      \
    return at::nm<S>(x, o...);                                                 \
  else
  A02_UNARY(M)
#undef M
  static_assert(OP < ASSIGN, "");
}
template<class T>
bool same(const T & a, const T & b) {
  if constexpr(std::is_floating_point_v<T>)
    if(a != a || b != b)
      return a != a && b != b;
  return a == b;
}
template<class T>
std::string text(const T & v) {
  if constexpr(std::is_arithmetic_v<T>)
    return vp::str(v);
  else if constexpr(pointer<T>)
    return std::to_string((unsigned long)v);
  else {
    std::ostringstream os;
    os << v;
    return os.str();
  }
}
template<class A>
constexpr bool own_is_cpp = false;
template<class T, std::size_t N>
constexpr bool own_is_cpp<at::atomic<T, at::cpp, N>> = true;
// S: scheme named in the call
template<Op OP, class S, bool SYNC, bool SF, class A, class T, class X>
void one(A & x, T & model, X v, const Step & st) {
  const T before = model;
  T want = plain<OP>(model, v);
  T got{};
  const std::memory_order s = orders[st.order % 5];
  const std::memory_order f = s == std::memory_order_seq_cst  ? std::memory_order_seq_cst
                              : s == std::memory_order_acq_rel ? std::memory_order_acquire
                                                               : std::memory_order_relaxed;
  // (the user-defined type has no volatile members)
  std::conditional_t<std::is_same_v<T, User>, A, volatile A> & vx = x;
  // std::atomic's own ++ and -- take no memory order
  constexpr bool ord = SYNC && !(std::is_same_v<S, at::cpp> && OP >= PREINC && OP <= DEC);
  constexpr bool has_operator = cpp_op(OP) || !own_is_cpp<A>;
  switch(st.form) {
  case OPERATOR:
    if constexpr(has_operator)
      got = by_operator<OP>(x, v);
    break;
  case V_OPERATOR:
    if constexpr(has_operator)
      got = by_operator<OP>(vx, v);
    break;
  case V_MEMBER: got = by_member<OP, S>(vx, v); break;
  case FUNCTION: got = by_function<OP, S>(x, v); break;
  case MEMBER_SYNC:
    if constexpr(ord)
      got = by_member<OP, S>(x, v, s);
    else
      got = by_member<OP, S>(x, v);
    break;
  case FUNCTION_SYNC:
    if constexpr(ord)
      got = by_function<OP, S>(vx, v, s);
    else
      got = by_function<OP, S>(vx, v);
    break;
  case MEMBER_SF:
    if constexpr(SF)
      got = by_member<OP, S>(vx, v, s, f);
    else
      got = by_member<OP, S>(x, v);
    break;
  case FUNCTION_SF:
    if constexpr(SF)
      got = by_function<OP, S>(x, v, s, f);
    else
      got = by_function<OP, S>(x, v);
    break;
  default: got = by_member<OP, S>(x, v); break;
  }
  VP_ASSERT(same(got, want), op_name[OP] << " of " << text(before) << " and " << text(v) << " returned " << text(got)
                                         << ", expected " << text(want));
  VP_ASSERT(same(T(x), model), op_name[OP] << " of " << text(before) << " and " << text(v) << " left " << text(T(x))
                                           << ", expected " << text(model));
}
template<Op OP, class A, class T, class X>
void one_named(A & x, T & model, X v, const Step & st);
template<Op OP, class OWNS, class A, class T, class X>
void with_scheme(A & x, T & model, X v, const Step & st) {
  constexpr bool cas_own = !std::is_same_v<OWNS, at::lock> && !std::is_same_v<OWNS, at::serial>;
  constexpr bool own_cpp = std::is_same_v<OWNS, at::cpp>;
  Scheme s = st.scheme;
  if(st.form == OPERATOR || st.form == V_OPERATOR)
    s = OWN;
  switch(s) {
  case STRONG: return one<OP, at::strong, true, true>(x, model, v, st);
  case WEAK: return one<OP, at::weak, true, true>(x, model, v, st);
  case LOCK: return one<OP, at::lock, false, false>(x, model, v, st);
  case SERIAL: return one<OP, at::serial, false, false>(x, model, v, st);
  case STRONG_PUN:
    if constexpr(sizeof(T) <= 8)
      return one<OP, at::strong::pun, true, true>(x, model, v, st);
    break;
  case WEAK_PUN:
    if constexpr(sizeof(T) <= 8)
      return one<OP, at::weak::pun, true, true>(x, model, v, st);
    break;
  case CPP:
    if constexpr((integral<T> || pointer<T>)&&cpp_op(OP))
      return one<OP, at::cpp, true, false>(x, model, v, st);
    break;
  default: break;
  }
  if constexpr(!own_cpp)
    return one<OP, OWNS, cas_own, cas_own>(x, model, v, st);
  else if constexpr(cpp_op(OP))
    return one<OP, at::cpp, true, false>(x, model, v, st);
  else { // the cpp scheme has no such operation; name another
    Step t = st;
    if(t.form == OPERATOR || t.form == V_OPERATOR)
      t.form = MEMBER;
    return one_named<OP>(x, model, v, t);
  }
}
// operand of an operation on the current value, defined for every type
template<class T, class X>
X operand(Op op, const T & cur, int raw) {
  (void)cur;
  int m = raw < 0 ? -raw : raw;
  if constexpr(std::is_same_v<X, By>)
    return By{operand<int, int>(op, 1, raw)};
  else
  switch(op) {
  case DIV: case MOD: return X(raw % 7 == 0 ? 1 : raw % 7);
  case SHL: case SHR: return X(m % 4);
  case MUL: return X(raw % 5);
  default:
    if constexpr(std::is_floating_point_v<X>)
      return X(raw % 100) / 4;
    return X(raw % 100);
  }
}
template<class T>
T value(int raw) {
  if constexpr(std::is_same_v<T, int *>) {
    static int cells[4096];
    return cells + 2048 + raw % 500;
  }
  else if constexpr(std::is_same_v<T, User>)
    return User(raw, 3);
  else if constexpr(std::is_same_v<T, By>)
    return By{raw};
  else if constexpr(std::is_floating_point_v<T>) {
    using L = std::numeric_limits<T>;
    const T special[] = {L::infinity(), -L::infinity(), L::quiet_NaN(), L::max() / 4, L::lowest(), L::denorm_min(),
      L::min(), T(1) / 3, T(1e10) + 1};
    return raw > 100 ? special[raw % 9] : T(raw) / 8;
  }
  else {
    using L = std::numeric_limits<T>;
    const T special[] = {L::max(), L::min(), T(L::max() - 1), T(L::min() + 1), T(L::max() / 2), T(L::max() / 2 + 1)};
    return raw > 100 ? special[raw % 6] : T(raw);
  }
}
// keep the running value where every operation is defined
template<class T>
bool in_range(Op op, const T & v) {
  if constexpr(integral<T>) {
    if(op == MIN || op == MAX || op == AND || op == OR || op == XOR)
      return true;
    if(op == SHL || op == SHR)
      return v >= 0 && v < T(1 << (sizeof(T) == 1 ? 3 : 12));
    if constexpr(sizeof(T) >= 4)
      return std::is_unsigned_v<T> || (v < 100000 && v > T(-100000));
    return true;
  }
  else if constexpr(std::is_same_v<T, User>) {
    if(op == SHL || op == SHR)
      return v.v >= 0 && v.v < 4096;
    return v.v < 100000 && v.v > -100000;
  }
  else if constexpr(std::is_same_v<T, int *>)
    return v > value<T>(0) - 1800 && v < value<T>(0) + 1800;
  else
    return true;
}
// the operand may have another type, which can hold what T cannot
template<Op OP, class OWNS, class X, class A, class T>
void minmax(A & x, T & model, const Step & st) {
  if constexpr(std::is_same_v<T, User>)
    with_scheme<OP, OWNS>(x, model, value<X>(st.raw), st);
  else if constexpr(integral<T> && integral<X>) {
    if(st.order % 2)
      with_scheme<OP, OWNS>(x, model, value<X>(st.raw), st);
    else
      with_scheme<OP, OWNS>(x, model, value<T>(st.raw), st);
  }
  else
    with_scheme<OP, OWNS>(x, model, value<T>(st.raw), st);
}
template<class T, class OWNS, class X>
void history(const std::vector<Step> & steps, int init) {
  using A = at::atomic<T, OWNS>;
  T model = value<T>(init);
  A x(model);
  VP_ASSERT(same(T(x), model), "constructed with " << text(model) << ", holds " << text(T(x)));
  for(const auto & st : steps) {
    if constexpr(std::is_floating_point_v<T>)
      if(st.raw % 2 == 0 && (!(std::abs(model) < 1e12) || (model != 0 && std::abs(model) < 1e-12)))
        x = model = T(1.5);
    if(st.op < ASSIGN && !in_range(st.op, model)) {
      model = value<T>((st.raw < 0 ? -st.raw : st.raw) % 7);
      x = model;
    }
    switch(st.op) {
#define M(OPC, nm)                                                             \
  case OPC:                                                                    \
    if constexpr(has<T>(OPC)) {                                                \
      if constexpr(OPC == MIN || OPC == MAX)                                   \
        minmax<OPC, OWNS, X>(x, model, st);                                    \
      else                                                                     \
        with_scheme<OPC, OWNS>(x, model, operand<T, X>(OPC, model, st.raw), st); \
    }                                                                          \
    break;
      A02_NAMED(M)
      A02_UNARY(M)
#undef M
    case ASSIGN: {
      T v = value<T>(st.raw);
      T r = st.order % 2 ? (x = v) : (const_cast<std::conditional_t<std::is_same_v<T, User>, A, volatile A> &>(x) = v);
      model = v;
      VP_ASSERT(same(r, v), "assignment returned " << text(r));
      break;
    }
    case STORE:
      model = value<T>(st.raw);
      x.store(model);
      break;
    case EXCHANGE: {
      T v = value<T>(st.raw), r = x.exchange(v);
      VP_ASSERT(same(r, model), "exchange returned " << text(r));
      model = v;
      break;
    }
    case CAS: {
      T v = value<T>(st.raw), expect = st.order % 2 ? model : value<T>(st.raw + 1);
      if constexpr(sizeof(T) <= 8) { // no padding
        bool should = std::memcmp(&expect, &model, sizeof(T)) == 0;
        bool ok = x.compare_exchange_strong(expect, v);
        VP_EQ(ok, should, "compare_exchange_strong");
        if(ok)
          model = v;
        else
          VP_ASSERT(same(expect, model), "compare_exchange_strong reported " << text(expect));
      }
      break;
    }
    case REF:
      VP_ASSERT(same(x.ref(), model), "ref() reads " << text(x.ref()));
      if(st.order % 2)
        x.ref() = model = value<T>(st.raw);
      VP_ASSERT(same(x.load(), model) && same(T(x.base()), model), "load after ref()");
      {
        const A & cx = x;
        const std::conditional_t<std::is_same_v<T, User>, A, volatile A> & cvx = x;
        VP_ASSERT(same(T(cx), model) && same(T(cvx), model) && same(cx.ref(), model) && same(T(cvx.ref()), model),
          "conversion to a value");
      }
      break;
    default:
      if constexpr(!std::is_same_v<T, int *>) {
        if(!(model == model))
          break; // the sign of a NaN is anybody's
        std::ostringstream a, b;
        a << x;
        b << model;
        VP_EQ(a.str(), b.str(), "printed");
      }
    }
    VP_ASSERT(same(T(x), model), "after " << op_name[st.op] << ": holds " << text(T(x)) << ", expected "
                                          << text(model));
  }
}
template<Op OP, class A, class T, class X>
void one_named(A & x, T & model, X v, const Step & st) {
  one<OP, at::strong, true, true>(x, model, v, st);
}
template<class T, class OWNS, class X>
void property() {
  auto steps = *vp::seq<Step>(12,
    rc::gen::apply(
      [](int op, int form, int scheme, int raw, int order) {
        return Step{Op(op), Form(form), Scheme(scheme), raw, order};
      },
      rc::gen::weightedOneOf<int>({{6, vp::range<int>(0, ASSIGN - 1)}, {1, vp::range<int>(ASSIGN, N_OPS - 1)}}),
      vp::range<int>(0, N_FORMS - 1), vp::range<int>(0, N_SCHEMES - 1), vp::range<int>(-120, 120),
      vp::range<int>(0, 4)));
  int init = *vp::range(-100, 100);
  std::string t;
  for(auto & s : steps)
    t += std::string(" ") + op_name[s.op] + "/" + form_name[s.form] + "/" + scheme_name[s.scheme] + "/" +
         std::to_string(s.raw) + "/o" + std::to_string(s.order);
  VP_CASE(steps.size() > 1, "init=" << init << t);
  vp::run([&] { history<T, OWNS, X>(steps, init); });
}
} // namespace a02

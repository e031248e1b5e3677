// Included before everything else: lets a harness watch and steer the atomic
// accesses that the C++ library makes through the compiler.
#pragma once
struct Tap { // what happens at the accesses of one object
  const volatile void * target;
  virtual void before() = 0;
  virtual void loaded(long v) = 0;
  virtual bool spurious() = 0;
  virtual void swapped(long from, long to, int order) = 0;
  virtual void failed(long saw, int order) = 0;
};
inline thread_local Tap * tap = nullptr;
template<class P>
auto tap_load(P * p, int m) {
  if(!tap || tap->target != (const volatile void *)p)
    return __atomic_load_n(p, m);
  tap->before();
  auto v = __atomic_load_n(p, m);
  tap->loaded((long)v);
  return v;
}
template<class P, class E, class D>
bool tap_cas(P * p, E * e, D d, bool weak, int s, int f) {
  if(!tap || tap->target != (const volatile void *)p)
    return __atomic_compare_exchange_n(p, e, d, weak, s, f);
  tap->before();
  E v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
  if(v == *e && !(weak && tap->spurious())) {
    __atomic_store_n(p, d, __ATOMIC_SEQ_CST);
    tap->swapped((long)v, (long)d, s);
    return true;
  }
  *e = v;
  tap->failed((long)v, f);
  return false;
}
#define __atomic_load_n(p, m) tap_load(p, m)
#define __atomic_compare_exchange_n(p, e, d, w, s, f) tap_cas(p, e, d, w, s, f)

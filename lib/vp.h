// Common support for the property harnesses (see DESIGN.md, "Machinery").
//
// A harness registers named sub-properties.  Each one draws a case from
// rapidcheck generators, describes it with VP_CASE, and then decides it inside
// vp::run([&]{...}); the code under test is only ever called in there.
//
//   VP_PROP(name, quick_cases) {
//     auto n = *vp::range(0, 5);
//     VP_CASE(n > 0, "n=" << n);
//     vp::run([&] { VP_ASSERT(f(n) == n, "f changed n: " << f(n)); });
//   }
//
// Two passes: the first runs in-process.  If it dies (sanitizer report, signal,
// exit, hang) the second pass runs the same seed and forks around every
// vp::run from the fatal case on, so rapidcheck can shrink a crash as well.
#pragma once
#include <rapidcheck.h>

#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iomanip>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace vp {

struct Failure : std::runtime_error {
  using std::runtime_error::runtime_error;
};

using Body = void (*)();
struct Registrar {
  Registrar(const char * name, double cases, Body b, int max_size);
};

// bookkeeping, vp_main.cc
void note_case(bool nontrivial, const std::string & text);
void tag(const std::string & label);
void run(const std::function<void()> & f);
bool isolated();
std::string scratch(); // existing directory for files of this run
int effort(); // 1 for quick, larger for thorough (iterations inside a case)

// ---------------------------------------------------------------- printing
template<class T>
inline void put(std::ostream & os, const T & v);
template<class T>
inline std::string str(const T & v) {
  std::ostringstream os;
  put(os, v);
  return os.str();
}
template<class T, class = void>
struct is_range : std::false_type {};
template<class T>
struct is_range<T,
  std::void_t<decltype(std::declval<const T &>().begin()),
    decltype(std::declval<const T &>().end())>> : std::true_type {};
inline void put_string(std::ostream & os, const std::string & s) {
  os << '"';
  for(unsigned char c : s) {
    if(c == '"' || c == '\\')
      os << '\\' << c;
    else if(c < 32 || c >= 127)
      os << "\\x" << std::hex << std::setw(2) << std::setfill('0') << int(c)
         << std::dec << std::setfill(' ');
    else
      os << c;
  }
  os << '"';
}
template<class T>
inline void put(std::ostream & os, const T & v) {
  if constexpr(std::is_same_v<T, bool>)
    os << (v ? "true" : "false");
  else if constexpr(std::is_same_v<T, char> || std::is_same_v<T, signed char> ||
                    std::is_same_v<T, unsigned char>)
    os << int(v);
  else if constexpr(std::is_floating_point_v<T>)
    os << std::setprecision(std::numeric_limits<T>::max_digits10) << v;
  else if constexpr(std::is_same_v<T, std::string>)
    put_string(os, v);
  else if constexpr(is_range<T>::value) {
    os << '[';
    bool first = true;
    for(const auto & e : v) {
      if(!first)
        os << ',';
      first = false;
      put(os, e);
    }
    os << ']';
  }
  else
    os << v;
}
template<class A, class B>
inline void put(std::ostream & os, const std::pair<A, B> & v) {
  os << '(';
  put(os, v.first);
  os << ',';
  put(os, v.second);
  os << ')';
}

// ---------------------------------------------------------------- generators
// Size-independent uniform range, both ends included.
template<class T>
inline rc::Gen<T> range(T lo, T hi) {
  return rc::gen::resize(
    1000, rc::gen::cast<T>(rc::gen::inRange<long long>(
            (long long)lo, (long long)hi + 1)));
}
template<class T>
inline rc::Gen<T> full() { // any value of an integral type, boundary-biased
  using L = std::numeric_limits<T>;
  return rc::gen::resize(100,
    rc::gen::weightedOneOf<T>({{6, rc::gen::cast<T>(rc::gen::arbitrary<T>())},
      {2, rc::gen::element<T>(L::min(), L::max(), T(0), T(1), T(L::max() - 1),
            T(L::min() + 1), T(L::max() / 2), T(-1))},
      {2, rc::gen::cast<T>(rc::gen::inRange<int>(0, 120))}}));
}
inline rc::Gen<bool> coin() {
  return rc::gen::resize(100, rc::gen::arbitrary<bool>());
}
template<class T>
inline rc::Gen<std::vector<T>> vec(std::size_t n, rc::Gen<T> g) {
  return rc::gen::container<std::vector<T>>(n, std::move(g));
}
template<class T>
inline rc::Gen<std::vector<T>> vec(std::size_t lo, std::size_t hi, rc::Gen<T> g) {
  return rc::gen::mapcat(range<std::size_t>(lo, hi),
    [g](std::size_t n) { return rc::gen::container<std::vector<T>>(n, g); });
}
// Operation sequences: up to n elements, shrinks by dropping elements.
template<class T>
inline rc::Gen<std::vector<T>> seq(int n, rc::Gen<T> g) {
  return rc::gen::resize(n, rc::gen::container<std::vector<T>>(std::move(g)));
}
// A double k/den with |k| <= num: exactly representable when den is a power of
// two, which makes sums and products of a few of them exact.
inline rc::Gen<double> dyadic(int num, int den) {
  return rc::gen::map(range<int>(-num, num), [den](int k) { return double(k) / den; });
}
// A power of two to multiply generated reals with (exactly): results must not
// depend on the magnitude of the operands.
inline rc::Gen<double> scale(int max_exp = 150) {
  std::vector<double> e{1.0};
  for(int k : {4, 14, 30, 45, 60, 100, 150})
    if(k <= max_exp) {
      e.push_back(std::ldexp(1.0, -k));
      e.push_back(std::ldexp(1.0, k));
    }
  return rc::gen::weightedOneOf<double>({{3, rc::gen::just(1.0)}, {2, rc::gen::elementOf(e)}});
}
inline std::vector<double> times(double s, std::vector<double> v) {
  for(auto & x : v)
    x *= s;
  return v;
}
// Sizes at which counters and buffers of usual widths come to their end.
inline rc::Gen<int> large(int max) {
  std::vector<int> v;
  for(int p : {16, 32, 64, 100, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 2048, 4095, 4096, 8192, 10000,
        16384, 32767, 32768, 65535, 65536, 100000})
    for(int d : {-1, 0, 1, 2})
      if(p + d <= max)
        v.push_back(p + d);
  return rc::gen::oneOf(rc::gen::elementOf(v), range<int>(max / 2, max));
}
// Cheap repeatable data for large cases; the seed is the generated part.
struct Lcg {
  std::uint64_t s;
  explicit Lcg(std::uint64_t seed) : s(seed * 2862933555777941757ull + 3037000493ull) {}
  std::uint32_t next() {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    return std::uint32_t(s >> 33);
  }
  int upto(int n) { return int(next() % std::uint32_t(n)); } // 0 .. n-1
};
// A "rough" real in [lo,hi] with full mantissa.
inline rc::Gen<double> real(double lo, double hi) {
  return rc::gen::map(range<int>(0, 1 << 30),
    [=](int k) { return lo + (hi - lo) * (double(k) / double(1 << 30)); });
}
template<class T>
inline rc::Gen<T> of(std::vector<T> v) {
  return rc::gen::elementOf(std::move(v));
}

// ---------------------------------------------------------------- oracles
template<class A, class B>
inline bool close(A a, B b, double tol) { // |a-b| <= tol; NaN never close
  return std::abs(double(a) - double(b)) <= tol;
}

} // namespace vp

#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
#define VP_PROP_SIZE(name, cases, size)                                        \
  static void name##_body();                                                   \
  static vp::Registrar name##_reg(#name, cases, name##_body, size);            \
  static void name##_body()
#define VP_PROP(name, cases) VP_PROP_SIZE(name, cases, 100)
// same for a function template instance: VP_PROP_INST(label, cases, fn<T>)
#define VP_INST(label, cases, ...)                                             \
  static vp::Registrar VP_CAT(vp_reg_, __COUNTER__)(                           \
    label, cases, +[] { __VA_ARGS__(); }, 100)

#define VP_CASE(nontrivial, text)                                              \
  do {                                                                         \
    std::ostringstream vp_os_;                                                 \
    vp_os_ << std::setprecision(17) << text;                                   \
    vp::note_case((nontrivial), vp_os_.str());                                 \
  } while(0)
#define VP_FAIL(msg)                                                           \
  do {                                                                         \
    std::ostringstream vp_os_;                                                 \
    vp_os_ << std::setprecision(17) << msg;                                    \
    throw vp::Failure(vp_os_.str());                                           \
  } while(0)
#define VP_ASSERT(cond, msg)                                                   \
  do {                                                                         \
    if(!(cond))                                                                \
      VP_FAIL(msg << "   [" #cond "]");                                        \
  } while(0)
#define VP_EQ(got, want, what)                                                 \
  do {                                                                         \
    const auto vp_g_ = (got);                                                  \
    const auto vp_w_ = (want);                                                 \
    if(!(vp_g_ == vp_w_))                                                      \
      VP_FAIL(what << ": got " << vp::str(vp_g_) << ", expected "              \
                   << vp::str(vp_w_));                                         \
  } while(0)
#define VP_NEAR(got, want, tol, what)                                          \
  do {                                                                         \
    double vp_g_ = (got), vp_w_ = (want), vp_t_ = (tol);                       \
    if(!(std::abs(vp_g_ - vp_w_) <= vp_t_))                                    \
      VP_FAIL(what << ": got " << vp_g_ << ", expected " << vp_w_ << " +- "    \
                   << vp_t_);                                                  \
  } while(0)
// the statement must throw an exception of the given type
#define VP_THROWS(type, stmt, what)                                            \
  do {                                                                         \
    bool vp_thrown_ = false;                                                   \
    try {                                                                      \
      stmt;                                                                    \
    }                                                                          \
    catch(const type &) {                                                      \
      vp_thrown_ = true;                                                       \
    }                                                                          \
    if(!vp_thrown_)                                                            \
      VP_FAIL(what << ": no " #type " was thrown");                            \
  } while(0)

// Y01: embedded Python: histories of imports, calls, conversions and errors.
#include "vp.h"
#include <fstream>
#include <iostream>
#include <map>
#include <sys/stat.h>
#include <unistd.h>
#include <variant>
#include "ristra/embedded/embed_python.h"
namespace em = ristra::embedded;

namespace {
using Num = std::variant<int, long, double>;
enum Op { ECHO, ADD, COUNT, NOARGS, RAISE, NOT_CALLABLE, NO_ATTR, NO_MODULE, BAD_STRING, IMPORT, TUPLE, TUPLE_RANGE,
  BAD_VALUE, HOLD, LEAK, N_OPS };
const char * op_name[] = {"echo", "add", "count", "no arguments", "raise", "not callable", "no attribute", "no module",
  "bad string", "import", "tuple", "tuple range", "bad value", "hold", "repeat"};
struct Step {
  Op op;
  std::vector<Num> args;
  int n;
  bool flag;
};
const char * prelude = R"(
import gc, sys, math
class Sink:
    def write(self, s): pass
    def flush(self): pass
sys.stderr = Sink()
sys.stdout = Sink()
counter = 0
held = ()
def echo(*a): return a
def add(a, b): return a + b
def count():
    global counter
    counter += 1
    return counter
def hold(*a):
    global held
    held = a
    return len(a)
def refs(i): return sys.getrefcount(held[i])
def control(*a): hold(*a)
def fail(kind, *a):
    if kind == 0: raise ValueError("generated")
    if kind == 1: return undefined_name
    if kind == 2: return [][3]
    if kind == 3: return 1 // 0
    if kind == 4: return fail(kind)
    raise KeyboardInterrupt()
not_callable = 12
values = ["text", None, [1, 2], 10**30, {}, object(), 10**400, -10**309]
def value(i): return values[i]
def blocks():
    gc.collect()
    return sys.getallocatedblocks()
)";
struct Ref { // owned reference
  PyObject * p;
  explicit Ref(PyObject * q) : p(q) {}
  ~Ref() { em::python_free(p); }
  Ref(const Ref &) = delete;
  operator PyObject *() const { return p; }
};
struct Quiet {
  std::ostringstream os;
  std::streambuf * e = std::cerr.rdbuf(os.rdbuf());
  ~Quiet() { std::cerr.rdbuf(e); }
};
std::string scratch() {
  static std::string dir;
  if(dir.empty()) {
    dir = vp::scratch() + "/py_XXXXXX";
    if(!mkdtemp(dir.data()))
      throw std::runtime_error("mkdtemp");
  }
  return dir;
}
void start() {
  static bool up = false;
  if(up)
    return;
  up = true;
  setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
  em::python_initialize();
  VP_ASSERT(Py_IsInitialized(), "the interpreter is not running");
  em::python_run_string(prelude);
}
void must_throw(const std::function<void()> & f, const std::string & what) {
  bool threw = false;
  try {
    f();
  }
  catch(const std::runtime_error &) {
    threw = true;
  }
  VP_ASSERT(threw, what << " did not report an error");
  VP_ASSERT(!PyErr_Occurred(), "an error is still pending after " << what);
}
PyObject * call(PyObject * f, const std::vector<Num> & a) {
  switch(a.size()) {
  case 0: return em::python_call_function(f);
  case 1: return std::visit([&](auto x) { return em::python_call_function(f, x); }, a[0]);
  case 2: return std::visit([&](auto x, auto y) { return em::python_call_function(f, x, y); }, a[0], a[1]);
  default:
    return std::visit([&](auto x, auto y, auto z) { return em::python_call_function(f, x, y, z); }, a[0], a[1], a[2]);
  }
}
// the python object must be this number, with its type
void is_number(PyObject * p, const Num & n, const std::string & what) {
  VP_ASSERT(p != nullptr, what);
  if(auto d = std::get_if<double>(&n)) {
    VP_ASSERT(PyFloat_CheckExact(p), what << " is no float");
    double g = em::python_as_double(p);
    VP_ASSERT(g == *d || (g != g && *d != *d), what << ": got " << g << ", expected " << *d);
    if(*d == std::floor(*d) && std::abs(*d) < 1e15)
      VP_EQ(em::python_as_long(p), (long)*d, what << " as an integer");
    return;
  }
  long want = std::holds_alternative<int>(n) ? std::get<int>(n) : std::get<long>(n);
  VP_ASSERT(PyLong_CheckExact(p), what << " is no integer");
  VP_EQ(em::python_as_long(p), want, what);
  VP_EQ(em::python_as_double(p), (double)want, what << " as a double");
}
struct Model {
  long counter = 0;
  int imports = 0;
};
void step(const Step & st, Model & m, PyObject * mod) {
  static int modules = 0;
  switch(st.op) {
  case ECHO: {
    Ref f(em::python_get_attribute(mod, "echo"));
    Ref r(call(f, st.args));
    VP_EQ((std::size_t)PyTuple_GET_SIZE(r.p), st.args.size(), "number of arguments received");
    for(std::size_t i = 0; i < st.args.size(); ++i)
      is_number(em::python_get_tuple_element(r, i), st.args[i], "argument " + std::to_string(i));
    must_throw([&] { em::python_get_tuple_element(r, st.args.size() + st.n % 3); }, "an element past the end");
    break;
  }
  case ADD: {
    Ref f(em::python_get_attribute(mod, "add"));
    double a = st.n / 8.;
    Ref r(em::python_call_function(f, st.n, a)), s(em::python_call_function(f, st.n, 5));
    is_number(r, st.n + a, "sum");
    is_number(s, long(st.n + 5), "sum");
    VP_EQ((long)Py_REFCNT(r.p), 1l, "references to a result");
    break;
  }
  case COUNT: {
    Ref f(em::python_get_attribute(mod, "count"));
    Ref r(em::python_call_function(f));
    ++m.counter;
    is_number(r, m.counter, "calls of count()");
    break;
  }
  case NOARGS: {
    Ref f(em::python_get_attribute(mod, "add"));
    must_throw([&] { em::python_call_function(f); }, "a call with too few arguments");
    must_throw([&] { em::python_call_function(f, 1, 2., 3); }, "a call with too many arguments");
    break;
  }
  case RAISE: {
    Ref f(em::python_get_attribute(mod, "fail"));
    must_throw([&] { em::python_call_function(f, st.n % 6, 1.5); }, "a call that raises");
    break;
  }
  case NOT_CALLABLE: {
    Ref f(em::python_get_attribute(mod, "not_callable"));
    must_throw([&] { em::python_call_function(f, 1); }, "a call of a number");
    is_number(f, 12, "attribute");
    break;
  }
  case NO_ATTR:
    must_throw([&] { em::python_get_attribute(mod, "no_such_name_" + std::to_string(st.n)); }, "a missing attribute");
    break;
  case NO_MODULE:
    must_throw([&] { em::python_import("no_such_module_" + std::to_string(st.n)); }, "a missing module");
    break;
  case BAD_STRING: { // what ran before the error stays
    em::python_run_string(st.flag ? "counter = = 1" : "counter += 10\nraise ValueError()\ncounter += 1000\n");
    m.counter += st.flag ? 0 : 10;
    VP_ASSERT(!PyErr_Occurred(), "an error is still pending after a bad script");
    break;
  }
  case IMPORT: { // the directory added last is searched first
    std::string name = (st.flag ? "vp_m\xc3\xb6" "d_" : "vp_mod_") + std::to_string(modules++);
    std::string base = scratch() + (st.flag ? "/with space \xc3\xa9" : "/") + name;
    for(int k = 0; k < 2; ++k) {
      std::string d = base + "_" + std::to_string(k);
      mkdir(d.c_str(), 0700);
      std::ofstream(d + "/" + name + ".py") << "which = " << k << "\nvalue = " << st.n << "\n";
      Ref path(em::python_add_to_path(d));
      VP_ASSERT(PyList_CheckExact(path.p), "python_add_to_path returns the path");
      PyObject * first = PyList_GetItem(path, 0);
      VP_EQ(std::string(PyUnicode_AsUTF8(first)), d, "first entry of the path");
    }
    Ref module(em::python_import(name));
    Ref w(em::python_get_attribute(module, "which")), v(em::python_get_attribute(module, "value"));
    is_number(w, 1, "module found");
    is_number(v, st.n, "value in the module");
    em::python_run_string("del sys.path[0:2]");
    break;
  }
  case TUPLE: {
    std::size_t n = st.args.size();
    Ref t(PyTuple_New(n));
    for(std::size_t i = 0; i < n; ++i)
      std::visit([&](auto x) { em::python_set_tuple_element(t, i, x); }, st.args[i]);
    for(std::size_t i = 0; i < n; ++i)
      is_number(em::python_get_tuple_element(t, i), st.args[i], "tuple element");
    if(n) {
      Ref b(n == 1 ? std::visit([&](auto x) { return em::python_build_args(x); }, st.args[0])
                   : std::visit([&](auto x, auto y) { return em::python_build_args(x, y); }, st.args[0], st.args[1]));
      VP_EQ((std::size_t)PyTuple_GET_SIZE(b.p), n == 1 ? std::size_t(1) : std::size_t(2), "arguments built");
      is_number(em::python_get_tuple_element(b, 0), st.args[0], "argument built");
    }
    break;
  }
  case TUPLE_RANGE: {
    Ref t(PyTuple_New(2));
    em::python_set_tuple_element(t, 0, st.n);
    em::python_set_tuple_element(t, 1, st.n / 4.);
    std::size_t i = st.flag ? std::size_t(-1 - st.n % 3) : std::size_t(2 + st.n);
    must_throw([&] { em::python_set_tuple_element(t, i, 3); }, "setting an element out of range");
    must_throw([&] { em::python_get_tuple_element(t, i); }, "getting an element out of range");
    is_number(em::python_get_tuple_element(t, 0), st.n, "element after the error");
    is_number(em::python_get_tuple_element(t, 1), st.n / 4., "element after the error");
    break;
  }
  case BAD_VALUE: {
    Ref f(em::python_get_attribute(mod, "value"));
    int k = st.n % 8;
    Ref v(em::python_call_function(f, k));
    must_throw([&] { em::python_as_long(v); }, "reading value " + std::to_string(k) + " as an integer");
    if(k != 3)
      must_throw([&] { em::python_as_double(v); }, "reading value " + std::to_string(k) + " as a double");
    else
      VP_EQ(em::python_as_double(v), 1e30, "a large integer as a double");
    break;
  }
  case LEAK: { // an operation repeated many times keeps nothing, whether it fails or not
    Ref blocks(em::python_get_attribute(mod, "blocks"));
    auto count = [&] {
      Ref c(em::python_call_function(blocks));
      return em::python_as_long(c);
    };
    static const char * names[] = {"a missing module", "a missing attribute", "a call that raises", "too few arguments",
      "too many arguments", "a call of a number", "a bad conversion", "a call", "a module", "a path", "an argument list",
      "a bad index"};
    const int kinds = sizeof(names) / sizeof(*names), kind = st.n % kinds, repeats = 64;
    Ref fail(em::python_get_attribute(mod, "fail")), add(em::python_get_attribute(mod, "add")),
      number(em::python_get_attribute(mod, "not_callable")), value(em::python_get_attribute(mod, "value")),
      text(em::python_call_function(value, st.flag ? 6 : 0));
    auto once = [&] {
      double x = 0.25 + st.n;
      switch(kind) {
      case 0: must_throw([&] { em::python_import("no_such_module"); }, names[kind]); break;
      case 1: must_throw([&] { em::python_get_attribute(mod, "no_such_name"); }, names[kind]); break;
      case 2: must_throw([&] { em::python_call_function(fail, st.flag ? 0 : 3, x); }, names[kind]); break;
      case 3: must_throw([&] { em::python_call_function(add, x); }, names[kind]); break;
      case 4: must_throw([&] { em::python_call_function(add, x, x, 12345678); }, names[kind]); break;
      case 5: must_throw([&] { em::python_call_function(number, x, 12345678l); }, names[kind]); break;
      case 6:
        must_throw([&] { em::python_as_long(text); }, names[kind]);
        must_throw([&] { em::python_as_double(text); }, names[kind]);
        break;
      case 7: {
        Ref r(em::python_call_function(add, x, 12345678));
        is_number(r, x + 12345678, "sum");
        break;
      }
      case 8: {
        Ref r(em::python_import("math"));
        Ref pi(em::python_get_attribute(r, "pi"));
        em::python_as_long(pi);
        break;
      }
      case 9: {
        Ref r(em::python_add_to_path("/nowhere"));
        em::python_run_string("del sys.path[0]");
        break;
      }
      case 10: {
        Ref r(em::python_build_args(x, 12345678));
        break;
      }
      default: {
        Ref r(em::python_build_args(x, 12345678));
        must_throw([&] { em::python_set_tuple_element(r, 2 + st.n, x); }, names[kind]);
        em::python_set_tuple_element(r, 1, x);
      }
      }
    };
    // Python itself keeps and drops some objects as it goes: what is lost here is lost in every round
    auto grow = [&](int rounds) {
      long before = count();
      for(int i = 0; i < rounds * repeats; ++i)
        once();
      return count() - before;
    };
    if(grow(1) >= repeats / 2) {
      const int rounds = 40;
      grow(1);
      long kept = grow(rounds);
      VP_ASSERT(kept < rounds * repeats * 3 / 4,
        names[kind] << ", repeated " << rounds * repeats << " times, keeps " << kept << " objects");
    }
    break;
  }
  default: { // arguments are released after the call
    if(st.args.empty())
      break;
    Ref f(em::python_get_attribute(mod, "hold")), refs(em::python_get_attribute(mod, "refs"));
    std::vector<Num> args = st.args;
    for(auto & a : args) // small integers are shared
      a = double(a.index()) + 0.25 + st.n;
    Ref r(call(f, args));
    for(std::size_t i = 0; i < args.size(); ++i) {
      Ref c(em::python_call_function(refs, (int)i));
      VP_EQ(em::python_as_long(c), 2l, "references to an argument of a call that is over");
    }
    must_throw([&] { em::python_call_function(refs, 99); }, "index");
    break;
  }
  }
  VP_ASSERT(!PyErr_Occurred(), "an error is pending after " << op_name[st.op]);
  Ref c(em::python_get_attribute(mod, "counter"));
  is_number(c, m.counter, "counter");
}
Num draw_num() {
  switch(*vp::range(0, 2)) {
  case 0: return *vp::full<int>();
  case 1: return *vp::full<long>();
  default:
    return *rc::gen::weightedOneOf<double>({{4, vp::dyadic(1000, 8)}, {2, vp::real(-1e6, 1e6)},
      {1, vp::of<double>({std::numeric_limits<double>::infinity(), -0.0, 1e300, 1e-310, -1.0, std::nan("")})}});
  }
}
} // namespace

VP_PROP(history, 300) {
  int n = *vp::range(1, 8);
  std::vector<Step> steps;
  std::string t;
  bool seen[N_OPS] = {};
  int distinct = 0;
  for(int i = 0; i < n; ++i) {
    Step s{Op(*vp::range<int>(0, N_OPS - 1)), {}, *vp::range(0, 60), *vp::coin()};
    if(s.op == ECHO || s.op == TUPLE || s.op == HOLD)
      for(int k = *vp::range(0, 3); k > 0; --k)
        s.args.push_back(draw_num());
    distinct += !seen[s.op];
    seen[s.op] = true;
    t += std::string(i ? "; " : "") + op_name[s.op] + " " + std::to_string(s.n) + (s.flag ? " f" : "");
    for(auto & a : s.args)
      t += " " + std::to_string(a.index()) + ":" + std::visit([](auto x) { return vp::str(x); }, a);
    vp::tag(op_name[s.op]);
    steps.push_back(s);
  }
  VP_CASE(distinct >= 3, t);
  vp::run([&] {
    Quiet q;
    start();
    em::python_run_string("counter = 0\nheld = ()\n");
    Ref mod(em::python_import("__main__"));
    Model m;
    for(auto & s : steps)
      step(s, m, mod);
  });
}

// ---- many arguments, long names, scripts and tuples
VP_PROP(large, 60) {
  int n = *vp::large(5000);
  auto seed = *vp::range(0, 1 << 30);
  VP_CASE(true, "n=" << n << " seed=" << seed);
  vp::run([&] {
    Quiet q;
    start();
    vp::Lcg g(seed);
    em::python_run_string("counter = 0\nheld = ()\n");
    Ref mod(em::python_import("__main__"));
    std::string name(std::size_t(n), 'a');
    for(auto & c : name)
      c = char('a' + g.upto(26));
    name = "v_" + name;
    long value = long(g.next());
    std::string script;
    for(int i = 0; i < n / 8; ++i)
      script += "counter += 1 # " + std::to_string(i) + "\n";
    em::python_run_string(script + name + " = " + std::to_string(value) + "\n");
    Ref v(em::python_get_attribute(mod, name)), c(em::python_get_attribute(mod, "counter"));
    is_number(v, value, "attribute with a long name");
    is_number(c, long(n / 8), "lines of a long script");
    must_throw([&] { em::python_get_attribute(mod, name + "x"); }, "a longer name");
    must_throw([&] { em::python_get_attribute(mod, name.substr(0, name.size() - 1)); }, "a shorter name");
    em::python_run_string("del " + name);
    // Latin and wider letters in names
    em::python_run_string("gr\xc3\xb6\xc3\x9f" "e = 7\n\xce\xb1 = 8\n");
    Ref o(em::python_get_attribute(mod, "gr\xc3\xb6\xc3\x9f" "e")), al(em::python_get_attribute(mod, "\xce\xb1"));
    is_number(o, 7, "attribute with an umlaut");
    is_number(al, 8, "attribute with a Greek name");
    Ref t(PyTuple_New(n));
    std::vector<double> d(n);
    for(int i = 0; i < n; ++i) {
      d[i] = g.upto(1 << 20) / 16.;
      if(i % 2)
        em::python_set_tuple_element(t, i, d[i]);
      else
        em::python_set_tuple_element(t, i, long(d[i]));
    }
    for(int i = 0; i < n; ++i)
      is_number(em::python_get_tuple_element(t, i), i % 2 ? Num(d[i]) : Num(long(d[i])), "element of a long tuple");
    must_throw([&] { em::python_get_tuple_element(t, n); }, "an element past the end");
    Ref f(em::python_get_attribute(mod, "echo"));
    int k = g.upto(1000);
    Ref r(em::python_call_function(f, k, k + 1, k + 2l, k + .25, k + 4, k + 5, k + 6l, k + .5, k + 8, k + 9., k + 10,
      k + 11, k + 12));
    VP_EQ((long)PyTuple_GET_SIZE(r.p), 13l, "number of arguments received");
    Num want[] = {k, k + 1, k + 2l, k + .25, k + 4, k + 5, k + 6l, k + .5, k + 8, k + 9., k + 10, k + 11, k + 12};
    for(int i = 0; i < 13; ++i)
      is_number(em::python_get_tuple_element(r, i), want[i], "argument " + std::to_string(i));
  });
}
// an interpreter that was shut down can be started again
VP_PROP(lifecycle, 3) {
  auto k = *vp::range(1, 1000);
  VP_CASE(k > 1, "k=" << k);
  vp::run([&] {
    if(Py_IsInitialized())
      return; // the others are using it
    em::python_set_program_name("vp_program");
    VP_ASSERT(std::wstring(Py_GetProgramName()) == L"vp_program", "program name");
    for(int i = 0; i < 2; ++i) {
      em::python_initialize();
      VP_ASSERT(Py_IsInitialized(), "the interpreter is not running");
      em::python_run_string("fresh = 'old' not in dir()\nold = " + std::to_string(k));
      {
        Ref mod(em::python_import("__main__"));
        Ref o(em::python_get_attribute(mod, "old")), f(em::python_get_attribute(mod, "fresh"));
        is_number(o, k, "global");
        VP_EQ(em::python_as_long(f), 1l, "a fresh interpreter");
      }
      em::python_finalize();
      VP_ASSERT(!Py_IsInitialized(), "the interpreter is still running");
    }
  });
}

#define D01_ACTION 0
#define D01_ON 1
#include "D01.h"
#include <unistd.h>
#include "ristra/assertions/here.h"

// errors.h: the error macros throw the promised type after saying why
namespace {
enum Err { RUNTIME, LOGIC, FILE_, IMPLEMENTED, ASSERT_TRUE_T, ASSERT_TRUE_F, WARNING, HERE_TEXT, N_ERR };
const char * err_name[] = {"THROW_RUNTIME_ERROR", "THROW_LOGIC_ERROR", "THROW_FILE_ERROR", "THROW_IMPLEMENTED_ERROR",
  "assert_true(true)", "assert_true(false)", "short_warning", "HERE_STR"};
int raised_at = 0;
void raise(int e, const std::string & msg, int n) {
  switch(e) {
  case RUNTIME: raised_at = __LINE__; THROW_RUNTIME_ERROR(msg << n); break;
  case LOGIC: raised_at = __LINE__; THROW_LOGIC_ERROR(msg << n); break;
  case FILE_: raised_at = __LINE__; THROW_FILE_ERROR(msg); break;
  case IMPLEMENTED: raised_at = __LINE__; THROW_IMPLEMENTED_ERROR(msg << n); break;
  case ASSERT_TRUE_T: assert_true(n == n || raise == nullptr, msg << n); break;
  case ASSERT_TRUE_F: raised_at = __LINE__; assert_true(n != n, msg << n); break;
  case WARNING: short_warning(msg << n); break;
  default: break;
  }
}
} // namespace
VP_PROP(errors, 300) {
  namespace as = ristra::assertions;
  int e = *vp::range<int>(0, N_ERR - 1);
  std::string msg = *rc::gen::resize(20, rc::gen::container<std::string>(vp::range<char>(' ', '~')));
  if(*vp::range(0, 9) == 0)
    msg += std::string(*vp::large(3900), 'm');
  int n = *vp::range(-1000, 1000);
  VP_CASE(!msg.empty(), err_name[e] << " " << vp::str(msg.substr(0, 60)) << " of " << msg.size() << " " << n);
  vp::run([&] {
    struct Swap {
      std::ostringstream err, out;
      std::streambuf * cerr = std::cerr.rdbuf(err.rdbuf());
      std::streambuf * cout = std::cout.rdbuf(out.rdbuf());
      ~Swap() {
        std::cerr.rdbuf(cerr);
        std::cout.rdbuf(cout);
      }
    } swap;
    std::string what, kind;
    try {
      raise(e, msg, n);
    }
    catch(const as::ExceptionRunTime & x) { kind = "runtime"; what = x.what(); static_assert(std::is_base_of_v<std::runtime_error, as::ExceptionRunTime>, ""); }
    catch(const as::ExceptionLogic & x) { kind = "logic"; what = x.what(); static_assert(std::is_base_of_v<std::logic_error, as::ExceptionLogic>, ""); }
    catch(const as::ExceptionNotImplemented & x) { kind = "not implemented"; what = x.what(); }
    catch(const as::ExceptionFileError & x) { kind = "file"; what = x.what(); }
    catch(const std::exception & x) { kind = "other"; what = x.what(); }
    std::string full = msg + std::to_string(n);
    const char * kinds[] = {"runtime", "logic", "file", "not implemented", "", "runtime", "", ""};
    VP_EQ(kind, std::string(kinds[e]), err_name[e] << ": exception");
    if(e == FILE_)
      VP_ASSERT(what.find(msg) != std::string::npos, "the file is named: " << what);
    std::string err = swap.err.str(), out = swap.out.str();
    if(e == ASSERT_TRUE_T || e >= WARNING)
      VP_EQ(err, std::string(), err_name[e] << ": written to cerr");
    else {
      VP_ASSERT(err.find("L" + std::to_string(raised_at)) != std::string::npos &&
                  err.find(__FILE__) != std::string::npos && err.find("raise") != std::string::npos,
        err_name[e] << ": where: " << vp::str(err));
      if(e != FILE_)
        VP_ASSERT(err.find(full) != std::string::npos, err_name[e] << ": why: " << vp::str(err));
    }
    if(e == WARNING)
      VP_ASSERT(out.find(full) != std::string::npos, "warning: " << vp::str(out));
    else
      VP_EQ(out, std::string(), err_name[e] << ": written to cout");
    if(e == HERE_TEXT) {
      std::string got = as::here_str_func(msg.c_str(), "fn", n, full), want = msg + ":fn:" + std::to_string(n) + " " + full;
      VP_EQ(got, want, "here_str_func");
      std::string h = HERE_STR(full);
      VP_EQ(h, std::string(__FILE__) + ":" + __FUNCTION__ + ":" + std::to_string(__LINE__ - 1) + " " + full, "HERE_STR");
      // printed with printf: look at what reaches the descriptor
      fflush(stdout);
      int keep = dup(1), p[2];
      if(keep < 0 || pipe(p) || full.size() > 4000)
        return;
      dup2(p[1], 1);
      HERE(full);
      int line = __LINE__ - 1;
      fflush(stdout);
      dup2(keep, 1);
      close(keep);
      close(p[1]);
      std::string text;
      char buf[8192];
      for(ssize_t k; (k = read(p[0], buf, sizeof buf)) > 0;)
        text.append(buf, k);
      close(p[0]);
      VP_EQ(text, "HERE " + std::string(__FUNCTION__) + ":" + __FILE__ + ":" + std::to_string(line) + " " + std::string(full.c_str()) + "\n", "HERE");
    }
  });
}

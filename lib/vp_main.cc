// Driver shared by all harnesses.  Usage:
//   bin --list
//   bin --run NAME --cases N --seed S --out FILE [--isolate-from K] [--no-shrink]
//   bin --replay NAME HEX
// Exit: 0 held, 10 failed (FILE has the shrunk counterexample), 11 gave up /
// internal error, 97 a case did not terminate; anything else: crashed.
#include "vp.h"
#include <rapidcheck/detail/Serialization.h>
#include <rapidcheck/detail/TestListenerAdapter.h>

#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <iterator>
#include <map>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace {
struct Entry {
  std::string name;
  double cases;
  vp::Body body;
  int max_size;
};
std::vector<Entry> & entries() {
  static std::vector<Entry> e;
  return e;
}
struct Shared { // survives a crash: backed by FILE.shm
  std::atomic<std::uint64_t> started;
};
Shared local_shared, *shared_ = &local_shared;
bool in_child = false;
bool shrinking = false;
long isolate_from = -1;
int effort_ = 1;
int hang_seconds = 60;
std::uint64_t evaluations = 0, nontrivial_n = 0;
std::unordered_set<std::uint64_t> distinct;
std::map<std::string, std::uint64_t> tags;
std::vector<std::string> samples;
std::string last_text;
std::uint64_t next_sample = 1;
std::atomic<std::uint64_t> run_no{0};
std::atomic<bool> in_run{false};

std::uint64_t fnv(const std::string & s) {
  std::uint64_t h = 1469598103934665603ull;
  for(unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return h;
}
std::string json(const std::string & s) {
  std::ostringstream os;
  os << '"';
  for(unsigned char c : s) {
    if(c == '"' || c == '\\')
      os << '\\' << c;
    else if(c < 32 || c >= 127)
      os << "\\u00" << std::hex << std::setw(2) << std::setfill('0') << int(c)
         << std::dec;
    else
      os << c;
  }
  os << '"';
  return os.str();
}
double cpu_now() {
  timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}
// A case that burns hang_seconds of CPU does not terminate; one that uses no
// CPU at all for as long is blocked for ever (nothing here waits on time).
void watchdog() {
  std::uint64_t seen = ~0ull;
  double since = 0, last = 0;
  int idle = 0;
  for(;;) {
    std::this_thread::sleep_for(std::chrono::milliseconds(500));
    auto n = run_no.load();
    double now = cpu_now();
    idle = now - last < 0.002 ? idle + 1 : 0;
    last = now;
    if(!in_run.load() || n != seen) {
      seen = n;
      since = now;
      idle = 0;
    }
    else if(now - since > hang_seconds || idle > 2 * std::max(20, hang_seconds)) {
      std::fprintf(stderr, "vp: case %llu did not terminate\n",
        (unsigned long long)n);
      _exit(97);
    }
  }
}
std::string hex(const std::vector<std::uint8_t> & b) {
  static const char * d = "0123456789abcdef";
  std::string s;
  for(auto c : b) {
    s += d[c >> 4];
    s += d[c & 15];
  }
  return s;
}
std::vector<std::uint8_t> unhex(const std::string & s) {
  std::vector<std::uint8_t> b;
  for(std::size_t i = 0; i + 1 < s.size(); i += 2)
    b.push_back(std::uint8_t(std::stoi(s.substr(i, 2), nullptr, 16)));
  return b;
}
void guarded(const std::function<void()> & f) {
  try {
    f();
  }
  catch(const vp::Failure &) {
    throw;
  }
  catch(const std::exception & e) {
    throw vp::Failure(std::string("unexpected exception: ") + e.what());
  }
  catch(...) {
    throw vp::Failure("unexpected exception of a non-standard type");
  }
}
} // namespace

namespace vp {
Registrar::Registrar(const char * name, double cases, Body b, int max_size) {
  entries().push_back({name, cases, b, max_size});
}
std::string scratch() {
  const char * d = getenv("TMPDIR");
  return d && *d ? d : "/tmp";
}
int effort() {
  return effort_;
}
bool isolated() {
  return in_child;
}
void note_case(bool nontrivial, const std::string & text) {
  last_text = text;
  if(shrinking)
    return;
  ++evaluations;
  if(nontrivial) {
    ++nontrivial_n;
    distinct.insert(fnv(text));
    if(nontrivial_n >= next_sample && samples.size() < 6) {
      samples.push_back(text.substr(0, 600));
      next_sample = next_sample * 7;
    }
  }
}
void tag(const std::string & label) {
  if(!shrinking)
    ++tags[label];
}
static std::string first_failure; // as it was first seen: a failure that depends on memory may not come back
void run(const std::function<void()> & f) {
  auto n = ++run_no;
  shared_->started = n;
  if(isolate_from < 0 || (long)n < isolate_from) {
    in_run = true;
    try {
      guarded(f);
    }
    catch(const Failure & e) {
      in_run = false;
      if(first_failure.empty())
        first_failure = e.what();
      RC_FAIL(e.what());
    }
    in_run = false;
    return;
  }
  int p[2];
  if(pipe(p) != 0)
    std::exit(11);
  pid_t pid = fork();
  if(pid < 0)
    std::exit(11);
  if(pid == 0) {
    in_child = true;
    ::close(p[0]);
    rlimit rl{(rlim_t)hang_seconds, (rlim_t)hang_seconds + 1};
    setrlimit(RLIMIT_CPU, &rl);
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    in_run = true;
    std::thread(watchdog).detach();
    std::string msg = "ok";
    try {
      guarded(f);
    }
    catch(const Failure & e) {
      msg = std::string("F") + e.what();
    }
    std::size_t off = 0;
    while(off < msg.size()) {
      auto w = write(p[1], msg.data() + off, msg.size() - off);
      if(w <= 0)
        break;
      off += std::size_t(w);
    }
    _exit(0);
  }
  ::close(p[1]);
  std::string msg;
  char buf[4096];
  for(;;) {
    auto r = read(p[0], buf, sizeof buf);
    if(r <= 0)
      break;
    msg.append(buf, std::size_t(r));
  }
  ::close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if(msg == "ok" && WIFEXITED(st) && WEXITSTATUS(st) == 0)
    return;
  if(!msg.empty() && msg[0] == 'F')
    RC_FAIL(msg.substr(1));
  std::ostringstream os;
  if(WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))
    os << "the call did not terminate within " << hang_seconds << " CPU seconds";
  else if(WIFEXITED(st) && WEXITSTATUS(st) == 97)
    os << "the call did not terminate (it used up its CPU time, or is blocked for ever)";
  else if(WIFSIGNALED(st))
    os << "the call crashed with signal " << WTERMSIG(st)
       << " (memory error, undefined behaviour or termination)";
  else
    os << "the call ended the process with status " << WEXITSTATUS(st)
       << " (sanitizer report or exit)";
  RC_FAIL(os.str());
}
} // namespace vp

namespace {
class Listener : public rc::detail::TestListenerAdapter {
public:
  void onTestCaseFinished(const rc::detail::CaseDescription & d) override {
    if(d.result.type == rc::detail::CaseResult::Type::Failure)
      shrinking = true;
  }
};
} // namespace

int main(int argc, char ** argv) {
  std::vector<std::string> a(argv + 1, argv + argc);
  std::string name, out, replay;
  int cases = 100;
  bool no_shrink = false;
  std::uint64_t seed = 1;
  for(std::size_t i = 0; i < a.size(); ++i) {
    if(a[i] == "--list") {
      for(auto & e : entries())
        std::cout << e.name << " " << e.cases << "\n";
      return 0;
    }
    else if(a[i] == "--run")
      name = a[++i];
    else if(a[i] == "--cases")
      cases = std::stoi(a[++i]);
    else if(a[i] == "--seed")
      seed = std::stoull(a[++i]);
    else if(a[i] == "--out")
      out = a[++i];
    else if(a[i] == "--isolate-from")
      isolate_from = std::stol(a[++i]);
    else if(a[i] == "--hang")
      hang_seconds = std::stoi(a[++i]);
    else if(a[i] == "--effort")
      effort_ = std::stoi(a[++i]);
    else if(a[i] == "--no-shrink")
      no_shrink = true;
    else if(a[i] == "--replay") {
      name = a[++i];
      replay = a[++i];
      isolate_from = 0;
    }
  }
  const Entry * en = nullptr;
  for(auto & e : entries())
    if(e.name == name)
      en = &e;
  if(!en) {
    std::cerr << "no such sub-property: " << name << "\n";
    return 11;
  }
  if(!out.empty()) {
    std::FILE * f = std::fopen((out + ".shm").c_str(), "w+b");
    if(f && ftruncate(fileno(f), 4096) == 0) {
      void * m =
        mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fileno(f), 0);
      if(m != MAP_FAILED)
        shared_ = new(m) Shared;
    }
    shared_->started = 0;
  }
  std::thread(watchdog).detach();

  rc::detail::TestMetadata md;
  md.id = name;
  md.description = name;
  rc::detail::TestParams params;
  params.seed = seed;
  params.maxSuccess = cases;
  params.maxSize = en->max_size;
  params.disableShrinking = no_shrink;
  Listener l;
  std::unordered_map<std::string, rc::detail::Reproduce> rep;
  if(!replay.empty()) {
    auto b = unhex(replay);
    rc::detail::Reproduce r;
    rc::detail::deserialize(b.begin(), b.end(), r);
    rep[name] = r;
  }
  auto body = en->body;
  auto res = replay.empty()
               ? rc::detail::checkTestable([body] { body(); }, md, params, l)
               : rc::detail::checkTestable([body] { body(); }, md, params, l, rep);

  int rcode = 0;
  std::ostringstream js;
  js << "{\"sub\":" << json(name) << ",\"seed\":" << seed
     << ",\"evaluations\":" << evaluations << ",\"nontrivial\":" << nontrivial_n
     << ",\"distinct\":" << distinct.size() << ",\"tags\":{";
  bool first = true;
  for(auto & t : tags) {
    js << (first ? "" : ",") << json(t.first) << ":" << t.second;
    first = false;
  }
  js << "},\"samples\":[";
  first = true;
  for(auto & s : samples) {
    js << (first ? "" : ",") << json(s);
    first = false;
  }
  js << "]";
  if(res.is<rc::detail::SuccessResult>()) {
    js << ",\"status\":\"ok\"}";
    std::cout << "held: " << name << " cases=" << evaluations << "\n";
  }
  else if(res.is<rc::detail::FailureResult>()) {
    auto f = res.get<rc::detail::FailureResult>();
    std::vector<std::uint8_t> b;
    rc::detail::serialize(f.reproduce, std::back_inserter(b));
    if(f.description == "no exceptions thrown" && !vp::first_failure.empty())
      f.description = "at first: " + vp::first_failure;
    js << ",\"status\":\"failed\",\"message\":" << json(f.description)
       << ",\"case\":" << json(last_text) << ",\"reproduce\":" << json(hex(b))
       << ",\"counterexample\":[";
    first = true;
    for(auto & c : f.counterExample) {
      js << (first ? "" : ",") << "[" << json(c.first) << ","
         << json(c.second.substr(0, 4000)) << "]";
      first = false;
    }
    js << "]}";
    std::cout << "FAILED: " << name << "\n  case: " << last_text
              << "\n  " << f.description << "\n";
    rcode = 10;
  }
  else {
    std::ostringstream m;
    rc::detail::printResultMessage(res, m);
    js << ",\"status\":\"error\",\"message\":" << json(m.str()) << "}";
    std::cout << "ERROR: " << name << ": " << m.str() << "\n";
    rcode = 11;
  }
  if(!out.empty()) {
    std::ofstream(out) << js.str() << "\n";
    std::ofstream h(out + ".hashes", std::ios::binary);
    for(auto x : distinct)
      h.write(reinterpret_cast<const char *>(&x), sizeof x);
  }
  std::cout.flush();
  _exit(rcode);
}

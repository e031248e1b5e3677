// T01: helpers of the in-situ output that need no ParaView: script lists, file and image comparison, logs, timers.
#include "vp.h"
#include <zlib.h>
#include <cstdlib>
#include <map>
#include <optional>
#include <set>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

// images: every block is accounted for
static long live_blocks = 0;
static void * count_malloc(std::size_t n) {
  void * p = malloc(n);
  live_blocks += p != nullptr;
  return p;
}
static void * count_realloc(void * p, std::size_t n) {
  live_blocks += p == nullptr;
  return realloc(p, n);
}
static void count_free(void * p) {
  live_blocks -= p != nullptr;
  free(p);
}
#define STBI_MALLOC(sz) count_malloc(sz)
#define STBI_REALLOC(p, newsz) count_realloc(p, newsz)
#define STBI_FREE(p) count_free(p)
#include "ristra/io/catalyst/utils/catalystUtils.hpp"
#include "ristra/io/catalyst/utils/insituLog.hpp"
#include "ristra/io/catalyst/utils/insituTimer.hpp"

// a clock that stands still unless told otherwise
static bool fake_clock = false;
static long long fake_ns = 0;
static long long real_ns(clockid_t c) {
  timespec t;
  clock_gettime(c, &t);
  return t.tv_sec * 1000000000LL + t.tv_nsec;
}
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept {
  return time_point(duration(fake_clock ? fake_ns : real_ns(CLOCK_REALTIME)));
}
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept {
  return time_point(duration(fake_clock ? fake_ns : real_ns(CLOCK_MONOTONIC)));
}

namespace {
struct Quiet {
  std::ostringstream os;
  std::streambuf * old;
  Quiet() : old(std::cout.rdbuf(os.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(old); }
};
void spit(const std::string & f, const std::string & s) {
  std::ofstream o(f, std::ios::binary | std::ios::trunc);
  o.write(s.data(), std::streamsize(s.size()));
  if(!o.flush())
    throw std::logic_error("cannot write " + f);
}
std::optional<std::string> slurp(const std::string & f) {
  std::ifstream i(f, std::ios::binary);
  if(!i)
    return std::nullopt;
  return std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>());
}
std::string dir() {
  std::string n = vp::scratch() + "/t_XXXXXX";
  if(!mkdtemp(&n[0]))
    throw std::logic_error("mkdtemp");
  return n;
}
struct Dir { // a scratch directory, with its files
  std::string path = dir();
  std::set<std::string> files;
  std::string operator()(const std::string & n) {
    files.insert(path + "/" + n);
    return path + "/" + n;
  }
  ~Dir() {
    for(auto & f : files)
      unlink(f.c_str());
    rmdir(path.c_str());
  }
};
rc::Gen<std::string> bytes(int lo, int hi, std::string set) {
  return rc::gen::map(vp::vec<int>(lo, hi, vp::range(0, (int)set.size() - 1)), [set](std::vector<int> v) {
    std::string s;
    for(int i : v)
      s += set[i];
    return s;
  });
}
rc::Gen<std::string> any_bytes(int hi) {
  return rc::gen::map(vp::vec<int>(0, hi, vp::range(0, 255)), [](std::vector<int> v) {
    return std::string(v.begin(), v.end());
  });
}
std::string quoted(const std::string & s, int style) {
  std::string r = "\"";
  for(unsigned char c : s) {
    char b[8];
    if(c == '"' || c == '\\')
      r += '\\', r += char(c);
    else if(c == '\n')
      r += "\\n";
    else if(c < 32 || (c < 127 && style == 1)) {
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    }
    else if(c == '/' && style == 2)
      r += "\\/";
    else
      r += char(c);
  }
  return r + "\"";
}
// code points below 0x80, and of two, three and four bytes
std::string utf8(unsigned p) {
  std::string s;
  if(p < 0x80)
    s += char(p);
  else if(p < 0x800)
    s += char(0xc0 | p >> 6), s += char(0x80 | (p & 63));
  else if(p < 0x10000)
    s += char(0xe0 | p >> 12), s += char(0x80 | (p >> 6 & 63)), s += char(0x80 | (p & 63));
  else
    s += char(0xf0 | p >> 18), s += char(0x80 | (p >> 12 & 63)), s += char(0x80 | (p >> 6 & 63)), s += char(0x80 | (p & 63));
  return s;
}
rc::Gen<unsigned> code_point() {
  return rc::gen::weightedOneOf<unsigned>({{6, vp::range(1u, 0x7fu)}, {1, vp::of<unsigned>({8, 9, 10, 12, 13, 34, 47, 92, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff})},
    {1, vp::range(0x80u, 0x7ffu)}, {1, vp::range(0x800u, 0xd7ffu)}, {1, vp::range(0xe000u, 0xffffu)}, {1, vp::range(0x10000u, 0x10ffffu)}});
}
// one character of a JSON text, in one of the ways of writing it
std::string written(unsigned p, int style) {
  char b[16];
  static const std::map<unsigned, char> shorts{{8, 'b'}, {9, 't'}, {10, 'n'}, {12, 'f'}, {13, 'r'}, {34, '"'}, {47, '/'}, {92, '\\'}};
  auto q = shorts.find(p);
  bool must = p < 32 || p == 34 || p == 92;
  if(style % 3 == 0 && !must)
    return utf8(p);
  if(q != shorts.end() && style % 3 != 2)
    return std::string("\\") + q->second;
  const char * form = style & 4 ? "\\u%04x" : "\\u%04X";
  std::string s;
  if(p >= 0x10000) {
    snprintf(b, sizeof b, form, 0xd800 + ((p - 0x10000) >> 10));
    s = b;
    p = 0xdc00 + ((p - 0x10000) & 1023);
  }
  snprintf(b, sizeof b, form, p);
  return s + b;
}
struct Text {
  std::string value, json;
};
Text draw_text(int most) {
  Text t;
  t.json = "\"";
  for(unsigned p : *vp::vec<unsigned>(0, most, code_point())) {
    t.value += utf8(p);
    t.json += written(p, *vp::range(0, 7));
  }
  t.json += "\"";
  return t;
}
std::string draw_json(int depth) {
  switch(*vp::range(0, depth > 0 ? 6 : 4)) {
  case 0: return *vp::of<std::string>({"null", "true", "false"});
  case 1: return *vp::of<std::string>({"0", "-0", "12", "-7", "0.5", "-0.0e0", "1E5", "1e-3", "2.25e+10", "123456789012345678901234567890",
    "18446744073709551615", "-9223372036854775808", "1e400", "1e-400", "10"}) ;
  case 2:
  case 3:
  case 4: return draw_text(4).json;
  case 5: {
    std::string s = "[";
    int n = *vp::range(0, 3);
    for(int i = 0; i < n; ++i)
      s += (i ? "," : "") + draw_json(depth - 1);
    return s + "]";
  }
  default: {
    std::string s = "{";
    int n = *vp::range(0, 3);
    for(int i = 0; i < n; ++i)
      s += (i ? "," : "") + draw_text(4).json + ":" + draw_json(depth - 1);
    return s + "}";
  }
  }
}
} // namespace

// the script names among any other entries, written in any of the ways JSON allows
VP_PROP(json, 700) {
  struct Entry {
    std::string json;
    bool list;
  };
  std::vector<Text> names;
  int n = *vp::range(0, 4);
  for(int i = 0; i < n; ++i)
    names.push_back(draw_text(6));
  std::string key = "\"";
  for(char ch : std::string("catalyst-scripts"))
    key += written(ch, *vp::range(0, 9) ? 0 : *vp::range(0, 7));
  key += "\"";
  std::string list;
  for(auto & t : names)
    list += (list.empty() ? "" : ",") + t.json;
  std::vector<std::string> entries;
  int before = *vp::range(0, 3), after = *vp::range(0, 2);
  for(int i = 0; i < before; ++i)
    entries.push_back(draw_text(4).json + ":" + draw_json(3));
  entries.push_back(key + ":[" + list + "]");
  for(int i = 0; i < after; ++i)
    entries.push_back(draw_text(4).json + ":" + draw_json(3));
  int deep = *vp::range(0, 30) == 0 ? *vp::range(10, 400) : 0;
  if(deep)
    entries.insert(entries.begin(), "\"deep\":" + std::string(deep, '[') + std::string(deep, ']'));
  std::string text = *vp::range(0, 5) == 0 ? "\xef\xbb\xbf{" : "{";
  for(std::size_t i = 0; i < entries.size(); ++i)
    text += (i ? "," : "") + entries[i];
  text += "}";
  int cut = *vp::range(0, 9) == 0 ? *vp::range(1, (int)text.size() - 1) : 0; // a file that ends too early
  bool overflow = text.find("1e400") != std::string::npos; // refused or taken, either is fine
  VP_CASE(names.size() > 1 && entries.size() > 1, (cut ? "cut at " + std::to_string(cut) + " " : std::string()) << vp::str(text));
  vp::run([&] {
    Dir d;
    Quiet q;
    spit(d("a.json"), cut ? text.substr(0, cut) : text);
    if(cut) {
      VP_THROWS(std::exception, getCatalystScripts(d("a.json")), "an unfinished file is accepted");
      return;
    }
    std::vector<std::string> got;
    try {
      got = getCatalystScripts(d("a.json"));
    }
    catch(const std::exception & e) {
      VP_ASSERT(overflow, "a valid file is refused: " << e.what());
      return;
    }
    VP_EQ(got.size(), names.size(), "number of scripts");
    for(std::size_t i = 0; i < got.size(); ++i)
      VP_EQ(got[i], d.path + "/" + names[i].value, "script " << i);
  });
}
VP_PROP(scripts, 1200) {
  auto names = *vp::vec<std::string>(0, 6, bytes(0, 12, "abcXYZ019._-/ \"\\\n\xc3"));
  for(auto & n : names) // complete the two-byte characters
    for(std::size_t i = 0; i < n.size(); ++i)
      if(n[i] == '\xc3')
        n.insert(i + 1, 1, '\xa9'), ++i;
  int style = *vp::range(0, 2);
  int where = *vp::range(0, 3); // bare name, ./, absolute, relative through a directory
  int place = *vp::range(0, 3); // 0: no such entry
  auto ws = *bytes(0, 2, " \t\n");
  VP_CASE(names.size() > 1 && place, "names=" << vp::str(names) << " style=" << style << " where=" << where << " place=" << place);
  vp::run([&] {
    Dir d;
    std::string list = "[" + ws;
    for(std::size_t i = 0; i < names.size(); ++i)
      list += (i ? "," : "") + ws + quoted(names[i], style) + ws;
    list += "]";
    std::vector<std::string> entries{"\"catalyst\": {\"catalyst-scripts\": [\"wrong.py\"]}", "\"scripts\": [1, 2.5, null, true, {}]",
      "\"n\":-1e3"};
    if(place)
      entries.insert(entries.begin() + place, "\"catalyst-scripts\"" + ws + ":" + ws + list);
    std::string text = ws + "{";
    for(std::size_t i = 0; i < entries.size(); ++i)
      text += (i ? "," : "") + ws + entries[i];
    text += ws + "}\n";
    std::string full = d("in put.json");
    spit(full, text);
    char cwd[4096];
    if(!getcwd(cwd, sizeof cwd) || chdir(d.path.c_str()))
      throw std::logic_error("chdir");
    std::string last = d.path.substr(d.path.rfind('/') + 1);
    std::string arg = where == 0 ? "in put.json" : where == 1 ? "./in put.json" : where == 2 ? full : "../" + last + "/in put.json";
    std::vector<std::string> got;
    std::string error;
    try {
      Quiet q;
      got = getCatalystScripts(arg);
    }
    catch(std::exception & e) {
      error = e.what();
    }
    if(chdir(cwd))
      throw std::logic_error("chdir back");
    VP_EQ(error, std::string(), "reading the scripts raised an error");
    std::size_t want = place ? names.size() : 0;
    VP_EQ(got.size(), want, "number of scripts");
    std::string base = where == 2 ? d.path : where == 3 ? "../" + last : ".";
    for(std::size_t i = 0; i < want; ++i)
      // a bare name may come with or without ./
      VP_ASSERT(got[i] == base + "/" + names[i] || (where == 0 && got[i] == names[i]),
        "script " << i << " is " << vp::str(got[i]) << ", expected " << vp::str(base + "/" + names[i]));
    Quiet q;
    VP_EQ(getCatalystScripts("").size(), 0u, "scripts of no file");
  });
}
VP_PROP(bad_scripts, 400) {
  auto text = *rc::gen::oneOf(rc::gen::element<std::string>("", "{", "{\"catalyst-scripts\": [\"a\"}", "{\"catalyst-scripts\": [1]}",
                                "{\"catalyst-scripts\": [\"a\", null]}", "{\"catalyst-scripts\": [\"a\" \"b\"]}", "nul", "[\"a\"",
                                "{\"catalyst-scripts\": [[\"a\"]]}", "\xff\xfe{}", "{\"catalyst-scripts\": [\"a\",]}", "{\"catalyst-scripts\": [\"a\"],}",
                                "{\"catalyst-scripts\": [\"a\\x\"]}", "{\"catalyst-scripts\": [\"a\\u12g4\"]}", "{\"catalyst-scripts\": [\"a\\ud800\"]}",
                                "{\"catalyst-scripts\": [\"a\\udc00\"]}", "{\"catalyst-scripts\": [\"a\\ud800\\u0041\"]}", "{\"catalyst-scripts\": [\"a\nb\"]}",
                                "{\"catalyst-scripts\": [\"\xc0\x80\"]}", "{\"catalyst-scripts\": [\"\xed\xa0\x80\"]}", "{\"catalyst-scripts\": [\"\xf4\x90\x80\x80\"]}",
                                "{\"catalyst-scripts\": [\"\xe2\x82\"]}", "{\"a\": 01, \"catalyst-scripts\": []}", "{\"a\": 1.}",
                                "{\"a\": +1}", "{\"a\": .5}", "{\"a\": -}", "{\"a\": 1e}", "{\"a\" 1}", "{a: 1}", "{\"a\": tru}", "{\"catalyst-scripts\": [\"a\"",
                                "{\"catalyst-scripts\": [\"a\"]", "{\"catalyst-scripts\": [\"a"),
    bytes(1, 8, "}]:,x\\"));
  VP_CASE(text.size() > 1, "text=" << vp::str(text));
  vp::run([&] {
    Dir d;
    spit(d("a.json"), text);
    Quiet q;
    VP_THROWS(std::exception, getCatalystScripts(d("a.json")), "a file that holds no list of scripts is accepted: " << vp::str(text));
    VP_THROWS(std::exception, getCatalystScripts(d("missing.json")), "a missing file is accepted");
  });
}
VP_PROP(replace_first, 2000) {
  auto s = *bytes(0, 12, "ab");
  auto p = *bytes(1, 3, "ab");
  auto r = *bytes(0, 4, "abc");
  std::string want = s;
  bool has = false;
  for(std::size_t i = 0; !has && i + p.size() <= s.size(); ++i)
    if(s.compare(i, p.size(), p) == 0) {
      want = s.substr(0, i) + r + s.substr(i + p.size());
      has = true;
    }
  VP_CASE(has && p != s, "s=" << s << " p=" << p << " r=" << r);
  vp::run([&] { VP_EQ(replaceInString(s, p, r), want, "replace " << p << " by " << r << " in " << s); });
}
VP_PROP(files, 1200) {
  auto a = *rc::gen::oneOf(any_bytes(40), rc::gen::map(any_bytes(20), [](std::string s) {
    std::string r;
    while(!s.empty() && r.size() < 20000)
      r += s;
    return r;
  }));
  int how = *vp::range(0, 5);
  auto b = a;
  std::size_t at = a.empty() ? 0 : *vp::range<std::size_t>(0, a.size() - 1);
  if(how == 1 && !b.empty())
    b[at] = char(b[at] ^ (1 << *vp::range(0, 7)));
  else if(how == 2)
    b += char(*vp::range(0, 255));
  else if(how == 3 && !b.empty())
    b.pop_back();
  else if(how == 4)
    b = *any_bytes(40);
  VP_CASE(a.size() > 1, "size=" << a.size() << " how=" << how << " at=" << at << " a=" << vp::str(a.substr(0, 40)));
  vp::run([&] {
    Dir d;
    spit(d("a"), a);
    spit(d("b"), b);
    Quiet q;
    VP_EQ(compareFiles(d("a"), d("b")), a == b, "comparing files of " << a.size() << " and " << b.size() << " bytes");
    VP_EQ(compareFiles(d("b"), d("a")), a == b, "comparing them the other way round");
    VP_ASSERT(compareFiles(d("a"), d("a")), "a file differs from itself");
    VP_ASSERT(!compareFiles(d("a"), d("none")) && !compareFiles(d("none"), d("a")), "a missing file equals a file");
    VP_ASSERT(!compareFiles(d("none"), d("none")), "missing files are equal");
    VP_ASSERT(fileExists(d("a")) && !fileExists(d("none")), "fileExists");
    VP_ASSERT(slurp(d("a")) == a && slurp(d("b")) == b, "comparing changed a file");
  });
}
namespace {
struct Img {
  int w, h, c;
  std::vector<unsigned char> px;
  // 0: P5/P6, or TGA where there is an alpha channel; 1: PNG; 2: BMP where there are three channels
  std::string file(int format = 0, unsigned how = 0) const {
    std::string s;
    if(format == 1 || c == 2)
      return png(how);
    if(format == 2 && c == 3) {
      int row = (3 * w + 3) / 4 * 4;
      auto le = [&](unsigned v, int n) {
        for(int i = 0; i < n; ++i)
          s += char(v >> 8 * i & 255);
      };
      bool down = how % 2; // rows from the top
      s = "BM";
      le(54 + row * h, 4), le(0, 4), le(54, 4), le(40, 4), le(w, 4), le(down ? unsigned(-h) : unsigned(h), 4), le(1, 2), le(24, 2), le(0, 4);
      le(row * h, 4), le(2835, 4), le(2835, 4), le(0, 4), le(0, 4);
      for(int y = 0; y < h; ++y) {
        int r = down ? y : h - 1 - y;
        for(int x = 0; x < w; ++x)
          for(int k : {2, 1, 0})
            s += char(px[3 * (r * w + x) + k]);
        s.append(row - 3 * w, '\0');
      }
    }
    else if(c == 4) {
      unsigned char t[18] = {0, 0, 2};
      t[12] = w & 255, t[13] = w >> 8, t[14] = h & 255, t[15] = h >> 8, t[16] = 32, t[17] = 0x28;
      s.assign((char *)t, 18);
      for(int i = 0; i < w * h; ++i)
        for(int k : {2, 1, 0, 3})
          s += char(px[4 * i + k]);
    }
    else {
      s = (c == 1 ? "P5\n" : "P6\n") + std::to_string(w) + " " + std::to_string(h) + "\n255\n";
      s.append(px.begin(), px.end());
    }
    return s;
  }
  std::string png(unsigned how) const { // every row filter, level and strategy of compression
    std::string raw, s = "\x89PNG\r\n\x1a\n";
    std::vector<int> zero(std::size_t(w) * c, 0);
    for(int y = 0; y < h; ++y) {
      int f = (how >> 8) % 6 == 5 ? int((how + y * 7u) % 5) : int((how >> 8) % 6);
      raw += char(f);
      for(int i = 0; i < w * c; ++i) {
        int v = px[y * w * c + i], a = i >= c ? px[y * w * c + i - c] : 0, b = y ? px[(y - 1) * w * c + i] : 0,
            d = i >= c && y ? px[(y - 1) * w * c + i - c] : 0, e = a + b - d;
        int pa = std::abs(e - a), pb = std::abs(e - b), pd = std::abs(e - d);
        int pred = f == 0 ? 0 : f == 1 ? a : f == 2 ? b : f == 3 ? (a + b) / 2 : pa <= pb && pa <= pd ? a : pb <= pd ? b : d;
        raw += char(v - pred);
      }
    }
    auto be = [](unsigned v) {
      std::string t;
      for(int i = 3; i >= 0; --i)
        t += char(v >> 8 * i & 255);
      return t;
    };
    auto chunk = [&](const std::string & tag, const std::string & data) {
      std::string t = tag + data;
      s += be(unsigned(data.size())) + t + be(unsigned(crc32(0, (const Bytef *)t.data(), unsigned(t.size()))));
    };
    z_stream z{};
    if(deflateInit2(&z, int(how % 10), Z_DEFLATED, 15, 8, int((how >> 4) % 5)) != Z_OK)
      throw std::logic_error("deflate");
    std::string out(deflateBound(&z, raw.size()), ' ');
    z.next_in = (Bytef *)raw.data();
    z.avail_in = unsigned(raw.size());
    z.next_out = (Bytef *)out.data();
    z.avail_out = unsigned(out.size());
    deflate(&z, Z_FINISH);
    out.resize(z.total_out);
    deflateEnd(&z);
    chunk("IHDR", be(w) + be(h) + char(8) + char(c == 1 ? 0 : c == 2 ? 4 : c == 3 ? 2 : 6) + std::string(3, '\0'));
    if(how % 3 == 0)
      chunk("tEXt", std::string("Software") + '\0' + "generated");
    std::size_t cut = how % 4 == 0 ? out.size() / 2 : 0;
    if(cut)
      chunk("IDAT", out.substr(0, cut));
    chunk("IDAT", out.substr(cut));
    chunk("IEND", "");
    return s;
  }
};
} // namespace
VP_PROP(images, 1200) {
  Img a;
  a.c = *rc::gen::element(1, 3, 3, 4, 2);
  int fa = *vp::range(0, 2), fb = *vp::range(0, 2);
  unsigned ha = unsigned(*vp::range(0, 1 << 20)), hb = unsigned(*vp::range(0, 1 << 20));
  int look = *vp::range(0, 3); // smooth, noise, saturated, few values
  bool wide = *vp::range(0, 3) == 0;
  a.w = wide ? *vp::range(1, 120) : *vp::range(1, 12);
  a.h = wide ? *vp::range(1, 40) : *vp::range(1, 12);
  std::size_t n = std::size_t(a.w) * a.h * a.c;
  unsigned seed = unsigned(*vp::range(0, 1 << 30));
  auto rnd = [&] { return seed = seed * 1664525u + 1013904223u, seed >> 16; };
  for(std::size_t i = 0; i < n; ++i)
    a.px.push_back((unsigned char)(look == 0 ? i / a.c / 3 + (rnd() & 7) / 7 : look == 1 ? rnd() & 255 : look == 2 ? (rnd() & 8 ? 255 : 0) : rnd() % 3 * 127));
  Img b = a;
  int how = *vp::range(0, 9);
  std::size_t diff = 0;
  bool same_shape = true;
  if(how < 7) { // around the 2 percent
    long target = how == 0 ? 0 : how == 1 ? long(n) : long(n / 50) + *vp::range(-2, 2);
    target = std::max(0L, std::min(long(n), target));
    std::set<std::size_t> where;
    int order = *vp::range(0, 2);
    while(long(where.size()) < target)
      where.insert(order == 0 ? where.size() : order == 1 ? n - 1 - where.size() : rnd() % n);
    for(auto i : where)
      b.px[i] = (unsigned char)(b.px[i] ^ (1 + rnd() % 255));
    diff = where.size();
  }
  else {
    same_shape = false;
    if(how == 7 && a.w != a.h)
      std::swap(b.w, b.h); // the same number of pixels
    else if(how == 8)
      b.h += 1;
    else
      b.c = a.c == 3 ? 1 : 3;
    b.px.resize(std::size_t(b.w) * b.h * b.c);
  }
  bool want = same_shape && diff * 50 <= n;
  VP_CASE(n > 50 && diff > 0, "w=" << a.w << " h=" << a.h << " c=" << a.c << " how=" << how << " diff=" << diff << "/" << n << " formats " << fa << "/" << ha << " " << fb << "/" << hb);
  vp::tag(want ? "similar" : "different");
  vp::run([&] {
    Dir d;
    spit(d("a.img"), a.file(fa, ha));
    spit(d("b.img"), b.file(fb, hb));
    long before = live_blocks;
    Quiet q;
    VP_EQ(imageCompare(d("a.img"), d("b.img")), want, diff << " of " << n << " values differ");
    VP_EQ(imageCompare(d("b.img"), d("a.img")), want, diff << " of " << n << " values differ (exchanged)");
    VP_ASSERT(imageCompare(d("a.img"), d("a.img")), "an image differs from itself");
    VP_ASSERT(!imageCompare(d("a.img"), d("none")) && !imageCompare(d("none"), d("a.img")), "a missing image is similar");
    spit(d("junk"), "P6\n");
    VP_ASSERT(!imageCompare(d("a.img"), d("junk")), "a broken image is similar");
    VP_EQ(live_blocks, before, "image memory that is not released");
  });
}
VP_PROP(logs, 800) {
  struct Op {
    int kind, file;
    std::string text;
  };
  std::vector<Op> ops;
  int len = *vp::range(1, 12);
  std::string t;
  for(int i = 0; i < len; ++i) {
    Op o{*vp::range(0, 6), *vp::range(0, 2), *any_bytes(20)};
    t += std::to_string(o.kind) + "/" + std::to_string(o.file) + vp::str(o.text) + " ";
    ops.push_back(o);
  }
  VP_CASE(len > 3, t);
  vp::run([&] {
    Dir d;
    std::vector<std::string> names{d("x"), d("y"), d("z")};
    for(auto & n : names)
      d.files.insert(n + ".log");
    std::map<std::string, std::string> model;
    InsituLog log(names[0]);
    std::string cur, out = names[0];
    for(auto & o : ops) {
      auto & n = names[o.file];
      switch(o.kind) {
      case 0:
        writeLog(n, o.text);
        model[n + ".log"] = o.text;
        break;
      case 1:
        writeLogApp(n, o.text);
        model[n + ".log"] += o.text;
        break;
      case 2:
        writeLogNew(n, o.text);
        model[n + ".log"] = o.text;
        break;
      case 3:
        log.setOutputFilename(n);
        out = n;
        break;
      case 4:
        log.log << o.text;
        cur += o.text;
        break;
      case 5:
        log.clear();
        cur.clear();
        break;
      default:
        log.writeToDisk();
        model[out] = cur;
      }
      for(auto & f : d.files) {
        auto it = model.find(f);
        auto got = slurp(f);
        VP_EQ(got.has_value(), it != model.end(), "existence of " << f.substr(f.rfind('/')));
        if(got)
          VP_EQ(*got, it->second, "contents of " << f.substr(f.rfind('/')));
      }
      VP_EQ(log.log.str(), cur, "text in memory");
    }
  });
}
VP_PROP(timers, 1500) {
  struct Op {
    int kind, name;
    long long step;
  };
  std::vector<Op> ops;
  int len = *vp::range(2, 20);
  std::string t;
  for(int i = 0; i < len; ++i) {
    Op o{*vp::range(0, 3), *vp::range(0, 2), *rc::gen::oneOf(vp::range<long long>(0, 3), vp::range<long long>(0, 4000000000LL))};
    t += (o.kind == 0 ? "start " : o.kind == 1 ? "stop " : "read ") + std::to_string(o.name) + " +" + std::to_string(o.step) + "; ";
    ops.push_back(o);
  }
  VP_CASE(len > 4, t);
  vp::run([&] {
    struct Reset {
      Reset() { fake_clock = true; }
      ~Reset() { fake_clock = false; }
    } reset;
    fake_ns = 1600000000000000000LL;
    const std::vector<std::string> names{"a", "b", ""};
    std::map<std::string, long long> started;
    std::map<std::string, double> done;
    std::set<std::string> twice; // stopped more than once: the first or the last stop may count
    Quiet q;
    InsituTimer clock("a");
    started["a"] = fake_ns;
    for(auto & o : ops) {
      fake_ns += o.step;
      auto & n = names[o.name];
      if(o.kind == 0) {
        VP_EQ(clock.start(n), 1, "start");
        started[n] = fake_ns;
        done.erase(n);
        twice.erase(n);
      }
      else if(o.kind == 1) {
        bool known = started.count(n);
        VP_EQ(clock.stop(n), known ? 1 : -1, "stop");
        if(known) {
          if(done.count(n))
            twice.insert(n);
          done[n] = double(fake_ns - started[n]) * 1e-9;
        }
      }
      for(auto & k : names) {
        double got = clock.getDuration(k);
        if(!done.count(k))
          VP_EQ(got, -1.0, "duration of timer '" << k << "', which was not stopped");
        else if(!twice.count(k))
          VP_ASSERT(std::abs(got - done[k]) <= 1e-15 + 4e-16 * done[k],
            "duration of '" << k << "' is " << vp::str(got) << ", expected " << vp::str(done[k]));
      }
    }
  });
}

// ---- long files and lists, big images
VP_PROP(large, 60) {
  int n = *vp::large(200000);
  auto seed = *vp::range(0, 1 << 30);
  int w = *vp::range(200, 900), h = *vp::range(100, 400);
  int ns = *vp::range(20, 700);
  VP_CASE(true, "n=" << n << " seed=" << seed << " image=" << w << "x" << h << " scripts=" << ns);
  vp::run([&] {
    vp::Lcg g(seed);
    Dir d;
    Quiet q;
    std::string a(n, ' ');
    for(auto & c : a)
      c = char(g.next());
    spit(d("a"), a);
    for(int k = 0; k < 4; ++k) {
      auto b = a;
      std::size_t at = k == 0 ? n - 1 : k == 1 ? 0 : std::size_t(g.upto(n));
      b[at] = char(b[at] ^ 0x80);
      spit(d("b"), b);
      VP_ASSERT(!compareFiles(d("a"), d("b")) && !compareFiles(d("b"), d("a")),
        "files of " << n << " bytes that differ at " << at << " are equal");
    }
    spit(d("b"), a);
    VP_ASSERT(compareFiles(d("a"), d("b")), "equal files of " << n << " bytes differ");
    spit(d("b"), a + '\0');
    VP_ASSERT(!compareFiles(d("a"), d("b")) && !compareFiles(d("b"), d("a")), "a longer file is equal");
    d.files.insert(d.path + "/l.log");
    writeLog(d.path + "/l", a);
    writeLogApp(d.path + "/l", a);
    VP_ASSERT(slurp(d.path + "/l.log") == a + a, "long log");
    InsituLog log(d("m"));
    for(int i = 0; i < ns; ++i)
      log.log << a.substr(0, 100);
    log.writeToDisk();
    std::string all;
    for(int i = 0; i < ns; ++i)
      all += a.substr(0, 100);
    VP_ASSERT(slurp(d("m")) == all, "log of many pieces");
    Img x;
    x.w = w;
    x.h = h;
    x.c = g.upto(2) ? 3 : 1;
    std::size_t m = std::size_t(w) * h * x.c;
    for(std::size_t i = 0; i < m; ++i)
      x.px.push_back((unsigned char)g.next());
    Img y = x;
    std::size_t diff = std::size_t(m / 50) + g.upto(5) - 2, from = g.upto(int(m - diff));
    for(std::size_t i = 0; i < diff; ++i)
      y.px[from + i] ^= 1;
    spit(d("x.img"), x.file(g.upto(3), unsigned(g.next())));
    spit(d("y.img"), y.file(g.upto(3), unsigned(g.next())));
    VP_EQ(imageCompare(d("x.img"), d("y.img")), diff * 50 <= m, diff << " of " << m << " values differ");
    std::string text = "{\"catalyst-scripts\": [";
    for(int i = 0; i < ns; ++i)
      text += (i ? "," : "") + quoted("script" + std::to_string(i) + std::string(g.upto(60), 's') + ".py", 0);
    spit(d("s.json"), text + "]}");
    auto got = getCatalystScripts(d("s.json"));
    VP_EQ(got.size(), std::size_t(ns), "number of scripts");
    for(int i = 0; i < ns; ++i)
      VP_ASSERT(text.find(quoted(got[i].substr(d.path.size() + 1), 0)) != std::string::npos &&
                  got[i].find("/script" + std::to_string(i)) == d.path.size(),
        "script " << i << " of a long list is " << got[i]);
  });
}

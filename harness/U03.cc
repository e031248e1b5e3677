// U03: string and path helpers against character-level reference versions.
#include "vp.h"
#include <clocale>
#include <set>
#include <thread>
#include "ristra/utils/string_utils.h"
namespace ru = ristra::utils;

static rc::Gen<std::string> text(std::string alphabet, int maxlen) {
  return rc::gen::mapcat(vp::range(0, maxlen), [=](int n) {
    return rc::gen::container<std::string>(n, rc::gen::elementOf(alphabet));
  });
}
static std::string ref_replace(const std::string & s, const std::string & f,
  const std::string & t) {
  if(f.empty())
    return s;
  std::string out;
  std::size_t i = 0;
  while(i < s.size()) {
    bool hit = i + f.size() <= s.size();
    for(std::size_t k = 0; hit && k < f.size(); ++k)
      hit = s[i + k] == f[k];
    if(hit) {
      out += t;
      i += f.size();
    }
    else
      out += s[i++];
  }
  return out;
}
VP_PROP(replace_all, 4000) {
  auto s = *text("aab", 20);
  auto f = *text("ab", 3);
  auto t = *text("abc", 4);
  auto want = ref_replace(s, f, t);
  if(f.empty())
    vp::tag("empty pattern");
  if(t.find(f) != std::string::npos)
    vp::tag("replacement contains pattern");
  VP_CASE(want != s, "s=" << s << " from=" << f << " to=" << t);
  vp::run([&] {
    auto keep = s;
    VP_EQ(ru::replace_all(s, f, t), want, "replace_all(" << s << "," << f << "," << t << ")");
    VP_EQ(s, keep, "argument changed");
  });
}
VP_PROP(replace_all_bytes, 1500) {
  std::string alpha;
  for(int c : {0, 1, 65, 66, 127, 128, 200, 255})
    alpha += char(c);
  auto s = *text(alpha, 16);
  auto f = *text(alpha, 2);
  auto t = *text(alpha, 3);
  auto want = ref_replace(s, f, t);
  VP_CASE(want != s, "s=" << vp::str(s) << " from=" << vp::str(f) << " to=" << vp::str(t));
  vp::run([&] { VP_EQ(ru::replace_all(s, f, t), want, "replace_all"); });
}

VP_PROP(paths, 5000) {
  auto s = *text("ab../", 14);
  VP_CASE(s.find('/') != std::string::npos && s.find('.') != std::string::npos, "path=" << s);
  vp::run([&] {
    std::size_t slash = s.size();
    bool has_slash = false;
    for(std::size_t i = 0; i < s.size(); ++i)
      if(s[i] == '/') {
        slash = i;
        has_slash = true;
      }
    std::string dir = has_slash ? s.substr(0, slash + 1) : "";
    std::string base = s.substr(dir.size());
    std::size_t dot = base.size();
    bool has_dot = false;
    for(std::size_t i = 0; i < base.size(); ++i)
      if(base[i] == '.') {
        dot = i;
        has_dot = true;
      }
    std::string ext = has_dot ? base.substr(dot + 1) : "";
    std::string stem = dir + base.substr(0, dot);
    VP_EQ(ru::basename(s), base, "basename(" << s << ")");
    VP_EQ(ru::file_extension(s), ext, "file_extension(" << s << ")");
    VP_EQ(ru::remove_extension(s), stem, "remove_extension(" << s << ")");
    auto p = ru::split_extension(s);
    VP_EQ(p.first, stem, "split_extension(" << s << ").first");
    VP_EQ(p.second, ext, "split_extension(" << s << ").second");
    if(has_dot)
      VP_EQ(p.first + "." + p.second, s, "split_extension puts together again");
    else
      VP_EQ(p.first, s, "split_extension without extension");
  });
}
VP_PROP(paths_long, 600) {
  auto dirs = *vp::vec<std::string>(0, 6, text("abc.-_0", 30));
  auto s = *text("ab.xyz", 60);
  std::string path;
  for(auto & d : dirs)
    path += d + "/";
  path += s;
  VP_CASE(dirs.size() > 0 && s.size() > 1, "path=" << path);
  vp::run([&] {
    VP_EQ(ru::basename(path), s, "basename");
    auto i = s.rfind('.');
    auto want = i == std::string::npos ? std::string() : s.substr(i + 1);
    VP_EQ(ru::file_extension(path), want, "file_extension");
    VP_EQ(ru::split_extension(path).second, want, "split_extension.second");
    VP_EQ(ru::remove_extension(path),
      path.substr(0, path.size() - (i == std::string::npos ? 0 : want.size() + 1)),
      "remove_extension");
  });
}

static std::vector<std::string> ref_split(const std::string & s, const std::vector<char> & d) {
  std::vector<std::string> out;
  std::string cur;
  auto sep = [&](char c) {
    if(c == ' ' || (c >= 9 && c <= 13))
      return true;
    for(char q : d)
      if(q == c)
        return true;
    return false;
  };
  for(char c : s)
    if(sep(c)) {
      if(!cur.empty())
        out.push_back(cur);
      cur.clear();
    }
    else
      cur += c;
  if(!cur.empty())
    out.push_back(cur);
  return out;
}
VP_PROP(split_tokens, 4000) {
  auto s = *text("ab,;: \t|-", 24);
  auto d = *vp::vec<char>(0, 3, rc::gen::elementOf(std::string(",;:|-a")));
  auto want = ref_split(s, d);
  vp::tag(want.size() == 0 ? "no token" : want.size() == 1 ? "one" : "many");
  VP_CASE(want.size() >= 2, "s=" << vp::str(s) << " delim=" << vp::str(std::string(d.begin(), d.end())));
  vp::run([&] {
    VP_EQ(ru::split(s, d), want, "split(" << s << ")");
    VP_EQ(ru::split(s), ref_split(s, {' '}), "split(" << s << ") at blanks");
    // a later call does not remember earlier delimiters
    VP_EQ(ru::split("x,y;z", {';'}), (std::vector<std::string>{"x,y", "z"}), "split after split");
  });
}
VP_PROP(split_any_byte, 2500) {
  auto s = *rc::gen::map(vp::vec<int>(0, 40, vp::range(0, 255)), [](std::vector<int> v) {
    std::string r;
    for(int c : v)
      r += char(c);
    return r;
  });
  auto pick = *vp::vec<int>(0, 4, vp::range(0, 39));
  auto extra = *vp::vec<int>(0, 2, vp::range(0, 255));
  std::vector<char> d;
  for(int i : pick)
    if(i < int(s.size()))
      d.push_back(s[i]);
  for(int c : extra)
    d.push_back(char(c));
  auto want = ref_split(s, d);
  bool high = false;
  for(char c : d)
    high |= (unsigned char)c >= 128;
  if(high)
    vp::tag("delimiter >= 0x80");
  VP_CASE(want.size() >= 2, "s=" << vp::str(s) << " delim=" << vp::str(std::string(d.begin(), d.end())));
  vp::run([&] { VP_EQ(ru::split(s, d), want, "split"); });
}
VP_PROP(split_concurrent, 60) {
  auto s = *text("ab,;:|", 40);
  VP_CASE(s.size() > 5, "s=" << s);
  vp::run([&] {
    std::vector<char> ds{',', ';', ':', '|'};
    std::vector<std::string> bad(4);
    std::vector<std::thread> ts;
    for(int k = 0; k < 4; ++k)
      ts.emplace_back([&, k] {
        auto want = ref_split(s, {ds[k]});
        for(int r = 0; r < 150; ++r) {
          auto got = ru::split(s, {ds[k]});
          if(got != want) {
            bad[k] = vp::str(got) + " instead of " + vp::str(want);
            break;
          }
        }
      });
    for(auto & t : ts)
      t.join();
    for(auto & b : bad)
      VP_ASSERT(b.empty(), "concurrent split: " << b);
  });
}

VP_PROP(numbers, 4000) {
  auto n = *rc::gen::oneOf(vp::range<unsigned>(0, 4294967295u),
    rc::gen::map(rc::gen::pair(vp::range(0, 9), vp::range(-2, 2)),
      [](std::pair<int, int> p) {
        long long q = 1;
        for(int i = 0; i < p.first; ++i)
          q *= 10;
        return unsigned(std::max(0LL, q + p.second));
      }),
    vp::range<unsigned>(0, 120),
    rc::gen::map(vp::range<unsigned>(0, 3), [](unsigned k) { return 4294967295u - k; }));
  auto pad = *vp::range<unsigned>(0, 14);
  VP_CASE(n >= 10, "n=" << n << " pad=" << pad);
  vp::run([&] {
    std::string d; // decimal digits by repeated division
    unsigned q = n;
    do {
      d.insert(d.begin(), char('0' + q % 10));
      q /= 10;
    } while(q);
    VP_EQ(std::size_t(ru::num_digits(n)), d.size(), "num_digits(" << n << ")");
    auto z = [&](unsigned p) {
      return d.size() >= p ? d : std::string(p - d.size(), '0') + d;
    };
    VP_EQ(ru::zero_padded(n, pad), z(pad), "zero_padded(" << n << "," << pad << ")");
    VP_EQ(ru::zero_padded(n), z(6), "zero_padded(" << n << ")");
    VP_EQ(ru::to_string(n), d, "to_string");
    VP_EQ(ru::to_string(-(long)n), n ? "-" + d : d, "to_string");
  });
}
VP_PROP(conversions, 1500) {
  auto s = *rc::gen::map(vp::vec<int>(0, 60, vp::range(1, 126)), [](std::vector<int> v) {
    std::string r;
    for(int c : v)
      r += char(c);
    return r;
  });
  auto x = *vp::dyadic(1 << 15, 4);
  VP_CASE(s.size() >= 2, "s=" << vp::str(s) << " x=" << x);
  vp::run([&] {
    auto w = ru::to_wstring(s.c_str());
    VP_EQ(w.size(), s.size(), "to_wstring length");
    for(std::size_t i = 0; i < s.size(); ++i)
      VP_EQ(long(w[i]), long(s[i]), "to_wstring character " << i);
    VP_EQ(ru::to_string(s), s, "to_string of a string");
    VP_EQ(std::stod(ru::to_string(std::round(x))), std::round(x), "to_string round trip");
  });
}

VP_PROP(large, 300) {
  auto n = *vp::large(20000);
  auto seed = *vp::range(0, 1000000);
  auto alpha = *rc::gen::element<std::string>("ab", "abcdefgh", "a/.,", "ab c d \t", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa,/.");
  auto f = *text("ab,./", 3);
  auto t = *text("abc", 6);
  auto d = *vp::vec<char>(0, 3, rc::gen::elementOf(std::string(",;./")));
  VP_CASE(n > 255, "n=" << n << " alphabet=" << alpha << " seed=" << seed << " from=" << f << " to=" << t);
  vp::run([&] {
    vp::Lcg g(seed);
    std::string s;
    for(int i = 0; i < n; ++i)
      s += alpha[g.upto(int(alpha.size()))];
    VP_ASSERT(ru::replace_all(s, f, t) == ref_replace(s, f, t), "replace_all in a long text");
    std::string lf = s.substr(0, std::min<std::size_t>(1200, s.size() / 2)); // a long pattern
    VP_ASSERT(ru::replace_all(s, lf, t) == ref_replace(s, lf, t), "replace_all of a long pattern");
    VP_ASSERT(ru::replace_all(s, f, lf) == ref_replace(s, f, lf), "replace_all by a long text");
    VP_ASSERT(ru::split(s, d) == ref_split(s, d), "split of a long text");
    std::string path = s;
    auto cut = path.find_last_of('/');
    auto base = cut == std::string::npos ? path : path.substr(cut + 1);
    VP_ASSERT(ru::basename(path) == base, "basename of a long path");
    auto dot = base.find_last_of('.');
    VP_ASSERT(ru::file_extension(path) == (dot == std::string::npos ? "" : base.substr(dot + 1)), "extension of a long path");
    VP_ASSERT(ru::remove_extension(path) ==
        (dot == std::string::npos ? path : path.substr(0, path.size() - (base.size() - dot))),
      "a long path without its extension");
    VP_ASSERT(ru::zero_padded(7, unsigned(n)) == std::string(n - 1, '0') + "7", "zero_padded to " << n);
    VP_ASSERT(ru::to_string(s) == s, "to_string of a long text");
    auto w = ru::to_wstring(s.c_str());
    VP_ASSERT(w == std::wstring(s.begin(), s.end()), "to_wstring of a long text");
  });
}

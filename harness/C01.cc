// C01: command_line_arguments_t against the generated command line.
#include "vp.h"
#include "ristra/initialization/arguments.h"
#include <iostream>
#include <map>
#include <optional>
namespace ini = ristra::initialization;

namespace {
struct Capture {
  std::ostringstream o, e;
  std::streambuf *so = std::cout.rdbuf(o.rdbuf()), *se = std::cerr.rdbuf(e.rdbuf());
  ~Capture() {
    std::cout.rdbuf(so);
    std::cerr.rdbuf(se);
  }
};
enum Type { FLAG, INT, DBL, STR, SIZ, NTYPES };
struct Option {
  std::string name, brief, group, message;
  int type;
};
// no name is a prefix of another, and none of "help" or the unknown ones
const std::vector<std::string> names{"alpha", "mesh-file", "n_steps", "Output", "verbose", "z"};
const std::vector<std::string> groups{"mesh", "hydro", ""};

struct Item {
  int kind; // 0 registered option, 1 unknown long, 2 unknown long with value, 3 positional, 4 unknown short, 5 help
  int option;
  int form; // 0 --n=v 1 --n v 2 -n v 3 -nv
  int bad; // 1: a value the type cannot hold
  int i;
  double d;
  std::string s;
  std::size_t u;
};
struct Line {
  std::vector<Item> items;
  bool cut; // ends in an option without its value
  int last;
  bool print;
};
std::string number(double d) {
  char b[40];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}
std::string word_text(const Item & it, int type) {
  if(it.bad)
    switch(type) {
    case INT: return std::vector<std::string>{"12x", "word", "1.5", "99999999999", "0x1g"}[it.bad % 5];
    case DBL: return std::vector<std::string>{"1.5.2", "word", "1e", "3,5", "2 3"}[it.bad % 5];
    case SIZ: return std::vector<std::string>{"12x", "word", "1.5", "99999999999999999999999", "7 8"}[it.bad % 5];
    default: break;
    }
  switch(type) {
  case INT: return std::to_string(it.i);
  case DBL: return number(it.d);
  case SIZ: return std::to_string(it.u);
  default: return it.s;
  }
}
struct Want {
  bool error = false, help = false;
  std::map<std::string, Item> given;
  std::vector<std::string> argv;
};
Want expand(const std::vector<Option> & opts, const Line & l, const std::string & prog) {
  Want w;
  w.argv.push_back(prog);
  bool open = false; // the last token was an unknown option, which may take the next word
  for(auto & it : l.items) {
    if(it.kind == 1)
      w.argv.push_back("--unknown");
    else if(it.kind == 2)
      w.argv.push_back("--other=" + it.s);
    else if(it.kind == 3)
      w.argv.push_back("word" + it.s);
    else if(it.kind == 4)
      w.argv.push_back("-Q");
    else if(it.kind == 5) {
      if(w.help)
        continue;
      w.argv.push_back("--help");
      w.help = true;
    }
    else {
      if(opts.empty())
        continue;
      auto & o = opts[it.option % opts.size()];
      bool brief = !o.brief.empty() && it.form >= 2;
      bool twice = w.given.count(o.name);
      if(o.type == FLAG) {
        if(twice)
          continue; // whether a flag may be repeated is left open
        w.argv.push_back(brief ? "-" + o.brief : "--" + o.name);
      }
      else {
        std::string v = word_text(it, o.type);
        int form = it.form;
        if(form >= 2 && !brief)
          form -= 2;
        if(v[0] == '-' && form != 3)
          form = 0; // looks like an option
        if(form == 0)
          w.argv.push_back("--" + o.name + "=" + v);
        else if(form == 3)
          w.argv.push_back("-" + o.brief + v);
        else {
          w.argv.push_back(form == 1 ? "--" + o.name : "-" + o.brief);
          w.argv.push_back(v);
        }
        w.error |= twice || (it.bad && o.type != STR);
      }
      w.given[o.name] = it;
    }
  }
  (void)open;
  if(l.cut)
    for(std::size_t k = 0; k < opts.size(); ++k) {
      auto & o = opts[(l.last + k) % opts.size()];
      if(o.type != FLAG) {
        w.argv.push_back("--" + o.name);
        w.error = true;
        break;
      }
    }
  return w;
}
void usage(const std::string & text, const std::vector<Option> & opts, const std::map<std::string, std::string> & titles,
  const std::string & prog, const char * where) {
  VP_ASSERT(text.find("Usage: " + prog + " [options]") != std::string::npos, where << " has no usage line: " << vp::str(text));
  for(auto & o : opts) {
    VP_ASSERT(text.find("--" + o.name) != std::string::npos, where << " does not list --" << o.name << ": " << vp::str(text));
    VP_ASSERT(text.find(o.message) != std::string::npos, where << " does not describe --" << o.name << ": " << vp::str(text));
    if(titles.count(o.group)) {
      VP_ASSERT(text.find(titles.at(o.group) + ":") != std::string::npos,
        where << " lacks the group title " << titles.at(o.group) << ": " << vp::str(text));
      // the last title before the option is its own
      std::istringstream is(text);
      std::string line, title;
      bool found = false;
      while(!found && std::getline(is, line)) {
        for(auto & g : titles)
          if(line == g.second + ":")
            title = g.second;
        std::istringstream ws(line);
        for(std::string word; ws >> word;)
          found |= word == "--" + o.name;
      }
      VP_ASSERT(!found || title == titles.at(o.group),
        where << " lists --" << o.name << " under " << vp::str(title) << ": " << vp::str(text));
    }
  }
}
void check(const std::vector<Option> & opts, const std::map<std::string, std::string> & titles, const std::vector<Line> & lines,
  bool shared) {
  auto own = std::make_unique<ini::command_line_arguments_t>();
  auto & args = *own;
  (void)shared;
  for(auto & g : titles)
    VP_ASSERT(args.register_group(g.first, g.second), "register_group");
  for(auto & o : opts) {
    std::string flag = o.name + (o.brief.empty() ? "" : "," + o.brief);
    bool ok = true;
    switch(o.type) {
    case FLAG: ok = args.register_argument(o.group, flag, o.message); break;
    case INT: ok = args.register_argument<int>(o.group, flag, o.message); break;
    case DBL: ok = args.register_argument<double>(o.group, flag, o.message); break;
    case STR: ok = args.register_argument<std::string>(o.group, flag, o.message); break;
    default: ok = args.register_argument<std::size_t>(o.group, flag, o.message); break;
    }
    VP_ASSERT(ok, "register_argument");
  }
  args.register_argument("", "help", "describeshelp");
  std::vector<std::pair<Want, ini::command_line_variables_t>> kept;
  auto read = [&](const Want & w, const ini::command_line_variables_t & v) {
    for(auto & o : opts) {
      auto g = w.given.find(o.name);
      bool has = g != w.given.end();
      VP_EQ(v.count(o.name), std::size_t(has), "count of --" << o.name);
      switch(o.type) {
      case INT:
        VP_EQ(v.as<int>(o.name), has ? g->second.i : 0, "--" << o.name);
        VP_EQ(v.as<int>(o.name, 77), has ? g->second.i : 77, "--" << o.name << " with a default");
        break;
      case DBL:
        VP_EQ(v.as<double>(o.name, -0.5), has ? g->second.d : -0.5, "--" << o.name << " with a default");
        break;
      case STR:
        VP_EQ(v.as<std::string>(o.name), has ? g->second.s : std::string(), "--" << o.name);
        VP_EQ(v.as<std::string>(o.name, "dflt"), has ? g->second.s : std::string("dflt"), "--" << o.name << " with a default");
        break;
      case SIZ:
        VP_EQ(v.as<std::size_t>(o.name, 5), has ? g->second.u : std::size_t(5), "--" << o.name << " with a default");
        break;
      default: break;
      }
    }
    VP_EQ(v.count("unknown"), std::size_t(0), "count of an option that was never registered");
    VP_EQ(v.as<int>("other", 3), 3, "default of an option that was never registered");
    VP_EQ(v.count("help"), std::size_t(w.help), "count of --help");
  };
  int n = 0;
  for(auto & l : lines) {
    std::string prog = "prog" + std::to_string(n++);
    Want w = expand(opts, l, prog);
    std::vector<std::string> copy = w.argv;
    std::vector<char *> argv;
    for(auto & a : copy)
      argv.push_back(&a[0]);
    argv.push_back(nullptr);
    std::string out, err;
    bool error = false;
    {
      Capture c;
      auto r = l.print && n % 2 ? args.process_arguments(int(copy.size()), argv.data())
                                : args.process_arguments(int(copy.size()), argv.data(), l.print);
      out = c.o.str();
      err = c.e.str();
      error = r.error;
      if(!w.error && !r.error)
        kept.emplace_back(w, r.variables);
    }
    VP_EQ(copy, w.argv, "arguments after processing");
    VP_EQ(error, w.error, "error reported for the command line");
    if(!l.print)
      VP_EQ(out + err, std::string(), "printed with print=false");
    else if(error) {
      VP_ASSERT(err.find("ERROR") != std::string::npos, "an error without a message: " << vp::str(err));
      usage(err, opts, titles, prog, "the error message");
    }
    else {
      VP_EQ(err, std::string(), "printed to cerr without an error");
      if(w.help)
        usage(out, opts, titles, prog, "--help");
      else
        VP_EQ(out, std::string(), "printed without --help");
    }
    if(!w.error)
      read(w, kept.back().second);
    std::string miss = args.print_missing_argument("some-argument");
    VP_ASSERT(miss.find("'some-argument'") != std::string::npos && miss.find("ERROR") != std::string::npos,
      "missing-argument text: " << vp::str(miss));
    usage(miss, opts, titles, prog, "the missing-argument text");
  }
  own.reset(); // earlier results stay what they were
  for(auto & k : kept)
    read(k.first, k.second);
}
Item draw_item() {
  Item it;
  it.kind = *rc::gen::weightedElement<int>({{12, 0}, {1, 1}, {1, 2}, {2, 3}, {1, 4}, {1, 5}});
  it.option = *vp::range(0, 5);
  it.form = *vp::range(0, 3);
  it.bad = *vp::range(0, 14) == 0 ? *vp::range(1, 10) : 0;
  it.i = *vp::full<int>();
  it.d = *vp::dyadic(4096, 8);
  it.u = *vp::full<std::size_t>();
  it.s = *rc::gen::map(rc::gen::resize(8, rc::gen::container<std::string>(rc::gen::weightedOneOf<char>(
                         {{6, vp::range<char>('a', 'z')}, {2, vp::range<char>(' ', '~')}, {1, vp::of<char>({'=', ' ', '-', '/', '.'})}}))),
    [](std::string s) { return "v" + s; });
  return it;
}
} // namespace

VP_PROP(lines, 250) {
  std::vector<Option> opts;
  std::map<std::string, std::string> titles;
  for(auto & g : groups)
    if(!g.empty() && *vp::coin())
      titles[g] = "Title-of-" + g;
  std::string t;
  for(std::size_t i = 0; i < names.size(); ++i)
    if(*vp::range(0, 2)) {
      Option o{names[i], *vp::coin() ? std::string(1, char('a' + i)) : "", groups[*vp::range(0, 2)],
        "describes" + std::to_string(i) + "it", *vp::range(0, NTYPES - 1)};
      t += o.name + (o.brief.empty() ? "" : "," + o.brief) + ":" + std::to_string(o.type) + "@" + o.group + " ";
      opts.push_back(o);
    }
  std::vector<Line> lines;
  int n = *vp::range(1, 3);
  bool some = false;
  for(int i = 0; i < n; ++i) {
    Line l;
    int k = *vp::range(0, 6);
    for(int j = 0; j < k; ++j)
      l.items.push_back(draw_item());
    l.cut = *vp::range(0, 9) == 0;
    l.last = *vp::range(0, 5);
    l.print = *vp::coin();
    lines.push_back(l);
    Want w = expand(opts, l, "p");
    vp::tag(w.error ? "error" : w.help ? "help" : w.given.size() > 1 ? "several options" : "few options");
    some |= w.given.size() > 1;
    t += "| " + std::string(l.print ? "print" : "silent");
    for(auto & a : w.argv)
      t += " " + vp::str(a);
  }
  VP_CASE(some, t);
  vp::run([&] { check(opts, titles, lines, false); });
}

// ---- many options in many groups, long values
VP_PROP(large, 15) {
  int n = *vp::range(20, 300);
  int len = *vp::large(20000);
  auto seed = *vp::range(0, 1 << 30);
  VP_CASE(true, "n=" << n << " len=" << len << " seed=" << seed);
  vp::run([&] {
    vp::Lcg g(seed);
    ini::command_line_arguments_t args;
    std::map<std::string, std::string> titles;
    std::vector<Option> opts;
    std::string stem = seed % 2 ? "opt" : "a-rather-long-name-for-an-option_";
    std::string gstem = seed % 4 < 2 ? "g" : "a-group-with-a-long-name-";
    auto name = [&](int i) { return stem + std::to_string(1000 + i); };
    for(int i = 0; i < n; ++i) {
      std::string group = i % 3 ? gstem + std::to_string(i % 40) : "";
      if(!group.empty() && i < 40) {
        titles[group] = "Title" + group;
        args.register_group(group, titles[group]);
      }
      Option o{name(i), "", group, "about" + std::to_string(1000 + i), i % 2 ? INT : STR};
      if(i % 2)
        args.register_argument<int>(o.group, o.name, o.message);
      else
        args.register_argument<std::string>(o.group, o.name, o.message);
      opts.push_back(o);
    }
    std::vector<std::string> argv{"prog"};
    std::map<int, std::string> given;
    for(int i = 0; i < n; ++i) {
      if(g.upto(3) == 0)
        continue;
      std::string v = i % 2 ? std::to_string(int(g.next())) : "v" + std::string(g.upto(4) ? g.upto(30) : len, char('a' + g.upto(26)));
      given[i] = v;
      if(g.upto(2))
        argv.push_back("--" + name(i) + "=" + v);
      else {
        argv.push_back("--" + name(i));
        argv.push_back(v);
      }
    }
    std::vector<char *> p;
    for(auto & a : argv)
      p.push_back(&a[0]);
    p.push_back(nullptr);
    auto r = args.process_arguments(int(argv.size()), p.data(), false);
    VP_EQ(r.error, false, "error reported");
    for(int i = 0; i < n; ++i) {
      auto it = given.find(i);
      bool has = it != given.end();
      VP_EQ(r.variables.count(name(i)), std::size_t(has), "count of option " << i);
      if(i % 2)
        VP_EQ(r.variables.as<int>(name(i), -3), has ? std::stoi(it->second) : -3, "option " << i);
      else
        VP_EQ(r.variables.as<std::string>(name(i), "none"), has ? it->second : std::string("none"), "option " << i);
    }
    usage(args.print_missing_argument("x"), opts, titles, "prog", "the missing-argument text");
  });
}

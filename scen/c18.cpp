// C18: a configuration is read completely, or the gap is reported.
// Real: FilePropertiesProvider, MapPropertiesProvider, libstdc++ file streams.
#include "sim/sim.h"
#include "sim/fileio.h"
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <unistd.h>
#include <sys/stat.h>
#include "utils/properties_providers.h"

namespace {
struct File { std::string dir, name, text; bool exists = true; std::vector<std::string> lines; bool terminated = true; };
using Props = std::map<std::string, std::string>;
struct Tree {
  std::string root; std::vector<File> f;
  std::string rel(int i) const { return f[i].dir + f[i].name; }
};
const std::vector<std::string> Dirs{"", "sub/", "sub/deep/", "other/"};

// a path from a directory to a file of the tree
std::string path_from(const std::string &dir, const Tree &t, int to, int style) {
  std::string up; for (char c : dir) if (c == '/') up += "../";
  if (style == 0 && t.f[to].dir.compare(0, dir.size(), dir) == 0 && t.f[to].dir.size() >= dir.size()) return t.rel(to).substr(dir.size());
  if (style == 1) return "./" + up + t.rel(to);
  if (style == 2) return up + "sub/deep/../../" + t.rel(to);
  return up + t.rel(to);
}

// reference: reads file i completely; a file counts as loaded when its end is
// reached, so the files it includes come before it
struct Model {
  const Tree &t; std::vector<std::vector<int>> inc;  // per file, per line: included file or -1
  int dead = -1;                                     // this file cannot be read
  std::set<int> touched, looked;
  void load(int i, std::vector<int> open, Props &all) {
    looked.insert(i);
    if (!t.f[i].exists || i == dead) return;
    for (int o : open) if (o == i) return;
    open.push_back(i); touched.insert(i);
    Props own; size_t n = t.f[i].lines.size();
    for (size_t l = 0; l < n; ++l) {
      const std::string &s = t.f[i].lines[l];
      if (inc[i][l] >= 0) { load(inc[i][l], open, all); continue; }
      if (s.empty() || s[0] == '#' || s[0] == '<') continue;
      size_t d = s.find('='); if (d == std::string::npos) continue;
      own[s.substr(0, d)] = s.substr(d + 1);
    }
    for (auto &kv : own) all.insert(kv);
  }
};

std::string gen_key() { static const std::vector<const char *> k{"a", "slam/scmtch/type", "b", "slam/mapping/grid/type", "c/d", "x y", " k", "in/file/0", "d", "e"}; return k[sim::draw(10)]; }
std::string gen_val() {
  static const std::vector<const char *> v{"1", "", "true", "false", "0", "-3", "2.5e-3", "a=b", " spaced ", "#no comment", "<no include>", "ab\tc", "4294967295", "back\\", "\\", "a\\nb", "'q'", "\"q\"", "v;", "x\t", "cr\r", "$HOME", "%d", "==", "<"};
  if (sim::chance(1, 12)) return std::string(1 + sim::draw(sim::chance(1, 4) ? 20000 : 300), (char)('a' + sim::draw(26)));
  return sim::chance(1, 3) ? "v" + std::to_string(sim::draw(1000)) : v[sim::draw(v.size())];
}
}  // namespace

SCENARIO(config, "c18.config") {
  Tree t; t.root = sim::scratch() + "/";
  for (auto &d : Dirs) if (!d.empty()) mkdir((t.root + d).c_str(), 0755);
  bool chain = sim::chance(1, 10); int n = chain ? 7 + (int)sim::draw(40) : 1 + (int)sim::draw(6);   // a chain: every file includes the next one
  if (chain) sim::probe("long_include_chain");
  std::vector<std::vector<int>> inc(n + 2);
  for (int i = 0; i < n + 2; ++i) {
    File f; f.dir = Dirs[sim::draw(4)]; f.name = "f" + std::to_string(i) + (sim::chance(1, 3) ? ".properties" : ".cfg");
    f.exists = i < n; t.f.push_back(f);        // the last two do not exist
  }
  bool cyclic = false, missing = false;
  for (int i = 0; i < n; ++i) {
    File &f = t.f[i]; int m = chain ? 1 + (int)sim::draw(4) : (int)sim::draw(12), ninc = 0, link = chain ? (int)sim::draw(m) : -1;
    for (int l = 0; l < m; ++l) {
      sim::Span sp;
      int kind = sim::weighted({8, 4, 2, 2, 2, 1, 1}); int to = -1; std::string s;
      if (l == link) { ++ninc; to = i + 1; s = "<" + path_from(f.dir, t, to, (int)sim::draw(4)) + ">"; }
      else if (kind == 0) s = gen_key() + "=" + gen_val();
      else if (kind == 1 && ninc < (chain ? 0 : 3)) {
        ++ninc; to = sim::chance(1, 5) ? (int)sim::draw(n + 2) : i + 1 + (int)sim::draw(n + 1 - i);
        s = "<" + path_from(f.dir, t, to, (int)sim::draw(4)) + ">";
      } else if (kind == 2) s = "#" + gen_key() + "=" + gen_val();
      else if (kind == 3) s = "";
      else if (kind == 4) s = "no delimiter " + std::to_string(sim::draw(100));
      else if (kind == 5) s = "<" + path_from(f.dir, t, (int)sim::draw(n), 3) + (sim::chance(1, 2) ? "" : "> ");   // broken include
      else if (!chain || sim::chance(1, 5)) s = "#" + std::string(sim::chance(1, 2) ? 8180 + sim::draw(30) : 4090 + sim::draw(12), '-');   // moves the following lines over buffer borders
      f.lines.push_back(s); inc[i].push_back(to);
    }
    f.terminated = f.lines.empty() || f.lines.back().empty() || !sim::chance(1, 4);
    for (size_t l = 0; l < f.lines.size(); ++l) f.text += f.lines[l] + (l + 1 < f.lines.size() || f.terminated ? "\n" : "");
    sim::put_file(t.root + t.rel(i), f.text);
    sim::log("%s: %zu bytes%s", t.rel(i).c_str(), f.text.size(), f.terminated ? "" : ", no newline at the end");
    for (auto &l : f.lines) sim::log("  | %.70s", l.c_str());
  }
  // what the user does with the provider
  struct Op { int kind; int file; std::string k, v; bool relative; };
  std::vector<Op> ops; int no = 1 + (int)sim::draw(4);
  for (int i = 0; i < no; ++i) { sim::Span sp; Op o; o.kind = i && sim::chance(1, 4); o.file = i == 0 ? 0 : (int)sim::draw(n + 1); o.relative = sim::chance(1, 3);
    if (o.kind) { o.k = gen_key(); o.v = "set" + std::to_string(i); } ops.push_back(o);
    sim::log("op: %s %s", o.kind ? "set" : "append", o.kind ? o.k.c_str() : t.rel(o.file).c_str()); }
  int from = (int)sim::draw(4);     // current directory for relative names
  auto execute = [&](std::string &out) {
    return sim::subprocess([&] {
      if (chdir((t.root + Dirs[from]).c_str())) return 99;
      FilePropertiesProvider p;
      for (auto &o : ops) {
        if (o.kind) { p.set_property(o.k, o.v); continue; }
        std::string path = o.relative ? path_from(Dirs[from], t, o.file, 0) : t.root + t.rel(o.file);
        p.append_file_content(path);
      }
      std::cout << "\n@@@\n";
      for (auto &k : p.available_properties()) {
        std::cout << k << "=" << p.get_str(k, "?") << "\n";
        std::string v = p.get_str(k, "?"); std::ostringstream why;
        if (p.get_bool(k, v == "false") != !(v == "false" || v == "0")) std::cout << "@bool " << k << "\n";
        char *e = nullptr; double d = strtod(v.c_str(), &e);
        if (!v.empty() && *e == 0 && v.size() < 12 && v.find_first_not_of("0123456789+-.e") == std::string::npos) {
          if (p.get_dbl(k, 77) != d) std::cout << "@dbl " << k << "\n";
          if (d == (int)d && p.get_int(k, 77) != (int)d && v.find_first_of(".e") == std::string::npos) std::cout << "@int " << k << "\n";
        }
      }
      if (p.get_str("never set", "dflt") != "dflt" || p.get_int("never set", 5) != 5 || p.get_uint("never set", 6) != 6 || !p.get_bool("never set", true) || p.get_bool("never set", false) || p.get_dbl("never set", 0.5) != 0.5) std::cout << "@default\n";
      std::cout << "@end\n"; std::cout.flush();
      return 0; }, &out);
  };
  auto split = [&](const std::string &out, Props &got, std::string &warn, bool &complete) {
    size_t k = out.find("\n@@@\n"); complete = false; got.clear();
    if (k == std::string::npos) { warn = out; return; }
    warn = out.substr(0, k); std::istringstream is(out.substr(k + 5)); std::string l;
    while (std::getline(is, l)) {
      if (l == "@end") { complete = true; break; }
      EXPECT(l.empty() || l[0] != '@', "typed-read", "typed read of a property is wrong: %s", l.c_str());
      size_t d = l.find('='); if (d == std::string::npos) continue;
      EXPECT(!got.count(l.substr(0, d)), "listed-twice", "property %s is listed twice", l.substr(0, d).c_str());
      got[l.substr(0, d)] = l.substr(d + 1);
    }
  };
  auto expected = [&](int dead, std::set<int> &touched, std::set<int> &looked) {
    Props all; 
    for (auto &o : ops) { if (o.kind) all[o.k] = o.v; else { Model m{t, inc, dead}; m.load(o.file, {}, all); touched.insert(m.touched.begin(), m.touched.end()); looked.insert(m.looked.begin(), m.looked.end()); } }
    return all; };
  auto compare = [&](const Props &want, const Props &got, const char *how) {
    for (auto &kv : want) {
      auto g = got.find(kv.first);
      EXPECT(g != got.end(), "lost-key", "%s: '%s' is in the configuration but not loaded", how, kv.first.c_str());
      EXPECT(g->second == kv.second, "wrong-value", "%s: '%s' is '%.60s' (%zu bytes), the configuration says '%.60s' (%zu bytes)", how, kv.first.c_str(), g->second.c_str(), g->second.size(), kv.second.c_str(), kv.second.size());
    }
    for (auto &kv : got) EXPECT(want.count(kv.first), "invented-key", "%s: '%s' is loaded but not in the configuration", how, kv.first.c_str());
  };
  for (int i = 0; i < n; ++i) for (int to : inc[i]) { if (to >= n) missing = true; if (to >= 0 && to <= i) cyclic = true; }
  if (cyclic) sim::probe("include_cycle"); if (missing) sim::probe("missing_include");
  Props got; std::string warn, out; bool complete; std::set<int> touched, looked;
  Props want = expected(-1, touched, looked);
  auto judge = [&](const char *how) {
    int rc = execute(out);
    EXPECT(rc == 0, "crash", "%s: loading the configuration ends the process with %d: %s", how, rc, out.substr(out.size() < 300 ? 0 : out.size() - 300).c_str());
    split(out, got, warn, complete);
    EXPECT(complete, "crash", "%s: loading the configuration did not finish", how);
  };
  sim::io_reset({}); judge("healthy"); compare(want, got, "healthy disk");
  for (int i : looked) if (!t.f[i].exists) EXPECT(warn.find(t.f[i].name) != std::string::npos, "silent-skip", "missing file %s is skipped without a warning", t.rel(i).c_str());
  sim::log("healthy: %zu properties", got.size());
  if (touched.size() > 1 || no > 1) sim::nontrivial();
  sim::state(touched.size() * 64 + got.size() * 4 + cyclic * 2 + missing);
  std::vector<int> tf(touched.begin(), touched.end());
  int tries = 2 + (int)sim::draw(3);
  for (int k = 0; k < tries; ++k) {
    sim::Span sp; sim::step();
    sim::IoPlan pl; pl.on = true; int what = sim::weighted({4, 3, 2});
    pl.short_read = (int)sim::draw(3) * 45; pl.eintr = (int)sim::draw(3) * 20;
    int i = tf[sim::draw((uint32_t)tf.size())]; std::set<int> tt, ll;
    if (what == 0 || tf.empty()) {
      sim::io_reset(pl); judge("short and interrupted reads"); sim::io_reset({});
      compare(want, got, "short and interrupted reads"); sim::nontrivial();
    } else if (what == 1) {
      pl.read_fail = t.root + t.rel(i); pl.read_fail_at = sim::chance(1, 2) ? 1 : 1 + (int)sim::draw(6);
      sim::log("read %d of %s fails", pl.read_fail_at, t.rel(i).c_str());
      sim::io_reset(pl); judge("read error"); bool errd = sim::io_failed(); sim::io_reset({});
      if (!errd) { compare(want, got, "read error beyond the end"); continue; }
      sim::nontrivial();
      EXPECT(warn.find(t.f[i].name) != std::string::npos, "silent-gap", "reading %s fails (read %d) and nothing is reported", t.rel(i).c_str(), pl.read_fail_at);
      if (pl.read_fail_at == 1) { compare(expected(i, tt, ll), got, "read error"); continue; }
      // what is loaded must be in the files
      for (auto &kv : got) {
        bool ok = false;
        for (auto &o : ops) ok |= o.kind && o.k == kv.first && o.v == kv.second;
        for (int q : touched) for (auto &l : t.f[q].lines) ok |= l == kv.first + "=" + kv.second;
        EXPECT(ok, "torn-value", "after a read error '%s' has the value '%.60s' of no file", kv.first.c_str(), kv.second.c_str());
      }
      for (auto &kv : got) EXPECT(want.count(kv.first), "invented-key", "after a read error '%s' is loaded but not in the configuration", kv.first.c_str());
    } else {
      pl.open_fail = t.root + t.rel(i); sim::log("%s cannot be opened", t.rel(i).c_str());
      sim::io_reset(pl); judge("open error"); bool errd = sim::io_failed(); sim::io_reset({});
      if (!errd) { compare(want, got, "unused open error"); continue; }
      sim::nontrivial();
      EXPECT(warn.find(t.f[i].name) != std::string::npos, "silent-skip", "%s cannot be opened and nothing is reported", t.rel(i).c_str());
      compare(expected(i, tt, ll), got, "open error");
    }
  }
}

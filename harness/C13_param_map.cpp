// C13: ParamMap as a string map: last value wins whatever the source, text and command-line parsing, typed reads, file round trips.
#include "vmon.h"

#include <array>
#include <fstream>
#include <iterator>

#include <rofl/common/param_map.h>

using namespace vmon;
typedef std::map<std::string, std::string> Model;

static std::string token(Rng& r, size_t lenMax, bool startAlpha) {
  static const std::string a = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
  static const std::string any = a + "0123456789_-./~[],:=+#%\"'\\";
  size_t n = 1 + r.below(lenMax);
  std::string s;
  for (size_t i = 0; i < n; ++i) s += (i == 0 && startAlpha) ? a[r.below(a.size())] : any[r.below(any.size())];
  return s;
}
static std::string value(Rng& r) {
  switch (r.below(9)) {
    case 0: return std::to_string(r.range(-1000000, 1000000));
    case 1: return std::to_string(r.uni(-100, 100));
    case 2: return "~/" + token(r, 12, false);
    case 3: return token(r, 30, false);
    case 4: return "[" + std::to_string(r.range(-9, 9)) + "," + std::to_string(r.range(-9, 9)) + "]";
    case 5: return token(r, 2, false);
    case 6: return r.chance(0.3) ? std::string((size_t)r.range(1900, 6000), 'v') + token(r, 9, false) : token(r, 9, false);
    case 7: return r.chance(0.2) ? "-." + std::to_string(r.range(0, 99)) : "-" + std::to_string(r.range(0, 99));
    default: return token(r, 9, true);
  }
}
static bool isOption(const std::string& s) {
  return s.size() >= 2 && s[0] == '-' && ((s[1] >= 'a' && s[1] <= 'z') || (s[1] >= 'A' && s[1] <= 'Z'));
}
static std::string dump(const Model& m) {
  std::string s;
  for (auto& p : m) s += (s.empty() ? "" : ", ") + p.first.substr(0, 20) + "=" + (p.second.size() > 40 ? cat("<", p.second.size(), " chars>") : p.second);
  return s.substr(0, 600);
}
static void same(const rofl::ParamMap& pm, const Model& m, const char* key, const std::string& when) {
  std::ostringstream o;
  pm.write(o);
  std::istringstream in(o.str());
  std::string line;
  Model got;
  while (std::getline(in, line)) {
    size_t sp = line.find(' ');
    CHECK(sp != std::string::npos, key, when, ": written line without a value: ", line.substr(0, 80));
    CHECK(got.emplace(line.substr(0, sp), line.substr(sp + 1)).second, key, when, ": parameter written twice: ", line.substr(0, 80));
  }
  CHECK(got == m, key, when, ": the map holds {", dump(got), "} expected {", dump(m), "}");
}

static void history(Rng& r) {
  rofl::ParamMap pm;
  Model m;
  std::vector<std::string> names;
  int nn = r.chance(0.01) ? (int)r.range(100, 600) : (int)r.range(1, 8);
  for (int i = 0; i < nn; ++i) {
    std::string nm = token(r, r.chance(0.05) ? 300 : 10, true);
    if (!names.empty() && r.chance(0.3)) {  // names that differ in little
      nm = r.pick(names);
      switch (r.below(5)) {
        case 0: nm += token(r, 1, false); break;
        case 1: nm = token(r, 1, true) + nm; break;
        case 2: nm[0] ^= 32; break;
        case 3: nm.back() ^= std::isalpha((unsigned char)nm.back()) ? 32 : 0; break;
        case 4: nm = nm.substr(0, (nm.size() + 1) / 2); break;
      }
    }
    names.push_back(nm);
  }
  if (nn > 8) {
    count("many_parameters");
    for (auto& nm : names) {
      std::string v = value(r);
      pm.setParamString(nm, v);
      m[nm] = v;
    }
    same(pm, m, "set", cat("setting ", nn, " parameters"));
  }
  const std::string dir = getenv("VMON_SCRATCH") ? getenv("VMON_SCRATCH") : ".";
  int steps = (int)r.range(3, 25);
  uint64_t h = 0;
  std::string trace;
  for (int st = 0; st < steps; ++st) {
    int what = (int)r.below(14);
    std::string n = r.pick(names);
    h = comb(h, what);
    trace += cat(" ", what);
    switch (what) {
      case 0: {
        std::string v = value(r);
        if (r.chance(0.15)) v += " " + value(r), count("values_with_spaces");
        op("setParamString");
        pm.setParamString(n, v);
        m[n] = v;
        same(pm, m, "set", "setParamString(" + n + "," + v.substr(0, 40) + ")");
        count("set");
        break;
      }
      case 1: {
        op("setParam<int>");
        int v = (int)r.range(-2000000000, 2000000000);
        pm.setParam(n, v);
        m[n] = std::to_string(v);
        same(pm, m, "set", "setParam int");
        int back = 0;
        CHECK(pm.getParam<int>(n, back, 7) && back == v, "get", "setParam(", v, ") is read back as ", back);
        count("set");
        break;
      }
      case 2: {  // doubles keep at least the six significant digits of the stream format
        op("setParam<double>");
        double v = r.chance(0.2) ? (double)r.range(-1000, 1000) : r.uni(-1, 1) * std::pow(10.0, (double)r.range(-8, 8));
        pm.setParam(n, v);
        double back = 0;
        CHECK(pm.getParam<double>(n, back, 7.0), "get", "a parameter that was set is reported missing");
        CHECK(std::fabs(back - v) <= 1e-5 * std::fabs(v), "get", "setParam(", v, ") is read back as ", back);
        std::ostringstream o;
        pm.write(o);
        std::istringstream in(o.str());
        for (std::string line; std::getline(in, line);)
          if (line.substr(0, line.find(' ')) == n) m[n] = line.substr(line.find(' ') + 1);
        same(pm, m, "set", "setParam double");
        count("set");
        break;
      }
      case 3: {  // text: comments, blanks, lines without value, extra tokens, CRLF, long lines, repeated names, missing final newline
        op("read(stream)");
        std::string text;
        int lines = (int)r.range(0, 14);
        std::string last;
        for (int i = 0; i < lines; ++i) {
          std::string nm = r.pick(names), v = value(r);
          std::string line;
          switch (r.below(10)) {
            case 0: line = "#" + nm + " " + v; break;
            case 1: line = r.chance(0.5) ? "" : "   \t "; break;
            case 2: line = nm; break;
            case 3: line = "  # " + nm + " " + v; break;
            case 4: line = "\t " + nm + " \t " + v + " " + value(r) + " trailing"; m[nm] = v; break;
            case 5: line = nm + " " + v + "\r"; m[nm] = v; break;
            case 6: line = nm + std::string(r.chance(0.3) ? r.range(1990, 2010) : r.below(20) + 1, ' ') + v; m[nm] = v; break;
            case 7:
              if (r.chance(0.2)) {
                line = "# " + std::string((size_t)r.range(1990, 5000), 'c');
                break;
              }
              // fallthrough
            default: line = nm + " " + v; m[nm] = v;
          }
          if (line.size() > 1990) count("long_lines");
          text += line;
          if (i + 1 < lines || r.chance(0.7)) text += "\n";
        }
        std::istringstream in(text);
        CHECK(pm.read(in), "read", "read from a stream reported failure");
        same(pm, m, "read", cat("reading ", lines, " lines: ", text.substr(0, 300)));
        count("read_text");
        break;
      }
      case 4: {
        op("read(argc,argv)");
        std::vector<std::string> args{"program"};
        int k = (int)r.range(0, 10);
        for (int i = 0; i < k; ++i) {
          switch (r.below(8)) {
            case 0: args.push_back("-" + r.pick(names)); break;
            case 1: args.push_back(value(r)); break;
            case 2: args.push_back(r.chance(0.5) ? "-" : "--" + r.pick(names)); break;
            case 3:
              args.push_back("-" + r.pick(names));
              args.push_back("v" + value(r) + " " + value(r));
              break;
            default: args.push_back("-" + r.pick(names)); args.push_back(value(r));
          }
        }
        if (r.chance(0.1)) args[0] = "-" + r.pick(names);
        for (size_t i = 1; i + 1 < args.size(); ++i)
          if (isOption(args[i]) && !isOption(args[i + 1])) m[args[i].substr(1)] = args[i + 1];
        std::vector<std::vector<char>> store;
        for (auto& a : args) store.emplace_back(a.c_str(), a.c_str() + a.size() + 1);
        std::vector<char*> argv;
        for (auto& a : store) argv.push_back(a.data());
        argv.push_back(nullptr);
        CHECK(pm.read((int)args.size(), argv.data()), "read", "read from the command line reported failure");
        std::string joined;
        for (auto& a : args) joined += a.substr(0, 40) + " ";
        same(pm, m, "cmdline", "command line: " + joined);
        count("read_cmdline");
        break;
      }
      case 5: case 6: {  // file round trip into a fresh map, and into this one (its values win over later changes)
        op("write/read file");
        std::string fn = dir + "/params_" + std::to_string(r.below(3)) + ".txt";
        for (auto& p : m)
          if (p.second.find(' ') != std::string::npos) {  // the text format carries one word for each name
            p.second = value(r);
            pm.setParamString(p.first, p.second);
          }
        if (r.chance(0.4)) {  // a file of an earlier run, to be replaced
          std::ofstream old(fn);
          old << "old_name 17\n" << r.pick(names) << " old_value\n";
          for (int k = (int)r.below(40); k > 0; --k) old << "old" << k << " " << k << "\n";
          count("files_replaced");
        }
        CHECK(pm.write(fn), "file", "write to a scratch file failed");
        rofl::ParamMap q;
        Model mq;
        if (r.chance(0.5)) {
          q.setParamString("zz_other", "1");
          mq["zz_other"] = "1";
          std::string nm = r.pick(names);
          q.setParamString(nm, "stale");
          mq[nm] = "stale";
        }
        for (auto& p : m)
          if (!p.second.empty()) mq[p.first] = p.second;  // the text format cannot carry an empty value
        CHECK(q.read(fn), "file", "read of a file just written failed");
        same(q, mq, "roundtrip", "write to a file and read back");
        unlink(fn.c_str());
        std::string absent = dir + "/does_not_exist/x.txt";
        CHECK(!q.read(absent) && !q.write(absent), "file", "an absent file was reported as read or written");
        same(q, mq, "file", "reading an absent file");
        count("roundtrips");
        break;
      }
      case 7: {
        op("write with prefix");
        std::ostringstream o, plain;
        std::string prefix = r.chance(0.5) ? "#  " : "# cfg ";
        pm.write(o, prefix);
        pm.write(plain);
        std::istringstream a(o.str()), b(plain.str());
        std::string la, lb;
        while (std::getline(b, lb)) {
          CHECK((bool)std::getline(a, la) && la == prefix + lb, "prefix", "prefixed line '", la.substr(0, 60), "' for '", lb.substr(0, 60), "'");
        }
        CHECK(!std::getline(a, la), "prefix", "extra prefixed lines");
        rofl::ParamMap q;
        std::istringstream in(o.str());
        q.read(in);
        same(q, Model(), "prefix", "reading a commented dump");
        count("prefix");
        break;
      }
      case 8: {
        op("getParam");
        std::string nm = r.chance(0.6) ? n : "absent_" + token(r, 4, true);
        bool has = m.count(nm) > 0;
        std::string s = "untouched", def = token(r, 6, true);
        bool ret = pm.getParam<std::string>(nm, s, def);
        CHECK(ret == has, "get", "getParam returned ", ret, " for a parameter that is ", has ? "present" : "absent");
        CHECK(s == (has ? m[nm] : def), "get", "getParam gave '", s.substr(0, 60), "' expected '", (has ? m[nm] : def).substr(0, 60), "'");
        if (!has) m[nm] = def;
        same(pm, m, "default", has ? "getParam of a present parameter" : "getParam of an absent parameter must record its default");
        count(has ? "get_present" : "get_default");
        break;
      }
      case 9: {
        op("getParam typed");
        int iv = (int)r.range(-100000, 100000);
        double dv = r.uni(-1e6, 1e6);
        std::ostringstream o;
        o << std::setprecision(17) << dv;
        pm.setParamString("typed_i", std::to_string(iv));
        pm.setParamString("typed_d", o.str());
        pm.setParamString("typed_b", iv % 2 ? "1" : "0");
        m["typed_i"] = std::to_string(iv);
        m["typed_d"] = o.str();
        m["typed_b"] = iv % 2 ? "1" : "0";
        int gi = 0;
        double gd = 0;
        bool gb = false;
        CHECK(pm.getParam<int>("typed_i", gi, -1) && gi == iv, "get", "int parameter '", iv, "' read as ", gi);
        CHECK(pm.getParam<double>("typed_d", gd, -1.0) && gd == dv, "get", "double parameter ", o.str(), " read as ", gd);
        CHECK(pm.getParam<bool>("typed_b", gb, false) && gb == (iv % 2 != 0), "get", "bool parameter read wrong");
        count("get_typed");
        // defaults of other types, recorded and read back
        std::string dn = "def_" + std::to_string(st);
        double dd = r.uni(-1, 1) * std::pow(10.0, (double)r.range(-6, 6)), gd2 = 0;
        CHECK(!pm.getParam<double>(dn + "d", gd2, dd) && gd2 == dd, "default", "default ", dd, " read as ", gd2);
        CHECK(pm.getParam<double>(dn + "d", gd2, 77.0) && std::fabs(gd2 - dd) <= 1e-5 * std::fabs(dd), "default", "recorded default ", dd, " read as ", gd2);
        unsigned long ud = r.next(), gu = 0;
        CHECK(!pm.getParam<unsigned long>(dn + "u", gu, ud) && gu == ud, "default", "default ", ud, " read as ", gu);
        CHECK(pm.getParam<unsigned long>(dn + "u", gu, 7ul) && gu == ud, "default", "recorded default ", ud, " read as ", gu);
        m[dn + "u"] = std::to_string(ud);
        bool bd = r.chance(0.5), gb2 = !bd;
        CHECK(!pm.getParam<bool>(dn + "b", gb2, bd) && gb2 == bd, "default", "default ", bd, " read as ", gb2);
        gb2 = !bd;
        CHECK(pm.getParam<bool>(dn + "b", gb2, !bd) && gb2 == bd, "default", "recorded default ", bd, " read as ", gb2);
        std::ostringstream all;
        pm.write(all);
        std::istringstream in(all.str());
        for (std::string line; std::getline(in, line);) {
          std::string nm = line.substr(0, line.find(' '));
          if (nm == dn + "d" || nm == dn + "b") m[nm] = line.substr(line.find(' ') + 1);
        }
        // a value that does not have the requested type stays as it is
        pm.setParamString("typed_w", "word");
        m["typed_w"] = "word";
        std::streambuf* err = std::cerr.rdbuf(nullptr);
        int gw = 5;
        pm.getParam<int>("typed_w", gw, 9);
        std::vector<double> gv(2, 0);
        pm.getParamContainer("typed_w", gv.begin(), gv.end(), std::string("[1,2]"), 3.0);
        std::cerr.rdbuf(err);
        std::cerr.clear();
        same(pm, m, "get", "typed reads");
        break;
      }
      case 10: {  // containers
        op("getParamContainer");
        int k = (int)r.range(0, 6);
        std::vector<int> vals;
        std::string s = "[";
        for (int i = 0; i < k; ++i) {
          vals.push_back((int)r.range(-50, 50));
          s += (i ? "," : "") + std::to_string(vals[i]);
        }
        s += "]";
        bool has = r.chance(0.6);
        std::string nm = has ? "vec" : "vec_absent_" + std::to_string(st);
        if (has) {
          pm.setParamString("vec", s);
          m["vec"] = s;
        }
        std::vector<int> want(1 + r.below(6)), got(want.size(), 77);
        int def = (int)r.range(-5, 5);
        std::string defs = r.chance(0.5) ? "[1,2]" : "";
        std::vector<int> dvals;
        if (!defs.empty()) dvals = {1, 2};
        const std::vector<int>& src = has ? vals : dvals;
        for (size_t i = 0; i < want.size(); ++i) want[i] = i < src.size() ? src[i] : def;
        bool ret = pm.getParamContainer(nm, got.begin(), got.end(), defs, def, "[],");
        CHECK(ret == has, "container", "getParamContainer returned ", ret);
        CHECK(got == want, "container", "getParamContainer of '", has ? s : defs, "' into ", want.size(), " gave ", show(got), " expected ", show(want));
        if (!has) m[nm] = defs;
        same(pm, m, "container", "getParamContainer");
        if (has) {
          std::vector<int> all;
          CHECK(pm.getParamContainerInserter(nm, std::back_inserter(all), 0, "[],"), "container", "inserter variant reports the parameter missing");
          CHECK(all == vals, "container", "getParamContainerInserter of '", s, "' gave ", show(all));
        } else {
          std::string nm2 = nm + "_i";
          std::vector<int> all;
          CHECK(!pm.getParamContainerInserter(nm2, std::back_inserter(all), 0, "[],") && all.empty(), "container", "inserter variant of an absent parameter");
          m[nm2] = "";
          same(pm, m, "container", "getParamContainerInserter");
        }
        {  // other types, containers and delimiters
          std::string del = r.pick(std::vector<std::string>{";", "()|", ":,"}), txt;
          std::vector<double> dv;
          std::array<double, 4> arr{9, 9, 9, 9};
          int kk = (int)r.range(0, 6);
          for (int i = 0; i < kk; ++i) {
            dv.push_back((double)r.range(-800, 800) / 8);
            txt += (i ? std::string(1, del.back()) : del == "()|" ? "(" : "") + cat(dv[i]);
          }
          if (del == "()|") txt += ")";
          pm.setParamString("vecd", txt);
          m["vecd"] = txt;
          CHECK(pm.getParamContainer("vecd", arr.begin(), arr.end(), std::string(), -1.5, del), "container", "getParamContainer reports a parameter as missing");
          for (size_t i = 0; i < arr.size(); ++i) CHECK(arr[i] == (i < dv.size() ? dv[i] : -1.5), "container", "getParamContainer of '", txt, "' with delimiters '", del, "' gave ", show(arr));
          std::vector<double> all;
          CHECK(pm.getParamContainerInserter("vecd", std::inserter(all, all.end()), 0.0, del) && all == dv, "container", "getParamContainerInserter of '", txt, "' with delimiters '", del, "' gave ", show(all));
          same(pm, m, "container", "reading containers");
        }
        count("containers");
        break;
      }
      case 11: {  // tilde
        op("adaptTildeInPaths");
        std::string home = "/home/" + token(r, 8, true);
        if (home.back() == '/') home += "h";
        setenv("HOME", home.c_str(), 1);
        for (auto& p : m)
          if (p.second == "~") {  // the home directory itself: not part of the claim
            p.second = "~/";
            pm.setParamString(p.first, p.second);
          }
        std::string nm = r.pick(names), v = r.pick(std::vector<std::string>{"~/data/a.txt", "~/a~b", "~/~", "x~/y", "/tmp/~", "~" + token(r, 5, true).substr(0, 4) + "x", "~user/a", "~~/b", "~/" + token(r, 5, true) + "~"});
        pm.setParamString(nm, v);
        m[nm] = v;
        for (auto& p : m)
          if (p.second.size() >= 2 && p.second[0] == '~' && p.second[1] == '/') {
            p.second = home + p.second.substr(1);
            count("tilde_paths");
          }
        pm.adaptTildeInPaths();
        same(pm, m, "tilde", "adaptTildeInPaths with HOME=" + home);
        pm.adaptTildeInPaths();
        same(pm, m, "tilde", "adaptTildeInPaths a second time");
        break;
      }
      case 12: {
        op("copy");
        rofl::ParamMap q(pm);
        q.setParamString(n, "changed_in_copy");
        same(pm, m, "copy", "changing a copy");
        if (r.chance(0.2)) {
          pm.clear();
          m.clear();
          same(pm, m, "clear", "clear()");
        }
        break;
      }
      case 13: {
        op("adaptTildeInPaths without HOME");
        unsetenv("HOME");
        bool tilde = false;
        for (auto& p : m) tilde = tilde || p.second[0] == '~';
        pm.adaptTildeInPaths();
        if (!tilde) same(pm, m, "tilde", "adaptTildeInPaths without HOME and without tildes");
        else {
          for (auto& p : m)
            if (!p.second.empty() && p.second[0] == '~') {
              p.second = "reset";
              pm.setParamString(p.first, "reset");
            }
          same(pm, m, "tilde", "adaptTildeInPaths without HOME changed other parameters");
        }
        count("tilde_no_home");
        break;
      }
    }
  }
  maximum("parameters", (double)m.size());
  sig(comb(h, hashStr(dump(m))));
  if (wantSample()) sample(cat("operations", trace, " final {", dump(m), "}"));
}

const char* vmon_property() { return "C13"; }
uint64_t vmon_cases(bool thorough) { return thorough ? 200000 : 8000; }
void vmon_case(uint64_t, Rng& r) {
  require("roundtrips", 500);
  require("read_text", 500);
  require("read_cmdline", 500);
  require("long_lines", 20);
  require("tilde_paths", 100);
  require("get_default", 100);
  history(r);
}

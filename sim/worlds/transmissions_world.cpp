// A robot whose joints are connected to its actuators by transmissions, loaded from a description or set up directly,
// with damaged descriptions, failing plugins, missing hardware and a faulty encoder bus. Decides C24 and C25.
#include "../core/framework.h"
#include "../stubs/simworld.h"

#include <transmission_interface/differential_transmission.h>
#include <transmission_interface/four_bar_linkage_transmission.h>
#include <transmission_interface/robot_transmissions.h>
#include <transmission_interface/simple_transmission.h>
#include <transmission_interface/transmission_interface.h>
#include <transmission_interface/transmission_interface_loader.h>
#include <transmission_interface/transmission_loader.h>
#include <transmission_interface/transmission_parser.h>
#include <pluginlib/class_loader.hpp>

#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <memory>
#include <set>

using fw::Line;
using fw::Plan;
using sim::NoSim;
namespace hi = hardware_interface;
namespace ti = transmission_interface;

namespace
{
const double NaN = std::numeric_limits<double>::quiet_NaN();
const char* S(const std::string& s) { return s.c_str(); }
std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.12g", v); return b; }
template <class T> bool in(const std::vector<T>& v, const T& x) { return std::find(v.begin(), v.end(), x) != v.end(); }

enum Q { POS, VEL, EFF, ABS, TOR };
const char* QN[] = {"position", "velocity", "effort", "absolute position", "torque"};

// ------------------------------------------------------------------------------------------------ reference model
struct Val { long double v = 0, s = 0; };  // a value and the magnitude it is composed of
Val operator+(Val a, Val b) { return {a.v + b.v, a.s + b.s}; }
Val operator-(Val a, Val b) { return {a.v - b.v, a.s + b.s}; }
Val operator*(Val a, long double k) { return {a.v * k, a.s * fabsl(k)}; }
Val operator/(Val a, long double k) { return {a.v / k, a.s / fabsl(k)}; }
Val val(double d) { return {d, fabsl(d)}; }
struct Kin
{
  char type = 'S';
  double ar[2] = {1, 1}, jr[2] = {1, 1}, off[2] = {0, 0};
  bool ign = false;
  int n() const { return type == 'S' ? 1 : 2; }
  // actuator to joint
  std::vector<Val> a2j(Q q, const std::vector<double>& av) const
  {
    std::vector<Val> a, j;
    for (double d : av) a.push_back(val(d));
    bool flow = q == POS || q == VEL || q == ABS;
    if (q == ABS && type == 'D' && ign) return {a[1], a[0]};
    if (type == 'S') j = {flow ? a[0] / ar[0] : a[0] * ar[0]};
    else if (type == 'D')
      j = flow ? std::vector<Val>{(a[0] / ar[0] + a[1] / ar[1]) / (2.0L * jr[0]), (a[0] / ar[0] - a[1] / ar[1]) / (2.0L * jr[1])}
               : std::vector<Val>{(a[0] * ar[0] + a[1] * ar[1]) * jr[0], (a[0] * ar[0] - a[1] * ar[1]) * jr[1]};
    else
      j = flow ? std::vector<Val>{a[0] / ((long double)jr[0] * ar[0]), (a[1] / ar[1] - a[0] / ((long double)jr[0] * ar[0])) / jr[1]}
               : std::vector<Val>{a[0] * ((long double)jr[0] * ar[0]), (a[1] * ar[1] - a[0] * ((long double)ar[0] * jr[0])) * jr[1]};
    if (q == POS || q == ABS) for (int i = 0; i < n(); ++i) j[i] = j[i] + val(off[i]);
    return j;
  }
  // joint to actuator
  std::vector<Val> j2a(Q q, const std::vector<double>& jv) const
  {
    std::vector<Val> j;
    for (int i = 0; i < n(); ++i) j.push_back(q == POS ? val(jv[i]) - val(off[i]) : val(jv[i]));
    bool flow = q != EFF;
    if (type == 'S') return {flow ? j[0] * ar[0] : j[0] / ar[0]};
    if (type == 'D')
      return flow ? std::vector<Val>{(j[0] * jr[0] + j[1] * jr[1]) * ar[0], (j[0] * jr[0] - j[1] * jr[1]) * ar[1]}
                  : std::vector<Val>{(j[0] / jr[0] + j[1] / jr[1]) / (2.0L * ar[0]), (j[0] / jr[0] - j[1] / jr[1]) / (2.0L * ar[1])};
    return flow ? std::vector<Val>{j[0] * ((long double)jr[0] * ar[0]), (j[0] + j[1] * jr[1]) * ar[1]}
                : std::vector<Val>{j[0] / ((long double)ar[0] * jr[0]), (j[0] + j[1] / jr[1]) / ar[1]};
  }
};

struct El  // a joint or actuator element of a description
{
  bool has_name = false, has_role = false, has_red = false, has_off = false, ign = false;
  std::string name, role, red, off;
  std::vector<std::string> hw;
};
struct Tr
{
  int id = 0;
  bool has_name = false, has_type = false;
  std::string name, type;
  std::vector<El> joints, acts;
  uint64_t fmt = 0;
  // results of the model
  Kin kin;
  std::vector<std::string> jn, an;  // in the order of the transmission
  std::vector<std::string> sets;    // interfaces that can be set up
};
const std::vector<std::pair<std::string, std::string>> HW = {
  {"JS", "hardware_interface/JointStateInterface"}, {"P", "hardware_interface/PositionJointInterface"}, {"V", "hardware_interface/VelocityJointInterface"},
  {"E", "hardware_interface/EffortJointInterface"}, {"bP", "hardware_interface/BiDirectionalPositionJointInterface"},
  {"bV", "hardware_interface/BiDirectionalVelocityJointInterface"}, {"bE", "hardware_interface/BiDirectionalEffortJointInterface"}};
std::string hw_name(const std::string& k) { for (auto& p : HW) if (p.first == k) return p.second; return k == "_" ? "" : "bogus_interface/" + k; }
std::string type_name(const std::string& t)
{
  return t == "S" ? "transmission_interface/SimpleTransmission" : t == "D" ? "transmission_interface/DifferentialTransmission" : t == "F" ? "transmission_interface/FourBarLinkageTransmission" : t.empty() ? "" : "bogus_transmissions/" + t;
}
bool number(const std::string& s, double& v)
{
  if (s == "@") return false;
  try { v = std::stod(s); } catch (const std::logic_error&) { return false; }
  return true;
}
double mode_of(const std::string& k) { return k.back() == 'P' ? POS : k.back() == 'V' ? VEL : EFF; }

// ------------------------------------------------------------------------------------------------ the simulated robot
struct Ev { std::string kind; uint64_t at = 0, dur = 1; bool on(uint64_t c) const { return c >= at && c < at + dur; } };
struct Act
{
  std::string name, ifaces;
  bool state = true, abs = false, tor = false;
  double d[5] = {0, 0, 0, 0, 0}, cmd[3] = {0, 0, 0};  // shared with the code under test
  double x[5] = {0, 0, 0, 0, 0};                     // the device
  std::vector<std::pair<uint64_t, std::array<double, 5>>> flight;
  std::array<double, 5> del = {};                    // last delivered sample
  bool echo = false;                                 // the delivered sample is the last command
  std::vector<Ev> evs;
};
struct Robot : hi::RobotHW
{
  hi::ActuatorStateInterface as;
  hi::PositionActuatorInterface ap;
  hi::VelocityActuatorInterface av;
  hi::EffortActuatorInterface ae;
  hi::JointStateInterface js;
  hi::PositionJointInterface jp;
  double own[6] = {1, 2, 3, 4, 5, 6};
  std::map<std::string, std::array<double, 3>> ownj;  // joints of transmissions whose state the robot itself measures
};
struct Direct
{
  int id = 0;
  std::string kind, name;
  Kin kin;
  std::unique_ptr<ti::Transmission> trans;
  double a[5][3], j[5][3];
  bool ah[5], jh[5];
};
struct Ifaces
{
  ti::ActuatorToJointStateInterface a2js;
  ti::ActuatorToJointPositionInterface a2jp;
  ti::ActuatorToJointVelocityInterface a2jv;
  ti::ActuatorToJointEffortInterface a2je;
  ti::JointToActuatorStateInterface j2as;
  ti::JointToActuatorPositionInterface j2ap;
  ti::JointToActuatorVelocityInterface j2av;
  ti::JointToActuatorEffortInterface j2ae;
};
struct Exp { Val v; std::string what; const char* props; };
struct TW
{
  uint64_t cycles = 0, dt = 1000000, bus = 500000, cycle = 0;
  bool ownjs = false, ownjp = false, pre = false, sep = false;
  std::vector<std::unique_ptr<Act>> acts;
  std::map<std::string, Act*> by;
  std::vector<Tr> trs;
  std::vector<std::unique_ptr<Direct>> dirs;
  std::unique_ptr<Robot> hw;
  std::unique_ptr<ti::RobotTransmissions> rt;
  std::unique_ptr<ti::TransmissionInterfaceLoader> loader[2];
  std::unique_ptr<Ifaces> ifs;  // interfaces of the robot's own transmissions
  std::map<std::string, Tr> loaded;
  std::map<int, int> by_loader;  // which loader a transmission is given to
  std::set<std::string> maybe;  // transmissions of which it is unknown whether they are loaded
  std::map<std::string, std::string> faults;  // class -> kind, during the current load
  std::map<std::string, double> jcmd;
  std::set<std::string> ownj;
  bool done = false;
  sim::Rng rng{1};
};

struct TransmissionsWorld : fw::World
{
  TW w;
  std::vector<std::string> properties() override { return {"C24", "C25"}; }

  // ---------------------------------------------------------------------------------------------- generation
  static double ratio(sim::Rng& r)
  {
    double v = r.chance(0.2) ? r.uniform(0.001, 0.1) : r.chance(0.2) ? r.uniform(50, 1000) : r.uniform(0.2, 20);
    return r.chance(0.3) ? -v : v;
  }
  Plan generate(const std::string& prop, sim::Rng& r, bool thorough) override
  {
    Plan pl;
    bool load_focus = prop == "C25";
    Line& cfg = pl.add("cfg");
    int cycles = load_focus ? r.range(1, 12) : r.range(5, thorough ? 150 : 40);
    long long dt = r.pick(std::vector<long long>{100000, 1000000, 10000000});
    cfg.set("cycles", cycles).set("dt", dt).set("bus", (long long)(dt * r.uniform(0.2, 3))).set("ownjs", r.chance(0.3)).set("ownjp", r.chance(0.15)).set("pre", r.chance(0.3)).set("sep", r.chance(0.5)).set("seed", (long long)r.below(1000000));
    int ntr = r.range(load_focus ? 1 : 0, thorough ? 6 : 4), na = 0, nj = 0;
    double clean = load_focus ? 0.4 : 0.8;
    bool tidy = r.chance(clean);
    std::vector<std::string> shared;
    std::vector<int> ids;
    bool torque = r.chance(0.5), absp = r.chance(0.5);
    // joints that several transmissions move
    bool sharej = r.chance(0.12);
    std::vector<std::string> jall;
    for (int t = 0; t < ntr; ++t)
    {
      Line tr("tr");
      std::string type = r.pick(std::vector<std::string>{"S", "D", "F"});
      int n = type == "S" ? 1 : 2;
      tr.set("id", t).set("name", "t" + std::to_string(t)).set("type", type).set("fmt", (long long)r.below(1000000));
      std::vector<std::string> hw;
      bool readonly = r.chance(0.15);
      if (readonly) hw = {"JS"};
      else
      {
        for (std::string k : {"P", "V", "E"})
          if (r.chance(0.5)) hw.push_back((r.chance(0.35) ? "b" : "") + k);
        if (hw.empty()) hw = {r.pick(std::vector<std::string>{"P", "V", "E", "bP", "bE"})};
        if (r.chance(0.15)) hw.push_back("JS");
        if (r.chance(0.05)) hw.push_back(hw[0]);
        if (!tidy && r.chance(0.1)) hw.push_back(r.pick(std::vector<std::string>{"bogus", "_"}));
        for (size_t i = hw.size(); i > 1; --i) std::swap(hw[i - 1], hw[r.below(i)]);
      }
      std::vector<Line> els;
      std::vector<std::string> an;
      bool swapj = n == 2 && r.chance(0.4), swapa = n == 2 && r.chance(0.4), ign = type == "D" && r.chance(0.3);
      for (int i = 0; i < n; ++i)
      {
        Line j("jnt");
        int role = swapj ? 2 - i : i + 1;
        std::vector<std::string> h = hw;
        if (i && r.chance(0.5)) std::swap(h[0], h.back());
        std::string jname;
        if (sharej && !jall.empty() && r.chance(0.5)) jname = r.pick(jall);
        for (auto& e : els) if (e.get("name") == jname) jname.clear();
        if (jname.empty()) jall.push_back(jname = "j" + std::to_string(nj++));
        j.set("tr", t).set("name", jname).set("hw", h);
        if (n == 2 || r.chance(0.3)) j.set("role", "joint" + std::to_string(role));
        if (r.chance(0.7)) j.set("red", num(ratio(r)));
        if (r.chance(0.7)) j.set("off", num(r.uniform(-3, 3)));
        if (ign || r.chance(0.05)) j.set("ign", 1);
        els.push_back(j);
      }
      for (int i = 0; i < n; ++i)
      {
        Line a("acte");
        int role = swapa ? 2 - i : i + 1;
        std::string name;
        if (readonly && !shared.empty() && r.chance(0.5)) { name = r.pick(shared); if (in(an, name)) name.clear(); }
        if (name.empty())
        {
          name = "a" + std::to_string(na++);
          Line& act = pl.add("act");
          std::string ifs = "PVE";
          if (!tidy && r.chance(0.3)) ifs = std::string(r.chance(0.6) ? "P" : "") + (r.chance(0.6) ? "V" : "") + (r.chance(0.6) ? "E" : "");
          act.set("name", name).set("ifaces", ifs).set("abs", absp && r.chance(0.85)).set("torque", torque && r.chance(0.85));
          if (!tidy && r.chance(0.06)) act.set("state", 0);
          shared.push_back(name);
        }
        an.push_back(name);
        a.set("tr", t).set("name", name).set("red", num(ratio(r)));
        if (n == 2 || r.chance(0.3)) a.set("role", "actuator" + std::to_string(role));
        els.push_back(a);
      }
      // what people get wrong in descriptions
      if (!tidy && r.chance(0.35))
      {
        int k = r.below(26);
        auto erase = [](Line& l, const std::string& key) { for (size_t i = 0; i < l.kv.size(); ++i) if (l.kv[i].first == key) { l.kv.erase(l.kv.begin() + i); return; } };
        auto put = [&](Line& l, const std::string& key, const std::string& v) { erase(l, key); l.set(key, v); };
        Line& j = els[r.below(n)];
        Line& a = els[n + r.below(n)];
        if (k == 0) erase(tr, "name");
        else if (k == 1) put(tr, "name", "");
        else if (k == 2) erase(tr, "type");
        else if (k == 3) put(tr, "type", "");
        else if (k == 4) put(tr, "type", r.pick(std::vector<std::string>{"bogus", "S", "D", "F"}));
        else if (k == 5) erase(j, "name");
        else if (k == 6) put(j, "name", "");
        else if (k == 7) erase(j, "hw");
        else if (k == 8) put(j, "hw", readonly ? "_" : r.pick(std::vector<std::string>{"_", "bogus", "P", "V", "E,P", "JS"}));
        else if (k == 9) erase(j, "role");
        else if (k == 10) put(j, "role", r.pick(std::vector<std::string>{"", "joint", "joint3", "actuator1", "joint1", "joint2", "Joint1"}));
        else if (k == 11) put(j, "red", r.pick(std::vector<std::string>{"0", "@", "fast", "1e999", "0.0"}));
        else if (k == 12) put(j, "off", r.pick(std::vector<std::string>{"@", "none", "1e999"}));
        else if (k == 13) erase(a, "name");
        else if (k == 14) put(a, "name", "");
        else if (k == 15) put(a, "name", "missing");
        else if (k == 16) erase(a, "role");
        else if (k == 17) put(a, "role", r.pick(std::vector<std::string>{"", "actuator", "actuator3", "joint1", "actuator1", "actuator2", "Actuator1"}));
        else if (k == 18) put(a, "red", r.pick(std::vector<std::string>{"0", "@", "fast", "1e999", "-0"}));
        else if (k == 19) erase(a, "red");
        else if (k == 20) els.erase(els.begin() + r.below(els.size()));
        else if (k == 21) { els.erase(els.begin(), els.begin() + n); }
        else if (k == 22) { els.erase(els.begin() + n, els.end()); }
        else if (k == 23) { Line c = els[r.below(els.size())]; put(c, "name", c.kind == "jnt" ? "j" + std::to_string(nj++) : "missing"); els.push_back(c); }
        else if (k == 24) put(a, "hw", r.pick(std::vector<std::string>{"_", "P", "bogus", "_,E"}));
        else if (k == 25) for (auto& e : els) if (e.kind == "jnt") put(e, "hw", r.pick(std::vector<std::string>{"bogus", "bogus,bogus2"}));
      }
      pl.lines.push_back(tr);
      for (auto& e : els) pl.lines.push_back(e);
      ids.push_back(t);
    }
    // joints of which the robot itself shows the state
    if (r.chance(0.25))
    {
      std::vector<std::string> own;
      for (auto& l : pl.lines)
      {
        bool only = true;
        for (auto& k : l.list("hw")) only = only && (k == "JS" || k.empty());
        if (l.kind == "jnt" && !l.get("name").empty() && !only && r.chance(0.4)) own.push_back(l.get("name"));
      }
      for (auto& n : own) pl.add("ownj").set("name", n);
    }
    // loads: the transmissions in one or several steps, again, in damaged form, by one or two loaders
    if (ntr)
    {
      int nload = r.chance(0.5) ? 1 : r.range(2, 4);
      std::vector<std::vector<std::string>> part(nload);
      for (int t : ids)
      {
        int k = r.below(nload);
        part[k].push_back(std::to_string(t));
        if (r.chance(0.1)) part[r.below(nload)].push_back(std::to_string(t));
      }
      for (int k = 0; k < nload; ++k)
      {
        Line l("load");
        l.set("at", (long long)(r.chance(0.6) ? 0 : r.below(cycles))).set("trs", part[k]).set("via", r.pick(std::vector<std::string>{"urdf", "urdf", "infos", "one"})).set("loader", sharej || r.chance(0.7) ? 0 : 1).set("fmt", (long long)r.below(1000000));
        if (load_focus ? r.chance(0.25) : r.chance(0.04))
          l.set("mangle", r.pick(std::vector<std::string>{"truncate", "truncate", "garble", "garble", "nothing", "comment", "text", "decl", "noroot", "swap"}));
        pl.lines.push_back(l);
        if (load_focus && r.chance(0.25))
        {
          Line f("pfault");
          std::vector<std::string> cls = {type_name("S"), type_name("D"), type_name("F")};
          for (auto& p : HW) cls.push_back(p.second);
          f.set("load", k).set("cls", r.pick(cls)).set("kind", r.pick(std::vector<std::string>{"library", "create", "constructor", "plugin"}));
          pl.lines.push_back(f);
        }
      }
    }
    // transmissions set up directly
    int nd = load_focus ? (r.chance(0.2) ? 1 : 0) : r.range(ntr ? 0 : 1, 4);
    for (int i = 0; i < nd; ++i)
    {
      Line& d = pl.add("dir");
      std::string t = r.pick(std::vector<std::string>{"S", "D", "F"});
      std::string kind = r.pick(std::vector<std::string>{"a2js", "a2jp", "a2jv", "a2je", "j2as", "j2ap", "j2av", "j2ae"});
      std::vector<std::string> par;
      for (int k = 0; k < 4; ++k) par.push_back(num(ratio(r)));
      for (int k = 0; k < 2; ++k) par.push_back(num(r.uniform(-3, 3)));
      std::string need = kind[3] == 's' ? "11100" : kind[3] == 'p' ? "10000" : kind[3] == 'v' ? "01000" : "00100";
      std::string a, j;
      bool bad = r.chance(0.5);
      for (int k = 0; k < 5; ++k)
      {
        bool opt = need[k] == '0';
        char c = !opt ? 'o' : r.chance(0.5) ? 'o' : 'n';
        char e = !opt ? 'o' : r.chance(0.6) ? c : 'n';
        a += c;
        j += e;
      }
      if (bad)
      {
        std::string& s = r.chance(0.5) ? a : j;
        s[r.below(5)] = r.pick(std::vector<char>{'n', 's', 'S', 'z'});
      }
      d.set("id", i).set("kind", kind).set("type", t).set("par", par).set("a", a).set("j", j).set("at", (long long)(r.chance(0.7) ? 0 : r.below(cycles)));
      if (t == "D" && r.chance(0.4)) d.set("ign", 1);
      if (r.chance(0.04)) d.set("notr", 1);
      if (r.chance(0.05)) d.set("zero", r.range(0, 3));
    }
    int nev = r.range(0, 5);
    for (int i = 0; i < nev && na; ++i)
      pl.add("ev").set("act", "a" + std::to_string(r.below(na))).set("at", (long long)r.below(cycles)).set("kind", r.pick(std::vector<std::string>{"drop", "delay", "stale", "nan", "nanpos", "nancmd", "push"})).set("dur", r.range(1, 6));
    return pl;
  }
  bool droppable(const Line& l) override { return l.kind != "cfg" && l.kind != "sched"; }
  std::vector<Line> simpler(const Line& l) override
  {
    std::vector<Line> v;
    auto with = [&](const std::string& k, const std::string& x) { Line n(l.kind); for (auto& p : l.kv) n.kv.emplace_back(p.first, p.first == k ? x : p.second); v.push_back(n); };
    auto without = [&](const std::string& k) { Line n(l.kind); for (auto& p : l.kv) if (p.first != k) n.kv.push_back(p); v.push_back(n); };
    if (l.kind == "cfg")
    {
      for (double f : {0.1, 0.25, 0.5, 0.75, 0.9}) if (l.num("cycles") > 1) with("cycles", std::to_string(std::max(1LL, (long long)(l.num("cycles") * f))));
      for (auto k : {"ownjs", "ownjp", "pre", "sep"}) if (l.num(k)) with(k, "0");
    }
    if (l.kind == "jnt" || l.kind == "acte")
    {
      if (l.has("red") && l.get("red") != "1") with("red", "1");
      if (l.has("off")) without("off");
      auto h = l.list("hw");
      for (size_t i = 0; h.size() > 1 && i < h.size(); ++i) { auto g = h; g.erase(g.begin() + i); std::string s; for (auto& x : g) s += (s.empty() ? "" : ",") + x; with("hw", s); }
    }
    if (l.kind == "load")
    {
      auto h = l.list("trs");
      for (size_t i = 0; h.size() > 1 && i < h.size(); ++i) { auto g = h; g.erase(g.begin() + i); std::string s; for (auto& x : g) s += (s.empty() ? "" : ",") + x; with("trs", s); }
      if (l.num("at")) with("at", "0");
      if (l.num("loader")) with("loader", "0");
    }
    if (l.kind == "act") { if (l.num("abs")) with("abs", "0"); if (l.num("torque")) with("torque", "0"); }
    if (l.kind == "ev" && l.num("dur", 1) > 1) with("dur", "1");
    return v;
  }
  void cleanup() override { w = TW(); simros::reset_world(); }

  // ---------------------------------------------------------------------------------------------- descriptions
  static std::string element(const char* tag, const El& e, sim::Rng& r)
  {
    std::vector<std::string> c;
    std::string nl = r.chance(0.5) ? "\n    " : "";
    if (e.has_role) c.push_back(e.role.empty() ? "<role/>" : "<role>" + e.role + "</role>");
    if (e.has_red) c.push_back(e.red == "@" ? "<mechanicalReduction/>" : "<mechanicalReduction>" + e.red + "</mechanicalReduction>");
    if (e.has_off) c.push_back(e.off == "@" ? "<offset></offset>" : "<offset>" + e.off + "</offset>");
    if (e.ign) c.push_back("<ignoreTransmissionAbsoluteEncoder>true</ignoreTransmissionAbsoluteEncoder>");
    if (r.chance(0.2)) c.push_back("<!-- a comment with <role> -->");
    if (r.chance(0.1)) c.push_back("<other name=\"x\"/>");
    for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[r.below(i)]);
    // the order of the interfaces is kept
    size_t at = r.below(c.size() + 1);
    std::vector<std::string> h;
    for (auto& k : e.hw) { std::string n = hw_name(k); h.push_back(n.empty() ? "<hardwareInterface/>" : "<hardwareInterface>" + n + "</hardwareInterface>"); }
    c.insert(c.begin() + at, h.begin(), h.end());
    std::string q = r.chance(0.3) ? "'" : "\"";
    std::string s = std::string("<") + tag + (e.has_name ? " name=" + q + e.name + q : "");
    if (c.empty() && r.chance(0.5)) return s + "/>";
    s += ">";
    for (auto& x : c) s += nl + x;
    return s + nl + "</" + tag + ">";
  }
  static std::string describe(const Tr& t)
  {
    sim::Rng r(t.fmt);
    std::string q = r.chance(0.3) ? "'" : "\"";
    std::string s = "<transmission" + (t.has_name ? " name=" + q + t.name + q : std::string()) + ">\n  ";
    std::vector<std::string> c;
    if (t.has_type) { std::string n = type_name(t.type); s += (n.empty() ? "<type/>" : "<type>" + n + "</type>") + std::string("\n  "); }
    bool acts_first = r.chance(0.3);
    for (int k = 0; k < 2; ++k)
      if ((k == 0) == acts_first) for (auto& e : t.acts) s += element("actuator", e, r) + "\n  ";
      else for (auto& e : t.joints) s += element("joint", e, r) + "\n  ";
    return s + "</transmission>\n";
  }
  std::string document(const std::vector<int>& ids, uint64_t fmt) const
  {
    sim::Rng r(fmt);
    std::string s = r.chance(0.5) ? "<?xml version=\"1.0\"?>\n" : "";
    s += "<robot name=\"r\">\n";
    for (int t : ids)
    {
      if (r.chance(0.3)) s += "<link name=\"l\"/>\n<joint name=\"q\" type=\"fixed\"/>\n";
      if (r.chance(0.1)) s += "<!-- transmissions -->\n";
      s += describe(w.trs[t]);
    }
    return s + "</robot>\n";
  }
  static std::string mangle(std::string s, const std::string& kind, uint64_t fmt)
  {
    sim::Rng r(fmt + 77);
    if (kind == "truncate") return s.substr(0, r.below(s.size() + 1));
    if (kind == "garble")
    {
      int n = r.range(1, 8);
      for (int i = 0; i < n; ++i) s[r.below(s.size())] = r.pick(std::vector<char>{'<', '>', '/', '"', '&', ' ', 'x', '\n', '!', (char)0x80});
      return s;
    }
    if (kind == "nothing") return "";
    if (kind == "comment") return "<!-- " + std::string(r.below(5), 'x') + " -->";
    if (kind == "text") return "no robot here";
    if (kind == "decl") return "<?xml version=\"1.0\"?>";
    if (kind == "noroot") return "<?xml version=\"1.0\"?>\n<!-- empty -->\n";
    // two pieces exchanged
    size_t a = r.below(s.size()), b = r.below(s.size()), n = r.below(40);
    std::string x = s.substr(a, n), y = s.substr(b, n);
    s.replace(a, std::min(n, s.size() - a), y);
    return s;
  }

  // ---------------------------------------------------------------------------------------------- model of loading
  // whether several transmissions name a joint
  bool several(const std::string& j)
  {
    int n = 0;
    for (auto& t : w.trs) for (auto& e : t.joints) n += e.name == j;
    return n > 1;
  }
  // whether a transmission element is read at all; drops the joints and actuators that are not
  static bool parsed(Tr& t)
  {
    if (!t.has_name || t.name.empty() || !t.has_type || type_name(t.type).empty()) return false;
    auto read = [](std::vector<El>& v, bool need_hw)
    {
      std::vector<El> o;
      for (auto& e : v)
      {
        if (!e.has_name) return false;
        if (e.name.empty()) continue;
        std::vector<std::string> h;
        for (auto& k : e.hw) if (k != "_") h.push_back(k);
        e.hw = h;
        if (need_hw && h.empty()) continue;
        o.push_back(e);
      }
      v = o;
      return !v.empty();
    };
    return read(t.joints, true) && read(t.acts, false);
  }
  // whether the plugin of its type makes a transmission of it, and what that does
  static bool configures(Tr& t)
  {
    size_t n = t.type == "S" ? 1 : 2;
    if (t.type != "S" && t.type != "D" && t.type != "F") return false;
    if (t.joints.size() != n || t.acts.size() != n) return false;
    t.kin = Kin();
    t.kin.type = t.type[0];
    t.jn.assign(n, "");
    t.an.assign(n, "");
    std::vector<const El*> j(n), a(n);
    if (n == 1) { j[0] = &t.joints[0]; a[0] = &t.acts[0]; }
    else
    {
      for (auto& e : t.joints) { if (e.role == "joint1") j[0] = &e; else if (e.role == "joint2") j[1] = &e; else return false; }
      for (auto& e : t.acts) { if (e.role == "actuator1") a[0] = &e; else if (e.role == "actuator2") a[1] = &e; else return false; }
      if (!j[0] || !j[1] || !a[0] || !a[1]) return false;
    }
    t.kin.ign = t.type == "D";
    for (size_t i = 0; i < n; ++i)
    {
      t.jn[i] = j[i]->name;
      t.an[i] = a[i]->name;
      if (!a[i]->has_red || !number(a[i]->red, t.kin.ar[i]) || t.kin.ar[i] == 0) return false;
      if (n == 2 && j[i]->has_red && (!number(j[i]->red, t.kin.jr[i]) || t.kin.jr[i] == 0)) return false;
      if (j[i]->has_off && !number(j[i]->off, t.kin.off[i])) return false;
      t.kin.ign = t.kin.ign && j[i]->ign;
    }
    return true;
  }
  // whether it can be loaded, into which interfaces, and what it then does
  bool loads(Tr& t)
  {
    if (w.faults.count(type_name(t.type)) || !configures(t)) return false;
    auto hs = t.joints[0].hw, h0 = hs;
    std::sort(h0.begin(), h0.end());
    for (auto& e : t.joints) { auto h = e.hw; std::sort(h.begin(), h.end()); if (h != h0) return false; }
    t.sets.clear();
    for (auto& k : hs)
    {
      bool known = false;
      for (auto& p : HW) known = known || p.first == k;
      if (!known || w.faults.count(hw_name(k))) continue;
      bool ok = true;
      for (auto& x : t.an) { auto it = w.by.find(x); ok = ok && it != w.by.end() && it->second->state && (k == "JS" || it->second->ifaces.find(k.back()) != std::string::npos); }
      if (ok) t.sets.push_back(k);
    }
    return !t.sets.empty();
  }

  // what a description says, and what the plugin of a transmission makes of it when asked directly
  void check_infos(const std::string& xml, const std::vector<Tr>& todo, std::vector<ti::TransmissionInfo> infos, bool parse)
  {
    if (parse)
    {
      bool res = false;
      try { ti::TransmissionParser p; res = p.parse(xml, infos); }
      catch (const std::exception& e) { sim::fail("C25", true, "reading a description: exception to the caller: %s", e.what()); return; }
      NoSim ns;
      sim::count("chk_C25");
      sim::count("ev_parsed");
      if (!res) { sim::fail("C25", true, "a description that is well-formed XML cannot be read"); return; }
      auto said = [](const std::string& n, const std::string& role, const std::vector<std::string>& hw) { std::string s = n + " (" + role + ":"; for (auto& h : hw) s += " " + h; return s + ")"; };
      std::string want, got;
      for (auto& t : todo)
      {
        want += t.name + " " + type_name(t.type) + " joints";
        for (auto& e : t.joints) { std::vector<std::string> h; for (auto& k : e.hw) h.push_back(hw_name(k)); want += " " + said(e.name, e.has_role ? e.role : "", h); }
        want += " actuators";
        for (auto& e : t.acts) { std::vector<std::string> h; for (auto& k : e.hw) h.push_back(hw_name(k)); want += " " + said(e.name, "", h); }
        want += "; ";
      }
      for (auto& i : infos)
      {
        got += i.name_ + " " + i.type_ + " joints";
        for (auto& e : i.joints_) got += " " + said(e.name_, e.role_, e.hardware_interfaces_);
        got += " actuators";
        for (auto& e : i.actuators_) got += " " + said(e.name_, "", e.hardware_interfaces_);
        got += "; ";
      }
      if (want != got) { sim::fail("C25", true, "a description says [%s], but is read as [%s]", S(want), S(got)); return; }
    }
    pluginlib::ClassLoader<ti::TransmissionLoader> cl("transmission_interface", "transmission_interface::TransmissionLoader");
    for (size_t i = 0; i < infos.size() && i < todo.size(); ++i)
    {
      Tr t;
      bool ok;
      {
        NoSim ns;
        t = todo[i];
        ok = configures(t);
        if (t.type != "S" && t.type != "D" && t.type != "F") continue;
      }
      ti::TransmissionSharedPtr tr;
      try { auto pl = cl.createUniqueInstance(infos[i].type_); tr = pl->load(infos[i]); }
      catch (const std::exception& e) { sim::fail("C25", true, "the plugin asked for transmission %s: exception to the caller: %s", S(t.name), e.what()); return; }
      catch (...) { sim::fail("C25", true, "the plugin asked for transmission %s: unknown exception to the caller", S(t.name)); return; }
      sim::count("chk_C25");
      sim::count("ev_plugin_asked");
      if (!!tr != ok) { sim::fail("C25", true, "the plugin asked for transmission %s makes %s, although %s", S(t.name), tr ? "one" : "none", ok ? "nothing is wrong" : "there is a fault"); return; }
      if (!tr) continue;
      int n = t.kin.n();
      if ((int)tr->numActuators() != n || (int)tr->numJoints() != n) { sim::fail("C25", true, "transmission %s has %d actuators and %d joints", S(t.name), (int)tr->numActuators(), (int)tr->numJoints()); return; }
      double av[2], jv[2];
      ti::ActuatorData ad;
      ti::JointData jd;
      {
        NoSim ns;
        sim::Rng r(t.fmt + 77);
        for (int k = 0; k < n; ++k) { av[k] = r.uniform(-10, 10); jv[k] = 0; ad.position.push_back(&av[k]); jd.position.push_back(&jv[k]); }
      }
      auto exp = t.kin.a2j(POS, std::vector<double>(av, av + n));
      tr->actuatorToJointPosition(ad, jd);
      NoSim ns;
      for (int k = 0; k < n; ++k)
        if (!(fabsl(jv[k] - exp[k].v) <= 1e-9L * (exp[k].s + 1e-30L)))
          { sim::fail("C25", true, "the transmission the plugin makes of %s maps actuator positions to %.12g for joint%d, but must to %.12g", S(t.name), jv[k], k + 1, (double)exp[k].v); return; }
    }
  }

  template <class I> I* get() { return w.rt->get<I>(); }
  template <class I> bool has(I* i, const std::string& n) { if (!i) return false; auto v = i->getNames(); return in(v, n); }

  void load(int idx, const Line& l, const std::vector<const Line*>& pf)
  {
    std::vector<int> ids;
    std::string xml, mg;
    int which = 0;
    bool fresh = false, is_sep = false;
    {
      NoSim ns;
      mg = l.get("mangle");
      which = l.num("loader") ? 1 : 0;
      // the joints of a transmission live in the loader that loads it
      for (auto& s : l.list("trs"))
        for (size_t i = 0; i < w.trs.size(); ++i)
          if (w.trs[i].id == atoi(s.c_str()) && (!mg.empty() || !w.by_loader.count(i) || w.by_loader[i] == which)) { ids.push_back(i); if (mg.empty()) w.by_loader[i] = which; }
      xml = document(ids, l.num("fmt"));
      if (!mg.empty()) xml = mangle(xml, mg, l.num("fmt"));
      w.faults.clear();
      for (auto* f : pf) if (f->num("load") == idx) { w.faults[f->get("cls")] = f->get("kind"); }
    }
    if (!mg.empty()) { damaged(xml, mg); return; }
    // what must happen
    bool expect = true, lenient = false;
    std::vector<Tr> todo, ok, after;
    std::string via;
    std::vector<ti::TransmissionInfo> infos;
    {
      NoSim ns;
      via = l.get("via", "urdf");
      for (int i : ids)
      {
        Tr t = w.trs[i];
        if (via != "urdf" && t.has_name && !t.name.empty()) { todo.push_back(t); continue; }
        if (parsed(t)) todo.push_back(t);
        else sim::count("ev_skipped_element");
      }
      if (todo.empty()) { if (via != "urdf") { w.faults.clear(); return; } expect = false; }
      if (via != "urdf")
      {
        for (auto& t : todo)
        {
          ti::TransmissionInfo info;
          sim::Rng r(t.fmt);
          info.name_ = t.name;
          info.type_ = type_name(t.type);
          for (auto* v : {&t.joints, &t.acts}) for (auto& e : *v) { std::vector<std::string> h; for (auto& k : e.hw) if (k != "_") h.push_back(k); e.hw = h; }
          for (auto& e : t.joints)
          {
            ti::JointInfo j;
            j.name_ = e.name;
            j.role_ = e.role;
            for (auto& k : e.hw) j.hardware_interfaces_.push_back(hw_name(k));
            j.xml_element_ = element("joint", e, r);
            info.joints_.push_back(j);
          }
          for (auto& e : t.acts)
          {
            ti::ActuatorInfo a;
            a.name_ = e.name;
            for (auto& k : e.hw) a.hardware_interfaces_.push_back(hw_name(k));
            a.xml_element_ = element("actuator", e, r);
            info.actuators_.push_back(a);
          }
          infos.push_back(info);
        }
      }
      bool stopped = false;
      // (then only what is reported as loaded has to be connected)
      for (auto& t : todo)
      {
        if (stopped) { after.push_back(t); continue; }
        // joints without a name cannot be told apart
        bool named = true;
        for (auto& e : t.joints) named = named && !e.name.empty();
        if (!named) { lenient = true; break; }
        Tr c = t;
        bool good = loads(c);
        // the robot's own joint state alone connects nothing
        bool only = !c.sets.empty();
        for (auto& k : c.sets) only = only && k == "JS";
        if (good && only && std::any_of(c.jn.begin(), c.jn.end(), [&](const std::string& n) { return w.ownj.count(n); })) { lenient = true; break; }
        if (good) ok.push_back(c);
        else { expect = false; stopped = true; if (via == "one") stopped = false; else after.push_back(t); }
      }
      fresh = !w.loader[which];
    }
    if (fresh)
    {
      try { auto* p = new ti::TransmissionInterfaceLoader(w.hw.get(), w.rt.get()); w.loader[which].reset(p); }
      catch (const std::exception& e) { sim::fail("C25", true, "a loader for a valid robot cannot be created: %s", e.what()); return; }
    }
    // the failed one and those after it
    bool res = true, threw = false;
    std::string what;
    std::vector<bool> each;
    try
    {
      if (via == "one") { for (auto& i : infos) { bool b = w.loader[which]->load(i); each.push_back(b); res = res && b; } }
      else if (via == "infos") res = w.loader[which]->load(infos);
      else res = w.loader[which]->load(xml);
    }
    catch (const std::exception& e) { NoSim ns; threw = true; what = e.what(); }
    catch (...) { NoSim ns; threw = true; what = "(unknown)"; }
    NoSim ns;
    w.faults.clear();
    sim::count("chk_C25");
    sim::count(expect ? "ev_load_good" : "ev_load_bad");
    std::string names;
    for (auto& t : todo) names += (names.empty() ? "" : ", ") + t.name;
    sim::ev("load %s (%s, loader %d) -> %s", S(names), S(via), which, threw ? "exception" : res ? "true" : "false");
    if (threw) { sim::fail("C25", true, "loading %s: exception to the caller: %s", S(names), S(what)); return; }
    if (lenient)
    {
      sim::count("ev_load_unsure");
      for (auto& t : todo)
      {
        w.loaded.erase(t.name);  // it may get more interfaces than before
        w.maybe.insert(t.name);
        if (res && !has(get<ti::ActuatorToJointStateInterface>(), t.name)) { sim::fail("C25", true, "transmission %s is reported as loaded, but is not connected", S(t.name)); return; }
      }
      return;
    }
    if (res != expect) { sim::fail("C25", true, "loading %s reports %s, although %s", S(names), res ? "success" : "failure", expect ? "nothing is wrong" : "there is a fault"); return; }
    for (size_t i = 0, k = 0; via == "one" && i < each.size(); ++i)
    {
      bool e = k < ok.size() && ok[k].name == todo[i].name;
      if (e) ++k;
      if (each[i] != e) { sim::fail("C25", true, "loading %s reports %s", S(todo[i].name), each[i] ? "success" : "failure"); return; }
    }
    for (auto& t : ok) { if (!w.loaded.count(t.name)) w.loaded[t.name] = t; else { for (auto& s : t.sets) if (!in(w.loaded[t.name].sets, s)) w.loaded[t.name].sets.push_back(s); } w.maybe.erase(t.name); }
    bool first = true;
    for (auto& t : after)
    {
      if (w.loaded.count(t.name)) continue;
      if (first && via != "one" && t.name == after[0].name)
      {
        // the one that failed must not be connected
        if (!w.maybe.count(t.name) && has(get<ti::ActuatorToJointStateInterface>(), t.name)) sim::fail("C25", true, "transmission %s failed to load, but it is connected", S(t.name));
        first = false;
        continue;
      }
      w.maybe.insert(t.name);
    }
    for (auto& p : w.loaded) check_exposed(p.second);
    sim::Rng r(l.num("fmt") + idx);
    if (!sim::halted() && r.chance(0.5)) check_infos(xml, todo, infos, via == "urdf");
  }
  void check_exposed(const Tr& t)
  {
    auto need = [&](bool b, const char* what, const std::string& n) { if (!b) sim::fail("C25", true, "transmission %s is loaded, but %s is not in %s", S(t.name), S(n), what); };
    auto absent = [&](bool b, const char* what, const std::string& n) { if (b) sim::fail("C25", true, "%s cannot be connected by transmission %s, but is in %s", S(n), S(t.name), what); };
    for (auto& j : t.jn) need(has(w.hw->get<hi::JointStateInterface>(), j), "JointStateInterface", j);
    need(has(get<ti::ActuatorToJointStateInterface>(), t.name), "ActuatorToJointStateInterface", t.name);
    bool m[3] = {false, false, false};
    for (auto& k : t.sets)
    {
      if (k == "JS") continue;
      int q = mode_of(k);
      m[q] = true;
      for (auto& j : t.jn)
      {
        if (q == POS) need(has(w.hw->get<hi::PositionJointInterface>(), j), "PositionJointInterface", j);
        if (q == VEL) need(has(w.hw->get<hi::VelocityJointInterface>(), j), "VelocityJointInterface", j);
        if (q == EFF) need(has(w.hw->get<hi::EffortJointInterface>(), j), "EffortJointInterface", j);
      }
      if (q == POS) need(has(get<ti::JointToActuatorPositionInterface>(), t.name), "JointToActuatorPositionInterface", t.name);
      if (q == VEL) need(has(get<ti::JointToActuatorVelocityInterface>(), t.name), "JointToActuatorVelocityInterface", t.name);
      if (q == EFF) need(has(get<ti::JointToActuatorEffortInterface>(), t.name), "JointToActuatorEffortInterface", t.name);
      if (k[0] != 'b') continue;
      need(has(get<ti::JointToActuatorStateInterface>(), t.name), "JointToActuatorStateInterface", t.name);
      if (q == POS) need(has(get<ti::ActuatorToJointPositionInterface>(), t.name), "ActuatorToJointPositionInterface", t.name);
      if (q == VEL) need(has(get<ti::ActuatorToJointVelocityInterface>(), t.name), "ActuatorToJointVelocityInterface", t.name);
      if (q == EFF) need(has(get<ti::ActuatorToJointEffortInterface>(), t.name), "ActuatorToJointEffortInterface", t.name);
    }
    for (auto& j : t.jn)
    {
      if (several(j)) continue;
      if (!m[POS]) absent(has(w.hw->get<hi::PositionJointInterface>(), j), "PositionJointInterface", j);
      if (!m[VEL]) absent(has(w.hw->get<hi::VelocityJointInterface>(), j), "VelocityJointInterface", j);
      if (!m[EFF]) absent(has(w.hw->get<hi::EffortJointInterface>(), j), "EffortJointInterface", j);
    }
  }
  // a damaged description on a robot of its own: whatever it says, no crash, no exception, and nothing half connected
  void damaged(const std::string& xml, const std::string& kind)
  {
    sim::count("fault_description_" + kind);
    std::vector<std::pair<std::array<double, 5>, std::array<double, 3>>> keep(w.acts.size());
    for (size_t i = 0; i < w.acts.size(); ++i) { memcpy(keep[i].first.data(), w.acts[i]->d, sizeof w.acts[i]->d); memcpy(keep[i].second.data(), w.acts[i]->cmd, sizeof w.acts[i]->cmd); }
    std::unique_ptr<Robot> hw(make_robot());
    ti::RobotTransmissions rt;
    bool res = false;
    std::string what;
    bool threw = false;
    {
      ti::TransmissionInterfaceLoader ld(hw.get(), &rt);
      try { res = ld.load(xml); }
      catch (const std::exception& e) { NoSim ns; threw = true; what = e.what(); }
      catch (...) { NoSim ns; threw = true; what = "(unknown)"; }
      {
        NoSim ns;
        sim::count("chk_C25");
        sim::ev("load damaged (%s) -> %s", S(kind), threw ? "exception" : res ? "true" : "false");
        if (threw) { sim::fail("C25", true, "loading a damaged description: exception to the caller: %s", S(what)); }
        if (res && !rt.get<ti::ActuatorToJointStateInterface>()) sim::fail("C25", true, "a damaged description is reported as loaded, but nothing is connected");
        if (res && kind != "truncate" && kind != "garble" && kind != "swap") sim::fail("C25", true, "a description without transmissions (%s) is reported as loaded", S(kind));
      }
      if (!threw) propagate_all(rt);
    }
    NoSim ns;
    hw.reset();
    for (size_t i = 0; i < w.acts.size(); ++i) { memcpy(w.acts[i]->d, keep[i].first.data(), sizeof w.acts[i]->d); memcpy(w.acts[i]->cmd, keep[i].second.data(), sizeof w.acts[i]->cmd); }
  }
  template <class I> static void prop(I* i) { if (i) i->propagate(); }
  static void propagate_all(ti::RobotTransmissions& rt)
  {
    prop(rt.get<ti::ActuatorToJointStateInterface>());
    prop(rt.get<ti::JointToActuatorPositionInterface>());
    prop(rt.get<ti::JointToActuatorVelocityInterface>());
    prop(rt.get<ti::JointToActuatorEffortInterface>());
  }

  // ---------------------------------------------------------------------------------------------- propagation and checks
  // every value the robot shares, to see what a propagation changes
  std::map<double*, std::pair<double, std::string>> snapshot()
  {
    std::map<double*, std::pair<double, std::string>> m;
    auto put = [&](const double* p, const std::string& n) { if (p) m[const_cast<double*>(p)] = {*p, n}; };
    for (auto& a : w.acts)
    {
      for (int q = 0; q < 5; ++q) put(&a->d[q], "actuator " + a->name + " " + QN[q]);
      for (int q = 0; q < 3; ++q) put(&a->cmd[q], "actuator " + a->name + " " + QN[q] + " command");
    }
    for (int i = 0; i < 6; ++i) put(&w.hw->own[i], "joint own");
    for (auto& o : w.hw->ownj) for (int q = 0; q < 3; ++q) put(&o.second[q], "the robot's own joint " + o.first + " " + QN[q]);
    if (auto* js = w.hw->get<hi::JointStateInterface>())
      for (auto& n : js->getNames())
      {
        auto h = js->getHandle(n);
        put(h.getPositionPtr(), "joint " + n + " position");
        put(h.getVelocityPtr(), "joint " + n + " velocity");
        put(h.getEffortPtr(), "joint " + n + " effort");
        if (h.hasAbsolutePosition()) put(h.getAbsolutePositionPtr(), "joint " + n + " absolute position");
        if (h.hasTorqueSensor()) put(h.getTorqueSensorPtr(), "joint " + n + " torque");
      }
    if (auto* i = w.hw->get<hi::PositionJointInterface>()) for (auto& n : i->getNames()) put(jcmd<hi::PositionJointInterface>(n), "joint " + n + " position command");
    if (auto* i = w.hw->get<hi::VelocityJointInterface>()) for (auto& n : i->getNames()) put(jcmd<hi::VelocityJointInterface>(n), "joint " + n + " velocity command");
    if (auto* i = w.hw->get<hi::EffortJointInterface>()) for (auto& n : i->getNames()) put(jcmd<hi::EffortJointInterface>(n), "joint " + n + " effort command");
    for (auto& d : w.dirs)
      for (int q = 0; q < 5; ++q)
        for (int k = 0; k < 3; ++k) { put(&d->a[q][k], sim::fmt("%s actuator%d %s", S(d->name), k + 1, QN[q])); put(&d->j[q][k], sim::fmt("%s joint%d %s", S(d->name), k + 1, QN[q])); }
    return m;
  }
  template <class I> const double* jcmd(const std::string& n)
  {
    auto* i = w.hw->get<I>();
    return const_cast<const double*>(i->getHandle(n).getCommandPtr());
  }
  const double* jcmd(int q, const std::string& n) { return q == POS ? jcmd<hi::PositionJointInterface>(n) : q == VEL ? jcmd<hi::VelocityJointInterface>(n) : jcmd<hi::EffortJointInterface>(n); }
  const double* jstate(int q, const std::string& n)
  {
    auto h = w.hw->get<hi::JointStateInterface>()->getHandle(n);
    return q == POS ? h.getPositionPtr() : q == VEL ? h.getVelocityPtr() : q == EFF ? h.getEffortPtr() : q == ABS ? (h.hasAbsolutePosition() ? h.getAbsolutePositionPtr() : nullptr) : (h.hasTorqueSensor() ? h.getTorqueSensorPtr() : nullptr);
  }
  typedef std::map<double*, std::pair<double, std::string>> Snap;
  void expect(std::map<double*, Exp>& e, const std::vector<Val>& v, const std::vector<const double*>& to, const std::string& what, const char* props)
  {
    for (size_t i = 0; i < v.size(); ++i) if (to[i]) e[const_cast<double*>(to[i])] = {v[i], what, props};
  }
  void verify(const Snap& before, std::map<double*, Exp>& e, const char* map)
  {
    sim::count("chk_C24");
    std::set<double*> unsure, crossed;
    for (auto& n : w.maybe)
      for (auto& t : w.trs)
        if (t.name == n)
        {
          if (auto* js = w.hw->get<hi::JointStateInterface>())
            for (auto& x : t.joints)
              if (several(x.name))
              {
                if (has(js, x.name)) for (int q = 0; q < 5; ++q) crossed.insert(const_cast<double*>(jstate(q, x.name)));
                if (has(w.hw->get<hi::PositionJointInterface>(), x.name)) crossed.insert(const_cast<double*>(jcmd(POS, x.name)));
                if (has(w.hw->get<hi::VelocityJointInterface>(), x.name)) crossed.insert(const_cast<double*>(jcmd(VEL, x.name)));
                if (has(w.hw->get<hi::EffortJointInterface>(), x.name)) crossed.insert(const_cast<double*>(jcmd(EFF, x.name)));
              }
          for (auto& x : t.acts) if (w.by.count(x.name)) { Act* a = w.by[x.name]; for (auto& d : a->d) unsure.insert(&d); for (auto& d : a->cmd) unsure.insert(&d); }
          if (auto* js = w.hw->get<hi::JointStateInterface>()) for (auto& x : t.joints) if (has(js, x.name)) for (int q = 0; q < 5; ++q) unsure.insert(const_cast<double*>(jstate(q, x.name)));
          for (auto& x : t.joints)
          {
            if (has(w.hw->get<hi::PositionJointInterface>(), x.name)) unsure.insert(const_cast<double*>(jcmd(POS, x.name)));
            if (has(w.hw->get<hi::VelocityJointInterface>(), x.name)) unsure.insert(const_cast<double*>(jcmd(VEL, x.name)));
            if (has(w.hw->get<hi::EffortJointInterface>(), x.name)) unsure.insert(const_cast<double*>(jcmd(EFF, x.name)));
          }
        }
    for (auto& p : before)
    {
      auto it = e.find(p.first);
      double now = *p.first;
      if (it == e.end())
      {
        if (!unsure.count(p.first) && memcmp(&now, &p.second.first, sizeof now)) { sim::fail("C24", false, "%s: %s changes from %.12g to %.12g, but no transmission sets it", map, S(p.second.second), p.second.first, now); return; }
        continue;
      }
      const Exp& x = it->second;
      if (unsure.count(p.first) && crossed.count(p.first)) continue;
      double want = (double)x.v.v;
      bool good = std::isnan(want) ? std::isnan(now) : fabsl(now - x.v.v) <= 1e-9L * (x.v.s + 1e-30L);
      if (!good) { sim::fail(x.props, false, "%s: %s is %.12g, but must be %.12g (%s)", map, S(p.second.second), now, want, S(x.what)); return; }
    }
  }
  std::vector<double> vals(const std::vector<const double*>& p) { std::vector<double> v; for (auto* x : p) v.push_back(*x); return v; }

  std::vector<const double*> aptr(const Tr& t, int q) { std::vector<const double*> v; for (auto& n : t.an) v.push_back(&w.by[n]->d[q]); return v; }
  std::vector<const double*> acmd(const Tr& t, int q) { std::vector<const double*> v; for (auto& n : t.an) v.push_back(&w.by[n]->cmd[q]); return v; }
  // a joint whose state the robot shows itself keeps it: nothing is expected there
  std::vector<const double*> jptr(const Tr& t, int q) { std::vector<const double*> v; for (auto& n : t.jn) v.push_back(w.ownj.count(n) ? nullptr : jstate(q, n)); return v; }
  bool owns(const Tr& t) { for (auto& n : t.jn) if (w.ownj.count(n)) return true; return false; }
  std::vector<const double*> jcm(const Tr& t, int q) { std::vector<const double*> v; for (auto& n : t.jn) v.push_back(jcmd(q, n)); return v; }
  std::vector<const double*> darr(double (&m)[3], const Kin& k) { std::vector<const double*> v; for (int i = 0; i < k.n(); ++i) v.push_back(&m[i]); return v; }

  void phase_state()
  {
    Snap before;
    std::map<double*, Exp> e;
    {
      NoSim ns;
      before = snapshot();
      for (auto& p : w.loaded)
      {
        const Tr& t = p.second;
        bool abs = true, tor = true;
        for (auto& n : t.an) { abs = abs && w.by[n]->abs; tor = tor && w.by[n]->tor; }
        for (int q = 0; q < 5; ++q)
          if (q < 3 || (q == ABS && abs) || (q == TOR && tor)) expect(e, t.kin.a2j((Q)q, vals(aptr(t, q))), jptr(t, q), t.name, "C24,C25");
      }
      for (auto& d : w.dirs)
        if (d->kind == "a2js")
          for (int q = 0; q < 5; ++q)
            if (d->ah[q] && d->jh[q]) expect(e, d->kin.a2j((Q)q, vals(darr(d->a[q], d->kin))), darr(d->j[q], d->kin), d->name, "C24");
    }
    prop(get<ti::ActuatorToJointStateInterface>());
    if (!shared(get<ti::ActuatorToJointStateInterface>(), &w.ifs->a2js)) w.ifs->a2js.propagate();
    NoSim ns;
    verify(before, e, "actuator to joint state");
    if (sim::halted()) return;
    // handles of controllers show the same
    for (auto& p : w.loaded)
      for (auto& k : p.second.sets)
        for (auto& j : p.second.jn)
        {
          if (k == "JS") continue;
          int q = mode_of(k);
          hi::JointHandle h = q == POS ? w.hw->get<hi::PositionJointInterface>()->getHandle(j) : q == VEL ? w.hw->get<hi::VelocityJointInterface>()->getHandle(j) : w.hw->get<hi::EffortJointInterface>()->getHandle(j);
          double a[3] = {h.getPosition(), h.getVelocity(), h.getEffort()}, b[3] = {*jstate(0, j), *jstate(1, j), *jstate(2, j)};
          if (memcmp(a, b, sizeof a)) sim::fail("C25", true, "the %s command handle of joint %s does not show the state of the joint", QN[q], S(j));
        }
    // ideal actuators: the state is what was commanded
    for (auto& p : w.loaded)
      for (auto& k : p.second.sets)
      {
        if (k == "JS" || mode_of(k) != POS) continue;
        bool echo = true;
        for (auto& n : p.second.an) echo = echo && w.by[n]->echo;
        if (!echo) continue;
        auto v = p.second.kin.a2j(POS, vals(aptr(p.second, POS)));
        for (size_t i = 0; i < v.size(); ++i)
        {
          auto it = w.jcmd.find(p.second.jn[i]);
          if (it == w.jcmd.end() || w.ownj.count(p.second.jn[i]) || several(p.second.jn[i])) continue;
          double x = *jstate(POS, p.second.jn[i]);
          sim::count("ev_echo");
          if (std::isfinite(it->second) && !(fabsl(x - it->second) <= 1e-8L * (v[i].s + 1e-30L))) sim::fail("C24,C25", false, "joint %s is commanded to %.12g, the actuators execute their commands, and it is at %.12g", S(p.second.jn[i]), it->second, x);
        }
      }
  }
  template <class I> static bool shared(I* a, I* b) { return a == b; }

  // what the controllers want
  double want() { double u = w.rng.unit(); return u < 0.05 ? 0 : u < 0.1 ? w.rng.uniform(-1e6, 1e6) : w.rng.uniform(-10, 10); }
  void phase_command()
  {
    Snap before;
    std::map<double*, Exp> e;
    w.jcmd.clear();
    {
      NoSim ns;
      for (auto& p : w.loaded)
        for (auto& k : p.second.sets)
        {
          if (k == "JS") continue;
          int q = mode_of(k);
          for (auto& j : p.second.jn)
          {
            double c = want();
            for (auto& n : p.second.an) for (auto& ev : w.by[n]->evs) if (ev.kind == "nancmd" && ev.on(w.cycle)) { c = NaN; sim::count("fault_nan_command"); }
            hi::JointHandle h = q == POS ? w.hw->get<hi::PositionJointInterface>()->getHandle(j) : q == VEL ? w.hw->get<hi::VelocityJointInterface>()->getHandle(j) : w.hw->get<hi::EffortJointInterface>()->getHandle(j);
            h.setCommand(c);
            if (q == POS) w.jcmd[j] = c;
          }
        }
      for (auto& d : w.dirs) for (int q = 0; q < 5; ++q) for (int i = 0; i < 3; ++i) d->j[q][i] = want();
      before = snapshot();
      for (auto& p : w.loaded)
        for (auto& k : p.second.sets)
          if (k != "JS") { int q = mode_of(k); expect(e, p.second.kin.j2a((Q)q, vals(jcm(p.second, q))), acmd(p.second, q), p.second.name, "C24,C25"); }
      for (auto& d : w.dirs)
        for (int q = 0; q < 3; ++q)
          if (d->kind == (q == POS ? "j2ap" : q == VEL ? "j2av" : "j2ae")) expect(e, d->kin.j2a((Q)q, vals(darr(d->j[q], d->kin))), darr(d->a[q], d->kin), d->name, "C24");
    }
    prop(get<ti::JointToActuatorPositionInterface>());
    if (!shared(get<ti::JointToActuatorPositionInterface>(), &w.ifs->j2ap)) w.ifs->j2ap.propagate();
    prop(get<ti::JointToActuatorVelocityInterface>());
    if (!shared(get<ti::JointToActuatorVelocityInterface>(), &w.ifs->j2av)) w.ifs->j2av.propagate();
    prop(get<ti::JointToActuatorEffortInterface>());
    if (!shared(get<ti::JointToActuatorEffortInterface>(), &w.ifs->j2ae)) w.ifs->j2ae.propagate();
    NoSim ns;
    verify(before, e, "joint to actuator commands");
  }
  // a simulated robot runs the other way: joint state to actuators, actuator commands to joints
  void phase_reverse()
  {
    Snap before;
    std::map<double*, Exp> e;
    {
      NoSim ns;
      for (auto& a : w.acts) for (auto& c : a->cmd) c = want();
      for (auto& d : w.dirs) for (int q = 0; q < 5; ++q) for (int i = 0; i < 3; ++i) d->a[q][i] = want();
      before = snapshot();
      for (auto& p : w.loaded)
        for (auto& k : p.second.sets)
          if (k[0] == 'b') { int q = mode_of(k); expect(e, p.second.kin.a2j((Q)q, vals(acmd(p.second, q))), jcm(p.second, q), p.second.name, "C24,C25"); }
      for (auto& d : w.dirs)
        for (int q = 0; q < 3; ++q)
          if (d->kind == (q == POS ? "a2jp" : q == VEL ? "a2jv" : "a2je")) expect(e, d->kin.a2j((Q)q, vals(darr(d->a[q], d->kin))), darr(d->j[q], d->kin), d->name, "C24");
    }
    prop(get<ti::ActuatorToJointPositionInterface>());
    if (!shared(get<ti::ActuatorToJointPositionInterface>(), &w.ifs->a2jp)) w.ifs->a2jp.propagate();
    prop(get<ti::ActuatorToJointVelocityInterface>());
    if (!shared(get<ti::ActuatorToJointVelocityInterface>(), &w.ifs->a2jv)) w.ifs->a2jv.propagate();
    prop(get<ti::ActuatorToJointEffortInterface>());
    if (!shared(get<ti::ActuatorToJointEffortInterface>(), &w.ifs->a2je)) w.ifs->a2je.propagate();
    {
      NoSim ns;
      verify(before, e, "actuator to joint commands");
      if (sim::halted()) return;
      e.clear();
      for (auto& p : w.loaded)
        for (auto& k : p.second.sets)
          if (k[0] == 'b') for (auto& j : p.second.jn) for (int q = 0; q < 3; ++q) *const_cast<double*>(jstate(q, j)) = want();
      for (auto& d : w.dirs) for (int q = 0; q < 5; ++q) for (int i = 0; i < 3; ++i) d->j[q][i] = want();
      before = snapshot();
      for (auto& p : w.loaded)
      {
        bool bi = false;
        for (auto& k : p.second.sets) bi = bi || k[0] == 'b';
        if (bi && owns(p.second)) { w.maybe.insert(p.first); continue; }
        if (bi) for (int q = 0; q < 3; ++q) expect(e, p.second.kin.j2a((Q)q, vals(jptr(p.second, q))), aptr(p.second, q), p.second.name, "C24,C25");
      }
      for (auto& d : w.dirs)
        if (d->kind == "j2as") for (int q = 0; q < 3; ++q) expect(e, d->kin.j2a((Q)q, vals(darr(d->j[q], d->kin))), darr(d->a[q], d->kin), d->name, "C24");
    }
    prop(get<ti::JointToActuatorStateInterface>());
    if (!shared(get<ti::JointToActuatorStateInterface>(), &w.ifs->j2as)) w.ifs->j2as.propagate();
    NoSim ns;
    verify(before, e, "joint to actuator state");
    for (auto& p : w.loaded) w.maybe.erase(p.first);
    for (auto& a : w.acts) a->echo = false;
  }
  void refresh() { for (auto& a : w.acts) for (int q = 0; q < 5; ++q) a->d[q] = a->del[q]; }

  // ---------------------------------------------------------------------------------------------- transmissions set up directly
  void direct(const Line& l)
  {
    std::unique_ptr<Direct> d;
    ti::ActuatorData ad;
    ti::JointData jd;
    bool ok = true;
    std::string why;
    {
      NoSim ns;
      d.reset(new Direct);
      d->id = l.num("id");
      d->kind = l.get("kind");
      d->name = "d" + std::to_string(d->id);
      Kin& k = d->kin;
      k.type = l.get("type", "S")[0];
      auto par = l.list("par");
      par.resize(6, "1");
      for (int i = 0; i < 2; ++i) { k.ar[i] = atof(par[i].c_str()); k.jr[i] = atof(par[2 + i].c_str()); k.off[i] = atof(par[4 + i].c_str()); }
      k.ign = l.num("ign") && k.type == 'D';
      for (int q = 0; q < 5; ++q) for (int i = 0; i < 3; ++i) { d->a[q][i] = want(); d->j[q][i] = want(); }
    }
    Kin& k = d->kin;
    if (l.has("zero"))
    {
      int z = l.num("zero");
      if (k.type == 'S') z = 0;
      (z < 2 ? k.ar[z] : k.jr[z - 2]) = 0;
    }
    bool threw = false, right = false;
    try
    {
      std::vector<double> ar(k.ar, k.ar + 2), jr(k.jr, k.jr + 2), off(k.off, k.off + 2);
      if (k.type == 'S') d->trans.reset(new ti::SimpleTransmission(k.ar[0], k.off[0]));
      else if (k.type == 'D') d->trans.reset(new ti::DifferentialTransmission(ar, jr, k.ign, off));
      else d->trans.reset(new ti::FourBarLinkageTransmission(ar, jr, off));
    }
    catch (const ti::TransmissionInterfaceException&) { threw = true; }
    sim::count("chk_C24");
    if (threw != l.has("zero")) { sim::fail("C24", true, "a transmission with reductions %g %g %g %g is %s", k.ar[0], k.ar[1], k.jr[0], k.jr[1], threw ? "rejected" : "accepted"); return; }
    if (threw) return;
    std::string A = l.get("a", "ooonn"), J = l.get("j", "ooonn");
    A.resize(5, 'n');
    J.resize(5, 'n');
    {
      NoSim ns;
      std::string need = d->kind.size() < 4 ? "" : d->kind[3] == 's' ? "11100" : d->kind[3] == 'p' ? "10000" : d->kind[3] == 'v' ? "01000" : "00100";
      if (need.empty()) return;
      auto fill = [&](std::vector<double*>& v, double (&src)[3], char c)
      {
        if (c == 'n') return;
        int n = k.n() + (c == 's' ? 1 : c == 'S' ? -1 : 0);
        for (int i = 0; i < n; ++i) v.push_back(c == 'z' && i == k.n() - 1 ? nullptr : &src[i]);
      };
      std::vector<double*>* av[5] = {&ad.position, &ad.velocity, &ad.effort, &ad.absolute_position, &ad.torque_sensor};
      std::vector<double*>* jv[5] = {&jd.position, &jd.velocity, &jd.effort, &jd.absolute_position, &jd.torque_sensor};
      for (int q = 0; q < 5; ++q)
      {
        fill(*av[q], d->a[q], A[q]);
        fill(*jv[q], d->j[q], J[q]);
        d->ah[q] = !av[q]->empty();
        d->jh[q] = !jv[q]->empty();
        auto judge = [&](const std::vector<double*>& v, const char* side)
        {
          if (v.empty()) { if (need[q] == '1') { ok = false; why = sim::fmt("no %s %s", side, QN[q]); } return; }
          if ((int)v.size() != k.n()) { ok = false; why = sim::fmt("%d values of %s %s", (int)v.size(), side, QN[q]); }
          for (auto* x : v) if (!x) { ok = false; why = sim::fmt("a null pointer in %s %s", side, QN[q]); }
        };
        judge(*av[q], "actuator");
        judge(*jv[q], "joint");
      }
      if (l.num("notr")) { ok = false; why = "no transmission"; }
    }
    ti::Transmission* t = l.num("notr") ? nullptr : d->trans.get();
    std::string what;
    try
    {
      const std::string& n = d->name;
      if (d->kind == "a2js") { ti::ActuatorToJointStateHandle h(n, t, ad, jd); if (ok) w.ifs->a2js.registerHandle(h); }
      else if (d->kind == "a2jp") { ti::ActuatorToJointPositionHandle h(n, t, ad, jd); if (ok) w.ifs->a2jp.registerHandle(h); }
      else if (d->kind == "a2jv") { ti::ActuatorToJointVelocityHandle h(n, t, ad, jd); if (ok) w.ifs->a2jv.registerHandle(h); }
      else if (d->kind == "a2je") { ti::ActuatorToJointEffortHandle h(n, t, ad, jd); if (ok) w.ifs->a2je.registerHandle(h); }
      else if (d->kind == "j2as") { ti::JointToActuatorStateHandle h(n, t, ad, jd); if (ok) w.ifs->j2as.registerHandle(h); }
      else if (d->kind == "j2ap") { ti::JointToActuatorPositionHandle h(n, t, ad, jd); if (ok) w.ifs->j2ap.registerHandle(h); }
      else if (d->kind == "j2av") { ti::JointToActuatorVelocityHandle h(n, t, ad, jd); if (ok) w.ifs->j2av.registerHandle(h); }
      else if (d->kind == "j2ae") { ti::JointToActuatorEffortHandle h(n, t, ad, jd); if (ok) w.ifs->j2ae.registerHandle(h); }
      else { return; }
      right = true;
    }
    catch (const ti::TransmissionInterfaceException& e) { NoSim ns; what = e.what(); }
    catch (const std::exception& e) { NoSim ns; what = e.what(); sim::fail("C24", true, "a handle (%s) throws another exception: %s", S(d->kind), S(what)); }
    NoSim ns;
    sim::ev("direct %s %s a=%s j=%s -> %s", S(d->kind), S(d->name), S(A), S(J), right ? "accepted" : "rejected");
    sim::count(ok ? "ev_handle_good" : "ev_handle_bad");
    if (right != ok) { sim::fail("C24", true, "a handle (%s) with %s is %s%s", S(d->kind), ok ? "valid data" : S(why), right ? "accepted" : "rejected: ", S(what)); return; }
    if (right) w.dirs.push_back(std::move(d));
  }

  // ---------------------------------------------------------------------------------------------- run
  Robot* make_robot()
  {
    Robot* h = new Robot;
    bool any = false, P = false, V = false, E = false;
    for (auto& ap : w.acts)
    {
      Act& a = *ap;
      hi::ActuatorStateHandle s = a.abs && a.tor ? hi::ActuatorStateHandle(a.name, &a.d[0], &a.d[1], &a.d[2], &a.d[3], &a.d[4]) : a.abs ? hi::ActuatorStateHandle(a.name, &a.d[0], &a.d[1], &a.d[2], &a.d[3]) : a.tor ? hi::ActuatorStateHandle(a.name, &a.d[0], &a.d[1], &a.d[2], &a.d[4], true) : hi::ActuatorStateHandle(a.name, &a.d[0], &a.d[1], &a.d[2]);
      if (a.state) { h->as.registerHandle(s); any = true; }
      if (a.ifaces.find('P') != std::string::npos) { h->ap.registerHandle(hi::ActuatorHandle(s, &a.cmd[0])); P = true; }
      if (a.ifaces.find('V') != std::string::npos) { h->av.registerHandle(hi::ActuatorHandle(s, &a.cmd[1])); V = true; }
      if (a.ifaces.find('E') != std::string::npos) { h->ae.registerHandle(hi::ActuatorHandle(s, &a.cmd[2])); E = true; }
    }
    if (any) h->registerInterface(&h->as);
    if (P) h->registerInterface(&h->ap);
    if (V) h->registerInterface(&h->av);
    if (E) h->registerInterface(&h->ae);
    if (w.ownjs || w.ownjp || !w.ownj.empty())
    {
      h->js.registerHandle(hi::JointStateHandle("own", &h->own[0], &h->own[1], &h->own[2]));
      for (auto& n : w.ownj) { auto& d = h->ownj[n]; d = {{7, 8, 9}}; h->js.registerHandle(hi::JointStateHandle(n, &d[0], &d[1], &d[2])); }
      h->registerInterface(&h->js);
    }
    if (w.ownjp)
    {
      h->jp.registerHandle(hi::JointHandle(h->js.getHandle("own"), &h->own[3]));
      h->registerInterface(&h->jp);
    }
    return h;
  }
  // the plugins as the package declares them
  static void declare()
  {
    const char* repo = getenv("VERIF_REPO");
    std::string f = std::string(repo ? repo : "/repo") + "/transmission_interface/ros_control_plugins.xml";
    static std::string text;
    if (text.empty())
    {
      FILE* fp = fopen(f.c_str(), "r");
      if (!fp) { fprintf(stderr, "cannot read %s\n", f.c_str()); exit(3); }
      char b[4096];
      size_t n;
      while ((n = fread(b, 1, sizeof b, fp)) > 0) text.append(b, n);
      fclose(fp);
    }
    auto attr = [](const std::string& s, const std::string& k)
    {
      size_t p = s.find(" " + k + "=");
      if (p == std::string::npos) p = s.find("\n" + k + "=");
      if (p == std::string::npos) return std::string();
      p = s.find('=', p) + 1;
      size_t e = s.find(s[p], p + 1);
      return s.substr(p + 1, e - p - 1);
    };
    auto& classes = simros::world().classes;
    classes.clear();
    for (size_t p = text.find("<class "); p != std::string::npos; p = text.find("<class ", p + 1))
    {
      std::string tag = text.substr(p, text.find('>', p) - p);
      std::string base = attr(tag, "base_class_type"), type = attr(tag, "type"), name = attr(tag, "name");
      auto& sc = simros::static_classes();
      if (sc.count(base) && sc[base].count(type)) classes[base][name.empty() ? type : name] = sc[base][type];
    }
  }

  void run(const Plan& plan) override
  {
    sim::own_faults();
    const Line empty("cfg");
    const Line& cfg = plan.first("cfg") ? *plan.first("cfg") : empty;
    w.cycles = cfg.num("cycles", 5);
    w.dt = std::max<long long>(1, cfg.num("dt", 1000000));
    w.bus = std::max<long long>(1000, cfg.num("bus", 500000));
    w.ownjs = cfg.num("ownjs");
    w.ownjp = cfg.num("ownjp");
    w.pre = cfg.num("pre");
    w.rng = sim::Rng(cfg.num("seed", 1));
    std::map<int, size_t> tid;
    for (auto& l : plan.lines)
    {
      if (l.kind == "act")
      {
        auto a = std::unique_ptr<Act>(new Act);
        a->name = l.get("name");
        if (w.by.count(a->name)) continue;
        a->ifaces = l.get("ifaces");
        a->state = l.num("state", 1);
        a->abs = l.num("abs");
        a->tor = l.num("torque");
        for (int q = 0; q < 5; ++q) a->x[q] = a->del[q] = w.rng.uniform(-5, 5);
        w.by[a->name] = a.get();
        w.acts.push_back(std::move(a));
      }
      if (l.kind == "tr")
      {
        Tr t;
        t.id = l.num("id");
        if (tid.count(t.id)) continue;
        t.has_name = l.has("name");
        t.name = l.get("name");
        t.has_type = l.has("type");
        t.type = l.get("type");
        t.fmt = l.num("fmt");
        tid[t.id] = w.trs.size();
        w.trs.push_back(t);
      }
      if ((l.kind == "jnt" || l.kind == "acte") && tid.count(l.num("tr")))
      {
        El e;
        e.has_name = l.has("name");
        e.name = l.get("name");
        e.has_role = l.has("role");
        e.role = l.get("role");
        e.has_red = l.has("red");
        e.red = l.get("red");
        e.has_off = l.has("off");
        e.off = l.get("off");
        e.ign = l.num("ign");
        e.hw = l.list("hw");
        e.hw.erase(std::remove(e.hw.begin(), e.hw.end(), ""), e.hw.end());
        auto& t = w.trs[tid[l.num("tr")]];
        (l.kind == "jnt" ? t.joints : t.acts).push_back(e);
      }
      if (l.kind == "ownj" && !l.get("name").empty()) w.ownj.insert(l.get("name"));
      if (l.kind == "ev" && w.by.count(l.get("act"))) { Ev e; e.kind = l.get("kind"); e.at = l.num("at"); e.dur = l.num("dur", 1); w.by[l.get("act")]->evs.push_back(e); }
    }
    refresh();
    declare();
    simros::world().on_create = [this](simros::LoaderHandle*, const std::string& cls, std::function<void*()> f) -> void*
    {
      std::string kind;
      { NoSim ns; auto it = w.faults.find(cls); if (it != w.faults.end()) { kind = it->second; sim::count("fault_plugin_" + kind); } }
      if (kind == "library") throw pluginlib::LibraryLoadException("injected: " + cls);
      if (kind == "create") throw pluginlib::CreateClassException("injected: " + cls);
      if (kind == "plugin") throw pluginlib::PluginlibException("injected: " + cls);
      if (kind == "constructor") throw std::runtime_error("injected: constructor of " + cls);
      return f();
    };
    w.ifs.reset(new Ifaces);
    w.hw.reset(make_robot());
    w.rt.reset(new ti::RobotTransmissions);
    if (w.pre)
    {
      w.rt->registerInterface(&w.ifs->a2js);
      w.rt->registerInterface(&w.ifs->j2ap);
      w.rt->registerInterface(&w.ifs->j2ae);
      w.rt->registerInterface(&w.ifs->j2as);
      w.rt->registerInterface(&w.ifs->a2jv);
    }
    auto loads_ = plan.all("load");
    auto pf = plan.all("pfault");
    auto dirs = plan.all("dir");

    sim::spawn("bus", [this]()
    {
      while (!w.done)
      {
        sim::sleep_ns(w.bus);
        NoSim ns;
        uint64_t now = sim::now();
        for (auto& ap : w.acts)
        {
          Act& a = *ap;
          bool drop = false, stale = false;
          uint64_t delay = 0;
          for (auto& e : a.evs)
          {
            if (!e.on(w.cycle)) continue;
            if (e.kind == "drop") drop = true;
            if (e.kind == "delay") delay = 3 * w.dt;
            if (e.kind == "stale") stale = true;
          }
          if (drop) { sim::count("fault_bus_loss"); continue; }
          if (delay) sim::count("fault_bus_delay");
          std::array<double, 5> s;
          for (int q = 0; q < 5; ++q) s[q] = a.x[q];
          a.flight.push_back({now + delay, s});
          if (stale && a.flight.size() > 1) { sim::count("fault_bus_reorder"); std::swap(a.flight.front(), a.flight.back()); }
          while (!a.flight.empty() && a.flight.front().first <= now) { a.del = a.flight.front().second; a.flight.erase(a.flight.begin()); }
        }
      }
    }, true);

    sim::spawn("loop", [&]()
    {
      for (w.cycle = 0; w.cycle < w.cycles && !sim::halted(); ++w.cycle)
      {
        for (size_t i = 0; i < dirs.size() && !sim::halted(); ++i) if ((uint64_t)dirs[i]->num("at") == w.cycle) direct(*dirs[i]);
        for (size_t i = 0; i < loads_.size() && !sim::halted(); ++i) if ((uint64_t)loads_[i]->num("at") == w.cycle) load(i, *loads_[i], pf);
        if (sim::halted()) break;
        sim::sleep_ns(w.dt);
        {
          NoSim ns;
          for (auto& ap : w.acts)
          {
            Act& a = *ap;
            bool faulty = false;
            for (int q = 0; q < 5; ++q) a.d[q] = a.del[q];
            for (auto& e : a.evs)
            {
              if (!e.on(w.cycle)) continue;
              if (e.kind == "nan") { for (auto& x : a.d) x = NaN; sim::count("fault_nan"); faulty = true; }
              if (e.kind == "nanpos") { a.d[POS] = NaN; sim::count("fault_nan"); faulty = true; }
              if (e.kind == "push") { a.x[VEL] += 3; a.x[POS] += 0.5; sim::count("fault_push"); }
            }
            // an ideal actuator whose command has come back
            a.echo = !faulty && !w.jcmd.empty() && memcmp(&a.d[POS], &a.cmd[POS], sizeof(double)) == 0;
          }
          for (auto& d : w.dirs) for (int q = 0; q < 5; ++q) for (int i = 0; i < 3; ++i) d->a[q][i] = w.rng.chance(0.03) ? NaN : want();
        }
        phase_state();
        if (sim::halted()) break;
        bool reverse = w.rng.chance(0.3);
        phase_command();
        if (sim::halted()) break;
        {
          NoSim ns;
          // devices execute their commands at once
          for (auto& ap : w.acts)
            for (int q = 0; q < 3; ++q)
              if (std::isfinite(ap->cmd[q])) ap->x[q] = ap->cmd[q];
          for (auto& ap : w.acts) { ap->x[ABS] = ap->x[POS] + 0.25; ap->x[TOR] = ap->x[EFF] * 1.5 + 0.5; }
        }
        if (reverse)
        {
          // as a simulator would, with the actuators' values put back afterwards
          std::vector<std::array<double, 3>> keep;
          { NoSim ns; for (auto& a : w.acts) keep.push_back({a->cmd[0], a->cmd[1], a->cmd[2]}); }
          phase_reverse();
          NoSim ns;
          for (size_t i = 0; i < w.acts.size(); ++i) for (int q = 0; q < 3; ++q) w.acts[i]->cmd[q] = keep[i][q];
        }
        sim::count("cycles");
      }
      w.done = true;
    });
    sim::run_fibers();
  }
};
}  // namespace

int main(int argc, char** argv)
{
  static TransmissionsWorld w;
  return fw::main_(argc, argv, w);
}

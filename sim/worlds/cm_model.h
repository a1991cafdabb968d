// Operations on the controller manager, the sequential reference model, and the search for a linearization.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

typedef std::map<std::string, std::set<std::string>> Claims;  // interface (short) -> resources

inline std::string short_name(const std::string& n)
{
  if (n == "hardware_interface::EffortJointInterface") return "E";
  if (n == "hardware_interface::PositionJointInterface") return "P";
  if (n == "hardware_interface::VelocityJointInterface") return "V";
  if (n == "hardware_interface::PosVelJointInterface") return "Q";
  if (n == "hardware_interface::JointStateInterface") return "S";
  return n;
}
inline std::string long_name(const std::string& n)
{
  if (n == "E") return "hardware_interface::EffortJointInterface";
  if (n == "P") return "hardware_interface::PositionJointInterface";
  if (n == "V") return "hardware_interface::VelocityJointInterface";
  if (n == "Q") return "hardware_interface::PosVelJointInterface";
  if (n == "S") return "hardware_interface::JointStateInterface";
  return n;
}
inline std::string show(const Claims& c)
{
  std::string s = "{";
  for (auto& x : c) { s += x.first + ":"; for (auto& r : x.second) s += r + ","; }
  return s + "}";
}
// The conflict policies used in the simulation, on any set of (controller, claims).
inline bool claims_conflict(const std::vector<std::pair<std::string, Claims>>& v, const std::string& policy)
{
  if (policy == "permissive") return false;
  std::map<std::string, int> n;
  std::map<std::string, std::set<std::string>> by_if;
  for (auto& c : v)
    for (auto& i : c.second)
      for (auto& r : i.second) { n[r]++; by_if[r].insert(i.first); }
  if (policy == "perjoint")  // a robot that shares a joint between controllers of the same interface only
  {
    for (auto& x : by_if) if (x.second.size() > 1) return true;
    return false;
  }
  for (auto& x : n) if (x.second > 1) return true;
  return false;
}

struct Snap { std::string name, type, state; Claims claims; };

struct Op
{
  // plan
  int id = 0, client = 0;
  std::string kind, name;
  std::vector<std::string> start, stop;
  int strict = 2;
  bool asap = false, direct = false, force = false;
  double timeout = 0;
  std::string fault, prep;
  uint64_t slow = 0, prep_slow = 0, delay = 0;
  int alloc = 0, phase = 1;
  uint64_t hw_lat = 0;
  char hw_fin = 'D';
  int do_throw = 0;
  std::map<std::string, std::pair<uint64_t, char>> hwc;
  // observed
  bool called = false, done = false;
  uint64_t call = 0, ret = 0, t_call = 0, t_ret = 0, t_prep = 0;
  char reply = '?';  // T F X
  std::vector<int> constructed, inited, destroyed;
  int prep_calls = 0;
  std::map<std::string, Claims> prep_start, prep_stop;
  bool accepted = false, aborted_ok = false, alloc_fired = false, conflict_called = false, conflict_result = false, complete = false, after_shutdown = false;
  std::map<std::string, char> outcome;
  std::set<std::string> stopped;
  std::vector<Snap> snap;
  int got = -2;
  std::map<std::string, int> reloads;  // loader -> times reloaded during the call
};

struct MC { int inst; char st; };  // st: I R S W A
struct MState
{
  std::map<std::string, MC> c;
  uint64_t hash() const
  {
    uint64_t h = 1469598103934665603ull;
    for (auto& x : c)
    {
      for (char ch : x.first) { h ^= (unsigned char)ch; h *= 1099511628211ull; }
      h ^= (uint64_t)x.second.inst * 131 + x.second.st; h *= 1099511628211ull;
    }
    return h;
  }
};
struct ModelEnv
{
  std::function<bool(const std::string&)> loadable;               // the plan gives this name a loadable type and existing joints
  std::function<std::string(const std::string&)> type_of;
  std::function<Claims(int)> claims_of;                           // of an instance
  std::string policy;
  std::vector<std::string> loaders;
};
struct Why { std::string props, msg; };

inline std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += (s.empty() ? "" : ",") + x; return s; }
inline std::string describe(const Op& o)
{
  std::string s = "op " + std::to_string(o.id) + " " + o.kind;
  if (!o.name.empty()) s += " " + o.name;
  if (o.kind == "switch") s += " start[" + join(o.start) + "] stop[" + join(o.stop) + "] strictness " + std::to_string(o.strict) + (o.asap ? " asap" : "");
  if (o.kind == "reload") s += o.force ? " force" : "";
  return s;
}

inline bool apply(MState& s, const Op& o, const ModelEnv& e, Why& why)
{
  auto no = [&](const char* props, const std::string& m) { why.props = props; why.msg = describe(o) + ": " + m; return false; };
  auto no_destroy = [&](const std::vector<int>& allowed) -> bool
  {
    for (int d : o.destroyed)
    {
      bool ok = false;
      for (int a : allowed) if (a == d) ok = true;
      if (!ok) return false;
    }
    return true;
  };
  const std::string rep = o.reply == 'T' ? "true" : o.reply == 'F' ? "false" : "an exception";
  if (o.kind == "load")
  {
    bool loaded = s.c.count(o.name);
    bool want = !loaded && (o.fault.empty()) && e.loadable(o.name);
    if (o.reply == 'T' && !want) return no("C11", std::string("returns true though ") + (loaded ? "the name is already loaded" : "the controller cannot be loaded (" + o.fault + ")"));
    if (o.reply != 'T' && want && !o.alloc_fired && !o.after_shutdown) return no("C11", "returns " + rep + " though the controller can be loaded");
    if (o.reply == 'T')
    {
      if (o.inited.size() != 1) return no("C11", "returns true after " + std::to_string(o.inited.size()) + " successful initialisations");
      if (!no_destroy({})) return no("C12,C11", "a successful load destroys a controller");
      s.c[o.name] = MC{o.inited[0], 'I'};
    }
    else
    {
      for (int c : o.constructed)
      {
        bool d = false;
        for (int x : o.destroyed) if (x == c) d = true;
        if (!d) return no("C11", "fails but the failed controller instance is not destroyed");
      }
      if (!no_destroy(o.constructed)) return no("C12,C11", "a failed load destroys another controller");
    }
    return true;
  }
  if (o.kind == "unload")
  {
    auto it = s.c.find(o.name);
    bool want = it != s.c.end() && it->second.st != 'R';
    if (o.reply == 'T' && !want) return no("C12", std::string("returns true though the controller is ") + (it == s.c.end() ? "not loaded" : "running"));
    if (o.reply != 'T' && want && !o.alloc_fired && !o.after_shutdown) return no("C12", "returns " + rep + " though the controller is loaded and not running");
    if (o.reply == 'T')
    {
      if (o.destroyed.size() != 1 || o.destroyed[0] != it->second.inst) return no("C12", "the unloaded controller instance is not (or not the only one) destroyed before the reply");
      s.c.erase(it);
    }
    else if (!o.destroyed.empty()) return no("C12", "a refused unload destroys a controller");
    return true;
  }
  if (o.kind == "get")
  {
    auto it = s.c.find(o.name);
    int want = it == s.c.end() ? -1 : it->second.inst;
    if (o.reply == 'T' && o.got != want) return no("C13", "lookup returns instance " + std::to_string(o.got) + " but instance " + std::to_string(want) + " is loaded");
    return true;
  }
  if (o.kind == "list")
  {
    if (o.reply != 'T') return o.alloc_fired ? true : no("C13", "fails");
    std::set<std::string> seen;
    for (auto& x : o.snap)
    {
      if (!seen.insert(x.name).second) return no("C13", "lists controller " + x.name + " twice");
      auto it = s.c.find(x.name);
      if (it == s.c.end()) return no("C13", "lists controller " + x.name + " that is not loaded");
      const char* st = it->second.st == 'I' ? "initialized" : it->second.st == 'R' ? "running" : it->second.st == 'S' ? "stopped" : it->second.st == 'W' ? "waiting" : "aborted";
      if (x.state != st) return no("C13", "lists controller " + x.name + " as " + x.state + " but it is " + st);
      if (x.type != e.type_of(x.name)) return no("C13", "lists controller " + x.name + " with type " + x.type);
      if (x.claims != e.claims_of(it->second.inst)) return no("C16", "lists controller " + x.name + " with resources " + show(x.claims) + " but it claimed " + show(e.claims_of(it->second.inst)));
    }
    for (auto& x : s.c) if (!seen.count(x.first)) return no("C13", "does not list the loaded controller " + x.first);
    if (!o.destroyed.empty()) return no("C12", "a listing destroys a controller");
    return true;
  }
  if (o.kind == "switch")
  {
    std::set<std::string> st(o.start.begin(), o.start.end()), sp(o.stop.begin(), o.stop.end());
    bool strict = o.strict == 2, refuse = false, conf = false;
    std::string reason;
    auto bad = [&](const std::string& r) { if (!refuse) reason = r; refuse = true; };
    for (auto& n : st) if (!s.c.count(n) && strict) bad("unknown controller " + n);
    for (auto& n : sp) if (!s.c.count(n) && strict) bad("unknown controller " + n);
    std::map<std::string, Claims> want_start, want_stop;
    std::vector<std::pair<std::string, Claims>> result;
    for (auto& x : s.c)
    {
      bool in_stop = sp.count(x.first), in_start = st.count(x.first), run = x.second.st == 'R';
      if (!run && in_stop) { if (strict) bad(x.first + " is to be stopped but not running"); in_stop = false; }
      if (run && !in_stop && in_start) { if (strict) bad(x.first + " is to be started but running"); in_start = false; }
      if (in_stop && in_start) bad(x.first + " is running and to be both stopped and started");
      Claims c = e.claims_of(x.second.inst);
      if (run && in_stop) want_stop[x.first] = c;
      if (!run && in_start) want_start[x.first] = c;
      if ((run && !in_stop) || in_start) result.emplace_back(x.first, c);
    }
    if (!refuse && claims_conflict(result, e.policy)) { bad("resource conflict"); conf = true; }
    bool prep_bad = o.prep == "refuse" || o.prep == "throw" || o.prep == "throwint";
    if (!o.destroyed.empty()) return no("C12", "a switch destroys a controller");
    if (refuse)
    {
      if (o.accepted) return no(conf ? "C03" : "C05", "is carried out though it has to be refused: " + reason);
      if (o.reply == 'T') return no(conf ? "C03" : "C05", "returns true though it has to be refused: " + reason);
      return true;
    }
    if (!o.prep_calls)
    {
      if (o.alloc_fired && o.reply != 'T') return true;
      if (o.reply == 'T') return no("C06,C08", "returns true without consulting prepareSwitch");
      return no(o.conflict_called && o.conflict_result ? "C03" : "C05", "is refused (" + rep + ") though it has to be accepted");
    }
    if (o.prep_start != want_start || o.prep_stop != want_stop)
    {
      auto l = [](const std::map<std::string, Claims>& m) { std::string r; for (auto& x : m) r += x.first + show(x.second) + " "; return r; };
      return no("C06", "prepareSwitch gets start [" + l(o.prep_start) + "] stop [" + l(o.prep_stop) + "] instead of start [" + l(want_start) + "] stop [" + l(want_stop) + "]");
    }
    if (prep_bad)
    {
      if (o.reply == 'T') return no("C05,C06", "returns true though the hardware refused it");
      return true;
    }
    if (!o.accepted) return o.alloc_fired ? true : no("C05", "is refused though it has to be accepted");
    if (o.reply == 'T')
    {
      for (auto& x : want_stop) if (!o.stopped.count(x.first)) return no("C08", "returns true but " + x.first + " was not stopped");
      for (auto& x : want_start)
      {
        auto it = o.outcome.find(x.first);
        if (it == o.outcome.end() || (it->second != 's' && it->second != 'a')) return no("C08", "returns true but " + x.first + " was neither started nor aborted");
      }
    }
    else if (!o.after_shutdown && !(o.timeout > 0 && o.t_ret - o.t_prep >= (uint64_t)(o.timeout * 1e9)) && !o.alloc_fired)
      return no("C05,C07,C08,C15", "returns " + rep + " after having been accepted, without a time-out");
    for (auto& n : o.stopped) if (s.c.count(n)) s.c[n].st = 'S';
    for (auto& x : o.outcome) if (s.c.count(x.first)) s.c[x.first].st = x.second == 's' ? 'R' : x.second == 'a' ? 'A' : 'W';
    return true;
  }
  if (o.kind == "reload")
  {
    bool any_running = false;
    for (auto& x : s.c) if (x.second.st == 'R') any_running = true;
    int nre = 0;
    for (auto& r : o.reloads) nre += r.second;
    auto failed = [&](const char* m) -> bool
    {
      if (o.reply == 'T') return no("C14", std::string("reports ok though ") + m);
      if (nre) return no("C14", std::string("reloads a library though ") + m);
      return true;
    };
    bool prep_bad = o.prep == "refuse" || o.prep == "throw" || o.prep == "throwint";
    if (!s.c.empty() && !o.force)
    {
      if (!failed("controllers are loaded and force_kill is not set")) return false;
      if (!o.destroyed.empty() || o.accepted) return no("C14", "changes something though it has to fail");
      return true;
    }
    if (!s.c.empty() && prep_bad && (any_running || o.reply != 'T'))
    {
      if (!failed("the running controllers could not be stopped")) return false;
      if (!o.destroyed.empty()) return no("C14,C12", "destroys controllers though they could not be stopped");
      return true;
    }
    if ((o.alloc_fired || o.after_shutdown) && o.reply != 'T')
    {
      if (nre) return no("C14", "reloads a library though it fails");
      // whatever was unloaded before the failure is gone
      for (int d : o.destroyed) for (auto it = s.c.begin(); it != s.c.end();) { if (it->second.inst == d) it = s.c.erase(it); else ++it; }
      for (auto& x : s.c) if (o.stopped.count(x.first)) x.second.st = 'S';
      return true;
    }
    if (o.reply != 'T') return no("C14", "fails (" + rep + ") though nothing prevents the reload");
    for (auto& l : e.loaders)
    {
      auto it = o.reloads.find(l);
      int n = it == o.reloads.end() ? 0 : it->second;
      if (n != 1) return no("C14", "reports ok but loader " + l + " was reloaded " + std::to_string(n) + " times");
    }
    if (o.destroyed.size() != s.c.size()) return no("C14,C12", "reports ok but " + std::to_string(o.destroyed.size()) + " of " + std::to_string(s.c.size()) + " controllers were destroyed");
    for (auto& x : s.c)
    {
      bool d = false;
      for (int i : o.destroyed) if (i == x.second.inst) d = true;
      if (!d) return no("C14,C12", "reports ok but controller " + x.first + " was not destroyed");
      if (x.second.st == 'R' && !o.stopped.count(x.first)) return no("C14", "the running controller " + x.first + " was not stopped");
    }
    s.c.clear();
    return true;
  }
  return true;
}

// Searches for a sequential order of the operations that the model allows and that respects real time.
struct Linearizer
{
  const std::vector<Op*>& ops;
  const ModelEnv& env;
  std::set<std::pair<uint64_t, uint64_t>> seen;
  size_t best = 0;
  Why why;
  uint64_t nodes = 0;
  bool gave_up = false;
  Linearizer(const std::vector<Op*>& o, const ModelEnv& e) : ops(o), env(e) {}
  bool go(uint64_t mask, size_t n, const MState& s)
  {
    if (n == ops.size()) return true;
    if (++nodes > 200000) { gave_up = true; return true; }
    if (!seen.insert({mask, s.hash()}).second) return false;
    uint64_t minret = ~0ull;
    for (size_t i = 0; i < ops.size(); ++i) if (!(mask >> i & 1) && ops[i]->ret < minret) minret = ops[i]->ret;
    for (size_t i = 0; i < ops.size(); ++i)
    {
      if (mask >> i & 1) continue;
      if (ops[i]->call > minret) continue;
      MState t = s;
      Why w;
      if (apply(t, *ops[i], env, w)) { if (go(mask | (1ull << i), n + 1, t)) return true; }
      else if (n >= best) { best = n; why = w; }
    }
    return false;
  }
};

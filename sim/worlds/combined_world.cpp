// A combined robot made of plugin parts under simulation, alone and below the real controller manager.
// Decides C18-C20.
#include "../core/framework.h"
#include "../stubs/simworld.h"

#include <combined_robot_hw/combined_robot_hw.h>
#include <controller_interface/controller.h>
#include <controller_interface/multi_interface_controller.h>
#include <controller_manager/controller_manager.h>
#include <hardware_interface/imu_sensor_interface.h>
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/joint_state_interface.h>
#include <hardware_interface/robot_hw.h>

#include <algorithm>
#include <set>

#include "cm_model.h"

using fw::Line;
using fw::Plan;
using sim::NoSim;
namespace hi = hardware_interface;

namespace
{
const char* S(const std::string& s) { return s.c_str(); }

struct PartPlan
{
  std::string name, fault;
  bool nested = false;
  bool flate = false;
  int late = 0;  // handles added after the interface has been registered: 1 all, 2 all but the first
  int cls = 0;
  std::map<std::string, std::vector<std::string>> res;  // interface -> joints
  bool has(const std::string& i, const std::string& j) const
  {
    auto it = res.find(i);
    return it != res.end() && std::find(it->second.begin(), it->second.end(), j) != it->second.end();
  }
};
struct Part;
struct PartRun
{
  PartPlan plan;
  Part* obj = nullptr;
  int inits = 0, reads = 0, writes = 0, preps = 0, dos = 0, destroyed = 0;
  bool ready = false;
};
typedef std::vector<std::pair<std::pair<std::string, std::string>, Claims>> CList;  // (name, type), claims; in order

struct COp
{
  int id = 0, client = 0;
  std::string kind, name, fault;
  std::vector<std::string> start, stop;
  int strict = 2, alloc = 0;
  bool asap = false;
  double timeout = 0;
  uint64_t delay = 0;
  std::map<std::string, std::pair<uint64_t, char>> res;  // part -> latency in cycles, final result
  std::map<std::string, uint64_t> coff;                  // controller -> extra latency
  std::map<std::string, std::string> prep;               // part -> refuse/throw/throwint
  bool called = false, done = false;
  char reply = '?';
};
struct Ctl { std::string name, type; Claims want; };
struct Active
{
  bool open = false;
  COp* op = nullptr;
  CList start, stop;
  uint64_t cyc = 0;
  int64_t t_req = 0;
};

struct CW
{
  std::string root_ns = "/";  // of the robot's controllers
  bool few = false;           // only the class needed is declared
  std::map<std::string, PartRun> parts;
  std::vector<std::string> order;
  std::vector<std::string> calls;  // read/write calls of this cycle, in order
  std::map<std::string, Ctl> ctl;
  std::vector<COp*> ops;
  std::map<int, COp*> cur_op;
  ros::Time t;
  ros::Duration p;
  uint64_t cycle = 0;
  bool in_prepare = false, in_do = false, teardown = false, in_init = false;
  CList in_start, in_stop;
  int prep_fiber = -1;
  Active prepared, act;
  int clients_left = 0;
  uint64_t stall_until = 0, rt_period = 1000000, rt_end = ~0ull;
  int rt_fiber = -1;
  int failed_part = -1;
  bool combo_done = false;
  std::string part_being_made;
};
CW* W = nullptr;

COp* my_op() { auto it = W->cur_op.find(sim::cur()); return it == W->cur_op.end() ? nullptr : it->second; }
int64_t ros_ns() { return 1000000000000ll + (int64_t)sim::now(); }

Claims claims_of(const hi::ControllerInfo& c)
{
  Claims m;
  for (auto& r : c.claimed_resources)
  {
    auto& s = m[short_name(r.hardware_interface)];
    for (auto& x : r.resources) s.insert(x);
  }
  return m;
}
CList to_list(const std::list<hi::ControllerInfo>& l)
{
  CList v;
  for (auto& c : l) v.push_back({{c.name, c.type}, claims_of(c)});
  return v;
}
std::string show(const CList& l)
{
  std::string s;
  for (auto& x : l) s += x.first.first + "(" + x.first.second + ")" + ::show(x.second) + " ";
  return s.empty() ? "-" : s;
}
Claims share(const PartPlan& p, const Claims& c)
{
  Claims r;
  for (auto& i : c) for (auto& j : i.second) if (p.has(i.first, j)) r[i.first].insert(j);
  return r;
}
bool claims_nothing(const Claims& c) { return c.empty(); }
CList filtered(const PartPlan& p, const CList& l)
{
  CList r;
  for (auto& x : l)
  {
    Claims c = share(p, x.second);
    if (claims_nothing(x.second) || !c.empty()) r.push_back({x.first, c});
  }
  std::sort(r.begin(), r.end());
  return r;
}
CList sorted(CList l) { std::sort(l.begin(), l.end()); return l; }
bool uses(const PartPlan& p, const Claims& c) { return !share(p, c).empty(); }

// the answer of a part for the switch being carried out, for one controller or for all of its switch
char part_result(const Active& a, const std::string& part, const std::string* ctl)
{
  if (!a.op) return 'D';
  auto it = a.op->res.find(part);
  uint64_t lat = 0;
  char fin = 'D';
  if (it != a.op->res.end()) { lat = it->second.first; fin = it->second.second; }
  if (ctl) { auto k = a.op->coff.find(*ctl); if (k != a.op->coff.end()) lat += k->second; }
  return W->cycle - a.cyc < lat ? 'O' : fin;
}
hi::RobotHW::SwitchState st(char c) { return c == 'D' ? hi::RobotHW::SwitchState::DONE : c == 'E' ? hi::RobotHW::SwitchState::ERROR : hi::RobotHW::SwitchState::ONGOING; }

struct Ifaces
{
  hi::JointStateInterface s;
  hi::EffortJointInterface e;
  hi::PositionJointInterface p;
  hi::VelocityJointInterface v;
  hi::ImuSensorInterface imu;
};
struct Part : hi::RobotHW
{
  std::string name;
  Ifaces a, b;                      // own, and those of a sub-manager
  hi::InterfaceManager sub;
  std::map<std::string, std::array<double, 4>> data;  // "iface:joint" -> pos vel eff cmd
  Part() { NoSim ns; sim::ev("construct part"); }
  ~Part() override
  {
    NoSim ns;
    if (W->parts.count(name)) { W->parts[name].destroyed++; if (!W->teardown) sim::ev("destroy part %s", S(name)); }
  }
  template <class I> void reg_iface(hi::InterfaceManager& m, I& i, const std::string& k, const std::vector<std::string>& js)
  {
    if (js.empty()) return;
    int late = W->parts[name].plan.late;
    if (late == 1) m.registerInterface(&i);
    for (auto& j : js)
    {
      auto& d = data[k + ":" + j];
      hi::JointStateHandle h(j, &d[0], &d[1], &d[2]);
      add(i, h, &d[3]);
      if (late == 2 && &j == &js.front()) m.registerInterface(&i);
    }
    if (!late) m.registerInterface(&i);
  }
  static void add(hi::JointStateInterface& i, const hi::JointStateHandle& h, double*) { i.registerHandle(h); }
  template <class I> static void add(I& i, const hi::JointStateHandle& h, double* c) { i.registerHandle(hi::JointHandle(h, c)); }

  bool init(ros::NodeHandle& root, ros::NodeHandle& nh) override
  {
    sim::point(sim::P_SYNC);
    std::string fault;
    {
      NoSim ns;
      std::string n = nh.getNamespace();
      name = n.substr(n.rfind('/') + 1);
      if (root.getNamespace() != W->root_ns || n != "/hw/" + name) sim::fail("C19", false, "part %s is initialised in the name spaces %s and %s, not in the robot's %s and its own", S(name), S(root.getNamespace()), S(n), S(W->root_ns));
      sim::ev("init part %s", S(name));
      auto& r = W->parts[name];
      r.obj = this;
      r.inits++;
      fault = r.plan.fault;
      if (!W->in_init) sim::fail("C19", false, "part %s is initialised outside the robot's init", S(name));
      if (W->failed_part >= 0) sim::fail("C19", false, "part %s is initialised though an earlier part failed", S(name));
      for (auto& o : W->order) { if (o == name) break; if (!W->parts[o].ready) { sim::fail("C19", false, "part %s is initialised before part %s", S(name), S(o)); } }
      if (fault == "initfalse" || fault == "initthrow" || fault == "initthrowint") { sim::count("fault_" + fault); W->failed_part = 1; }
    }
    auto broken = [&]() -> bool
    {
      if (fault == "initthrow") throw std::runtime_error("injected");
      if (fault == "initthrowint") throw 5;
      return fault == "initfalse";
    };
    bool before;
    { NoSim ns; before = !W->parts[name].plan.flate; }
    if (before && broken()) return false;
    {
    NoSim ns;
    const PartPlan& p = W->parts[name].plan;
    for (auto& x : p.res)
    {
      std::vector<std::string> own, in_sub;
      for (size_t i = 0; i < x.second.size(); ++i) (p.nested && i % 2 ? in_sub : own).push_back(x.second[i]);
      if (x.first == "S") { reg_iface(*this, a.s, "S", own); reg_iface(sub, b.s, "S", in_sub); }
      if (x.first == "E") { reg_iface(*this, a.e, "E", own); reg_iface(sub, b.e, "E", in_sub); }
      if (x.first == "P") { reg_iface(*this, a.p, "P", own); reg_iface(sub, b.p, "P", in_sub); }
      if (x.first == "V") { reg_iface(*this, a.v, "V", own); reg_iface(sub, b.v, "V", in_sub); }
    }
    if (p.nested) registerInterfaceManager(&sub);
    }
    if (!before && broken()) return false;  // a failure after the part has registered its interfaces
    W->parts[name].ready = true;
    return true;
  }
  void rw(const char* what, const ros::Time& t, const ros::Duration& p)
  {
    sim::point(sim::P_SYNC);
    NoSim ns;
    sim::count("chk_C19");
    W->calls.push_back(std::string(what) + " " + name);
    if (t != W->t || p != W->p) sim::fail("C19", false, "%s of part %s gets another time or period than the robot's %s", what, S(name), what);
    if (sim::cur() != W->rt_fiber) sim::fail("C19", false, "%s of part %s is called outside the robot's %s", what, S(name), what);
  }
  void read(const ros::Time& t, const ros::Duration& p) override { rw("read", t, p); }
  void write(const ros::Time& t, const ros::Duration& p) override { rw("write", t, p); }
  void check(const char* what, const std::list<hi::ControllerInfo>& start, const std::list<hi::ControllerInfo>& stop)
  {
    CList gs = sorted(to_list(start)), gp = sorted(to_list(stop));
    sim::ev("part %s %s start %s stop %s", S(name), what, S(show(gs)), S(show(gp)));
    sim::count("chk_C18");
    const PartPlan& p = W->parts[name].plan;
    CList ws = filtered(p, W->in_start), wp = filtered(p, W->in_stop);
    if (gs != ws) sim::fail("C18", false, "%s: part %s gets start list %s instead of %s", what, S(name), S(show(gs)), S(show(ws)));
    if (gp != wp) sim::fail("C18", false, "%s: part %s gets stop list %s instead of %s", what, S(name), S(show(gp)), S(show(wp)));
  }
  bool prepareSwitch(const std::list<hi::ControllerInfo>& start, const std::list<hi::ControllerInfo>& stop) override
  {
    sim::point(sim::P_SYNC);
    std::string f;
    {
      NoSim ns;
      auto& r = W->parts[name];
      if (!W->in_prepare) sim::fail("C18", false, "prepareSwitch of part %s is called outside the robot's prepareSwitch", S(name));
      if (r.preps++) sim::fail("C18", false, "prepareSwitch of part %s is called twice for one switch", S(name));
      check("prepareSwitch", start, stop);
      if (COp* o = my_op()) if (o->prep.count(name)) { f = o->prep[name]; sim::count("fault_prepare_" + f); }
    }
    if (f == "throw") throw std::runtime_error("injected");
    if (f == "throwint") throw 9;
    return f != "refuse";
  }
  void doSwitch(const std::list<hi::ControllerInfo>& start, const std::list<hi::ControllerInfo>& stop) override
  {
    sim::point(sim::P_SYNC);
    NoSim ns;
    auto& r = W->parts[name];
    if (!W->in_do) sim::fail("C18", false, "doSwitch of part %s is called outside the robot's doSwitch", S(name));
    if (r.dos++) sim::fail("C18", false, "doSwitch of part %s is called twice for one switch", S(name));
    check("doSwitch", start, stop);
  }
  // does this part take part in the current switch at all
  bool involved() const
  {
    const PartPlan& p = W->parts[name].plan;
    return !filtered(p, W->act.start).empty() || !filtered(p, W->act.stop).empty();
  }
  SwitchState switchResult() const override
  {
    sim::point(sim::P_SYNC);
    NoSim ns;
    return involved() ? st(part_result(W->act, name, nullptr)) : SwitchState::DONE;
  }
  SwitchState switchResult(const hi::ControllerInfo& c) const override
  {
    sim::point(sim::P_SYNC);
    NoSim ns;
    std::string n(c.name);
    const PartPlan& p = W->parts[name].plan;
    auto it = W->ctl.find(n);
    Claims full = it == W->ctl.end() ? Claims() : it->second.want;
    full.erase("S");
    if (full.empty()) return SwitchState::DONE;
    // a part knows nothing about controllers that use none of its resources
    if (!uses(p, full)) return (sim::now() / 1000) & 1 ? SwitchState::ERROR : SwitchState::ONGOING;
    CList got = to_list({c}), want = filtered(p, W->act.start), exp;
    for (auto& x : want) if (x.first.first == n) exp.push_back(x);
    if (!exp.empty() && got != exp) sim::fail("C18", false, "switchResult: part %s is asked about %s instead of %s", S(name), S(show(got)), S(show(exp)));
    return st(part_result(W->act, name, &n));
  }
};
template <int K> struct PartK : Part {};
struct BadPart : Part { BadPart() { throw std::logic_error("injected constructor failure"); } };

struct Tap : combined_robot_hw::CombinedRobotHW
{
  typedef combined_robot_hw::CombinedRobotHW B;
  bool prepareSwitch(const std::list<hi::ControllerInfo>& start, const std::list<hi::ControllerInfo>& stop) override
  {
    sim::set_rt_section(false);
    {
      NoSim ns;
      W->in_prepare = true;
      W->in_start = to_list(start);
      W->in_stop = to_list(stop);
      sim::ev("prepareSwitch start %s stop %s", S(show(W->in_start)), S(show(W->in_stop)));
      for (auto& p : W->parts) p.second.preps = 0;
    }
    bool r = false, exc = true;
    struct Fin { ~Fin() { W->in_prepare = false; } } fin;
    COp* o = my_op();
    bool bad = o && !o->prep.empty();
    {
      NoSim ns;
      bad = false;
      if (o) for (auto& x : o->prep) if (W->parts.count(x.first) && W->parts[x.first].ready) bad = true;
    }
    auto after = [&]()
    {
      NoSim ns;
      sim::count("chk_C18");
      bool alloc = sim::alloc_fail_fired();
      sim::ev("prepareSwitch -> %s", exc ? "exception" : r ? "true" : "false");
      if (!exc && r && bad) sim::fail("C18", false, "prepareSwitch succeeds though a part refuses the switch");
      if ((exc || !r) && !bad && !alloc) sim::fail("C18", false, "prepareSwitch fails though no part refuses the switch");
      if (!exc && r)
      {
        for (auto& n : W->order) if (W->parts[n].preps != 1) sim::fail("C18", false, "prepareSwitch of part %s is called %d times for one switch", S(n), W->parts[n].preps);
        W->prepared = Active();
        W->prepared.open = true;
        W->prepared.op = o;
        W->prepared.start = W->in_start;
        W->prepared.stop = W->in_stop;
        W->prepared.t_req = ros_ns();
      }
    };
    try { r = B::prepareSwitch(start, stop); exc = false; }
    catch (...) { after(); throw; }
    after();
    return r;
  }
  void doSwitch(const std::list<hi::ControllerInfo>& start, const std::list<hi::ControllerInfo>& stop) override
  {
    {
      NoSim ns;
      W->in_do = true;
      W->in_start = to_list(start);
      W->in_stop = to_list(stop);
      for (auto& p : W->parts) p.second.dos = 0;
      sim::ev("doSwitch start %s stop %s", S(show(W->in_start)), S(show(W->in_stop)));
      if (!W->prepared.open || W->prepared.start != W->in_start || W->prepared.stop != W->in_stop) sim::fail("C18", false, "doSwitch for a switch that was not prepared");
      W->prepared.open = false;
      W->act = W->prepared;
      W->act.cyc = W->cycle;
    }
    B::doSwitch(start, stop);
    NoSim ns;
    W->in_do = false;
    for (auto& n : W->order) if (W->parts[n].dos != 1) sim::fail("C18", false, "doSwitch of part %s is called %d times for one switch", S(n), W->parts[n].dos);
  }
};

// ------------------------------------------------------------------------------------------------ controllers
enum Cb { START, WAIT, ABORT };
struct Rec
{
  std::string name;
  bool running = false;
  void judge(Cb k)
  {
    NoSim ns;
    const char* n[] = {"starting", "waiting", "aborting"};
    sim::ev("%s %s", n[k], S(name));
    const Active& a = W->act;
    const Claims* mine = nullptr;
    for (auto& x : a.start) if (x.first.first == name) mine = &x.second;
    if (!a.op || !mine) return;  // not this world's business
    sim::count("chk_C20");
    bool err = false, ongoing = false;
    std::string who;
    for (auto& pn : W->order)
    {
      const PartPlan& p = W->parts[pn].plan;
      char r;
      if (a.op->asap) { if (!uses(p, *mine)) continue; r = part_result(a, pn, &name); }
      else { if (filtered(p, a.start).empty() && filtered(p, a.stop).empty()) continue; r = part_result(a, pn, nullptr); }
      if (r == 'E') { err = true; who += pn + " "; }
      if (r == 'O') { ongoing = true; who += pn + " "; }
    }
    if (err) sim::count("ev_part_error");
    if (ongoing) sim::count("ev_part_ongoing");
    double el = (W->t.toNSec() - (double)a.t_req) * 1e-9;
    bool may_to = a.op->timeout > 0 && el > a.op->timeout - 1e-3;
    if (k == START && (err || ongoing)) sim::fail("C20", false, "controller %s starts though part %sreports the switch as %s", S(name), S(who), err ? "failed" : "ongoing");
    if (k == WAIT && err) sim::fail("C20", false, "controller %s is kept waiting though part %sreports an error", S(name), S(who));
    if (k == WAIT && !ongoing && !err) sim::fail("C20", false, "controller %s is kept waiting though every part has finished the switch", S(name));
    if (k == ABORT && !err && !(ongoing && may_to)) sim::fail("C20", false, "controller %s is aborted though no part reports an error", S(name));
  }
};
template <class B> struct Cbs : B
{
  Rec rec;
  void starting(const ros::Time&) override { sim::point(sim::P_SYNC); rec.judge(START); }
  void waiting(const ros::Time&) override { sim::point(sim::P_SYNC); rec.judge(WAIT); }
  void aborting(const ros::Time&) override { sim::point(sim::P_SYNC); rec.judge(ABORT); }
  void stopping(const ros::Time&) override { NoSim ns; sim::ev("stopping %s", S(rec.name)); }
  void update(const ros::Time&, const ros::Duration&) override {}
  const Ctl& plan(ros::NodeHandle& nh)
  {
    NoSim ns;
    std::string n = nh.getNamespace();
    rec.name = n.substr(n.rfind('/') + 1);
    return W->ctl[rec.name];
  }
};
template <class I> std::string key_of();
template <> std::string key_of<hi::EffortJointInterface>() { return "E"; }
template <> std::string key_of<hi::PositionJointInterface>() { return "P"; }
template <> std::string key_of<hi::VelocityJointInterface>() { return "V"; }
template <> std::string key_of<hi::JointStateInterface>() { return "S"; }

// a handle obtained through the combined robot addresses the data of the part that has the joint
template <class H> void check_handle(const H& h, const std::string& i, const std::string& j)
{
  NoSim ns;
  sim::count("chk_C19");
  for (auto& n : W->order)
  {
    auto& r = W->parts[n];
    if (!r.plan.has(i, j)) continue;
    auto& d = r.obj->data[i + ":" + j];
    if (h.getPositionPtr() != &d[0] || h.getVelocityPtr() != &d[1] || h.getEffortPtr() != &d[2])
      sim::fail("C19", false, "joint %s of %s obtained from the combined robot does not address the data of part %s", S(j), S(long_name(i)), S(n));
    return;
  }
  sim::fail("C19", false, "joint %s of %s is not part of any robot hardware", S(j), S(long_name(i)));
}
void check_command(hi::JointHandle h, const std::string& i, const std::string& j)
{
  check_handle(h, i, j);
  h.setCommand(42.5);
  NoSim ns;
  for (auto& n : W->order)
    if (W->parts[n].plan.has(i, j) && W->parts[n].obj->data[i + ":" + j][3] != 42.5)
      sim::fail("C19", false, "a command for joint %s of %s does not reach part %s", S(j), S(long_name(i)), S(n));
}
void take(hi::JointStateInterface* p, const std::string& j) { check_handle(p->getHandle(j), "S", j); }
template <class I> void take(I* p, const std::string& j) { check_command(p->getHandle(j), key_of<I>(), j); }
template <class I> void take_from(hi::RobotHW* hw, const std::string& j)
{
  I* p = hw->get<I>();
  if (!p) throw std::runtime_error("no such interface");
  take(p, j);
}

template <class I> struct Single : Cbs<controller_interface::Controller<I>>
{
  bool init(I* hw, ros::NodeHandle& nh) override
  {
    const Ctl& c = this->plan(nh);
    for (auto& x : c.want) for (auto& j : x.second) take(hw, j);
    return true;
  }
};
template <class... T> struct Multi : Cbs<controller_interface::MultiInterfaceController<T...>>
{
  Multi() : Cbs<controller_interface::MultiInterfaceController<T...>>() {}
  bool init(hi::RobotHW* hw, ros::NodeHandle& nh) override
  {
    const Ctl& c = this->plan(nh);
    for (auto& x : c.want)
      for (auto& j : x.second)
      {
        if (x.first == "E") take_from<hi::EffortJointInterface>(hw, j);
        if (x.first == "P") take_from<hi::PositionJointInterface>(hw, j);
        if (x.first == "V") take_from<hi::VelocityJointInterface>(hw, j);
        if (x.first == "S") take_from<hi::JointStateInterface>(hw, j);
      }
    return true;
  }
};
// claims nothing, and needs no interface
struct NoClaim : Cbs<controller_interface::ControllerBase>
{
  bool initRequest(hi::RobotHW*, ros::NodeHandle&, ros::NodeHandle& nh, ClaimedResources&) override
  {
    plan(nh);
    state_ = ControllerState::INITIALIZED;
    return true;
  }
};
// claims on its own terms: lists interfaces with no resources, or of no part
struct OwnClaim : Cbs<controller_interface::ControllerBase>
{
  bool initRequest(hi::RobotHW*, ros::NodeHandle&, ros::NodeHandle& nh, ClaimedResources& cl) override
  {
    const Ctl& c = plan(nh);
    for (auto& x : c.want) if (x.first != "S") cl.push_back(hi::InterfaceResources(long_name(x.first), x.second));
    state_ = ControllerState::INITIALIZED;
    return true;
  }
};

template <class T> void regc(const char* n)
{
  simros::world().classes["controller_interface::ControllerBase"][n] = []() -> void* { return static_cast<controller_interface::ControllerBase*>(new T()); };
}
template <class T> void regp(const char* n)
{
  simros::world().classes["hardware_interface::RobotHW"][n] = []() -> void* { return static_cast<hi::RobotHW*>(new T()); };
}

struct CombinedWorld : fw::World
{
  CW world;
  double own_d[4] = {0, 0, 0, 0};
  std::vector<std::string> properties() override { return {"C18", "C19", "C20"}; }

  Plan generate(const std::string& prop, sim::Rng& r, bool) override
  {
    Plan pl;
    Line& c = pl.add("cfg");
    int np = r.range(1, 4);
    double pfault = prop == "C19" ? 0.45 : 0.0;
    static const long long per[] = {1000000, 2000000, 5000000};
    int nclients = r.range(1, 2);
    c.set("clients", nclients).set("period", per[r.below(3)]).set("ownif", r.chance(prop == "C19" ? 0.4 : 0.15) ? r.range(1, 3) : 0);
    if (r.chance(0.4)) c.set("root", r.chance(0.5) ? "/rb" : "/cell/rb");
    if (r.chance(0.4)) c.set("few", 1);
    if (prop == "C19" && r.chance(0.06)) c.set("list", r.chance(0.5) ? "missing" : "nolist");
    // joints
    std::vector<std::string> joints;
    for (int i = 0; i < 6; ++i) joints.push_back("j" + std::to_string(i));
    std::map<std::string, std::vector<std::string>> avail;  // interface -> joints somewhere in the robot
    std::map<std::string, std::map<std::string, int>> owner;
    std::vector<std::map<std::string, std::vector<std::string>>> res(np);
    for (const char* k : {"S", "E", "P", "V"})
      for (auto& j : joints)
        if (r.chance(0.65))
        {
          int p = r.below(np);
          // mostly all interfaces of a joint are on one part
          if (r.chance(0.7)) p = (j[1] - '0') % np;
          res[p][k].push_back(j);
          avail[k].push_back(j);
          owner[k][j] = p;
        }
    int faulty = r.chance(pfault) ? r.below(np) : -1;
    for (int i = 0; i < np; ++i)
    {
      Line& l = pl.add("part");
      std::string rs;
      for (auto& x : res[i]) for (auto& j : x.second) rs += (rs.empty() ? "" : ",") + x.first + ":" + j;
      l.set("name", "p" + std::to_string(i)).set("res", rs).set("nested", r.chance(0.35) ? 1 : 0).set("late", r.chance(0.3) ? 1 + (int)r.below(2) : 0).set("cls", (int)r.below(3));
      if (i == faulty)
      {
        static const char* f[] = {"notype", "badtype", "nocls", "createthrow", "createlogic", "createnull", "ctorthrow", "initfalse", "initthrow", "initthrowint", "badname", "typeint"};
        l.set("fault", f[r.below(12)]).set("flate", r.chance(0.5) ? 1 : 0);
      }
    }
    int nc = r.range(2, 5);
    std::vector<std::string> names;
    for (int i = 0; i < nc; ++i)
    {
      Line& l = pl.add("ctl");
      std::string n = "c" + std::to_string(i);
      names.push_back(n);
      static const char* types[] = {"E", "P", "V", "S", "M1", "M2", "M1", "M2", "N", "O"};
      std::string t = types[r.below(10)], rs;
      std::vector<std::string> ks;
      if (t == "M1") ks = {"E", "P"};
      else if (t == "M2") ks = {"V", "S", "E"};
      else if (t == "O") ks = {"E", "P", "V"};
      else if (t != "N") ks = {t};
      for (auto& k : ks)
      {
        auto& av = avail[k];
        if (av.empty()) continue;
        int n2 = r.range(t.size() > 1 || t == "O" ? 0 : 1, 3);
        std::set<std::string> js;
        for (int q = 0; q < n2; ++q) js.insert(r.pick(av));
        for (auto& j : js) rs += (rs.empty() ? "" : ",") + k + ":" + j;
      }
      l.set("name", n).set("type", "sim/" + t).set("res", rs);
    }
    int id = 0;
    auto common = [&](Line& o, int client) { o.set("id", id++).set("client", client); if (r.chance(0.5)) o.set("delay", (long long)r.below(5000000)); };
    for (auto& n : names) if (r.chance(0.85)) { Line& o = pl.add("op"); common(o, 0); o.set("kind", "load").set("name", n); }
    std::set<std::string> running;
    for (int q = 0; q < nclients; ++q)
    {
      int nops = r.range(3, 8);
      for (int k = 0; k < nops; ++k)
      {
        Line& o = pl.add("op");
        common(o, q);
        double x = r.unit();
        if (x < 0.1) o.set("kind", "load").set("name", r.pick(names));
        else if (x < 0.2) o.set("kind", "unload").set("name", r.pick(names));
        else if (x < 0.3) o.set("kind", "list");
        else
        {
          std::vector<std::string> a, b;
          for (auto& n : names)
            if (running.count(n) ? r.chance(0.5) : false) b.push_back(n);
            else if (!running.count(n) && r.chance(0.45)) a.push_back(n);
          if (r.chance(0.1)) a.push_back(r.pick(names));
          for (auto& n : a) running.insert(n);
          for (auto& n : b) running.erase(n);
          o.set("kind", "switch").set("start", a).set("stop", b).set("strict", r.chance(0.3) ? 2 : 1);
          if (r.chance(0.45)) o.set("asap", 1);
          if (r.chance(0.35)) o.set("timeout", r.chance(0.5) ? 0.02 : 0.5);
          if (r.chance(prop == "C20" ? 0.85 : 0.25))
          {
            std::string s, cf;
            for (int i = 0; i < np; ++i)
              if (r.chance(0.6)) s += (s.empty() ? "" : ",") + ("p" + std::to_string(i)) + ":" + std::to_string(r.below(6)) + ":" + (r.chance(0.2) ? "E" : "D");
            for (auto& n : names) if (r.chance(0.3)) cf += (cf.empty() ? "" : ",") + n + ":" + std::to_string(r.below(4));
            if (!s.empty()) o.set("res", s);
            if (!cf.empty()) o.set("coff", cf);
          }
          if (r.chance(prop == "C18" ? 0.25 : 0.08)) o.set("prep", "p" + std::to_string(r.below(np)) + ":" + (r.chance(0.5) ? "refuse" : r.chance(0.7) ? "throw" : "throwint"));
          if (r.chance(prop == "C18" ? 0.1 : 0.03)) o.set("alloc", r.range(1, 120));
        }
      }
    }
    if (r.chance(0.15)) pl.add("fault").set("kind", "rtstall").set("at", (long long)r.below(30000000)).set("dur", (long long)r.below(600000000));
    return pl;
  }
  bool droppable(const Line& l) override { return l.kind == "op" || l.kind == "fault" || l.kind == "ctl"; }
  std::vector<Line> simpler(const Line& l) override
  {
    std::vector<Line> v;
    auto without = [&](const char* k) { if (l.has(k)) { Line n = l; n.kv.erase(std::remove_if(n.kv.begin(), n.kv.end(), [&](const std::pair<std::string, std::string>& p) { return p.first == k; }), n.kv.end()); v.push_back(n); } };
    if (l.kind == "op") for (const char* k : {"delay", "alloc", "asap", "timeout", "prep", "res", "coff"}) without(k);
    if (l.kind == "op" || l.kind == "ctl" || l.kind == "part")
      for (const char* k : {"start", "stop", "res", "coff"})
      {
        auto a = l.list(k);
        for (size_t i = 0; i < a.size() && a.size() > 1; ++i) { auto b = a; b.erase(b.begin() + i); Line n = l; n.set(k, b); v.push_back(n); }
      }
    if (l.kind == "part" && l.get("late") != "0") { Line n = l; n.set("late", 0); v.push_back(n); }
    if (l.kind == "part" && l.get("nested") == "1") { Line n = l; n.set("nested", 0); v.push_back(n); }
    return v;
  }
  void cleanup() override
  {
    for (auto* o : world.ops) delete o;
    world = CW();
    simros::reset_world();
  }

  void run(const Plan& plan) override
  {
    W = &world;
    CW& w = world;
    simros::reset_world();
    auto& R = simros::world();
    R.ros_time = ros_ns;
    sim::own_faults();
    const Line empty("cfg");
    const Line& cfg = plan.first("cfg") ? *plan.first("cfg") : empty;
    w.rt_period = cfg.num("period", 1000000);
    w.root_ns = cfg.get("root", "/");
    w.few = cfg.num("few");
    bool any_fault = false;
    auto rmap = [](const Line& l, const char* k)
    {
      std::map<std::string, std::vector<std::string>> m;
      for (auto& x : l.list(k)) { auto c = x.find(':'); if (c != std::string::npos) m[x.substr(0, c)].push_back(x.substr(c + 1)); }
      return m;
    };
    for (auto* l : plan.all("part"))
    {
      PartRun p;
      p.plan.name = l->get("name");
      p.plan.fault = l->get("fault");
      p.plan.nested = l->num("nested");
      p.plan.late = l->num("late");
      p.plan.flate = l->num("flate");
      p.plan.cls = (int)l->num("cls");
      p.plan.res = rmap(*l, "res");
      std::string pn = p.plan.name;
      if (p.plan.fault == "badname") pn = p.plan.name + "!";
      w.order.push_back(pn);
      w.parts[pn] = p;
      if (!p.plan.fault.empty()) any_fault = true;
      std::string type = "sim/part" + std::to_string(p.plan.cls);
      if (p.plan.fault == "badtype") type = "sim/unknown";
      if (p.plan.fault == "ctorthrow") type = "sim/badpart";
      if (p.plan.fault == "typeint") R.params["/hw/" + pn + "/type"] = XmlRpc::XmlRpcValue(3);
      else if (p.plan.fault != "notype") R.params["/hw/" + pn + "/type"] = type;
    }
    if (cfg.get("list") == "missing") any_fault = true;
    else if (cfg.get("list") == "nolist") { any_fault = true; R.params["/hw/robot_hardware"] = XmlRpc::XmlRpcValue("p0"); }
    else R.params["/hw/robot_hardware"] = XmlRpc::XmlRpcValue(w.order);
    for (auto* l : plan.all("ctl"))
    {
      Ctl c;
      c.name = l->get("name");
      c.type = l->get("type");
      for (auto& x : rmap(*l, "res")) c.want[x.first].insert(x.second.begin(), x.second.end());
      w.ctl[c.name] = c;
      R.params["/" + c.name + "/type"] = c.type;
    }
    int nclients = (int)cfg.num("clients", 1);
    for (auto* l : plan.all("op"))
    {
      COp* o = new COp;
      o->id = (int)w.ops.size();
      o->client = (int)l->num("client");
      o->kind = l->get("kind");
      o->name = l->get("name");
      o->start = l->list("start");
      o->stop = l->list("stop");
      o->strict = (int)l->num("strict", 1);
      o->asap = l->num("asap");
      o->timeout = l->real("timeout");
      o->delay = l->num("delay");
      o->alloc = (int)l->num("alloc");
      for (auto& x : l->list("res")) { auto p = fw::split(x, ':'); if (p.size() == 3) o->res[p[0]] = {strtoull(p[1].c_str(), nullptr, 10), p[2][0]}; }
      for (auto& x : l->list("coff")) { auto p = fw::split(x, ':'); if (p.size() == 2) o->coff[p[0]] = strtoull(p[1].c_str(), nullptr, 10); }
      for (auto& x : l->list("prep")) { auto p = fw::split(x, ':'); if (p.size() == 2) o->prep[p[0]] = p[1]; }
      w.ops.push_back(o);
    }
    regp<PartK<0>>("sim/part0");
    regp<PartK<1>>("sim/part1");
    regp<PartK<2>>("sim/part2");
    regp<BadPart>("sim/badpart");
    regc<Single<hi::EffortJointInterface>>("sim/E");
    regc<Single<hi::PositionJointInterface>>("sim/P");
    regc<Single<hi::VelocityJointInterface>>("sim/V");
    regc<Single<hi::JointStateInterface>>("sim/S");
    regc<Multi<hi::EffortJointInterface, hi::PositionJointInterface>>("sim/M1");
    regc<Multi<hi::VelocityJointInterface, hi::JointStateInterface, hi::EffortJointInterface>>("sim/M2");
    regc<NoClaim>("sim/N");
    regc<OwnClaim>("sim/O");
    auto next_part = [this]() -> std::string { for (auto& n : world.order) if (!world.parts[n].ready) return n; return ""; };
    R.on_declared = [this, next_part](simros::LoaderHandle* h, std::vector<std::string> v)
    {
      if (h->base == "hardware_interface::RobotHW" && world.parts[next_part()].plan.fault == "nocls") v.clear();
      else if (h->base == "hardware_interface::RobotHW" && world.few) { NoSim ns; std::string t = "sim/part" + std::to_string(world.parts[next_part()].plan.cls); std::vector<std::string> k; for (auto& x : v) if (x == t) k.push_back(x); v = k; }
      return v;
    };
    R.on_create = [this, next_part](simros::LoaderHandle* h, const std::string&, std::function<void*()> f) -> void*
    {
      std::string k;
      if (h->base == "hardware_interface::RobotHW") { NoSim ns; k = world.parts[next_part()].plan.fault; }
      if (k == "createthrow") throw pluginlib::CreateClassException("injected");
      if (k == "createlogic") throw std::logic_error("injected");
      if (k == "createnull") return nullptr;
      return f();
    };
    Tap* hw = nullptr;
    hi::PositionJointInterface own;
    hi::InterfaceManager extra;
    {
      sim::ArenaScope as;
      hw = new Tap;
      own.registerHandle(hi::JointHandle(hi::JointStateHandle("own_joint", own_d, own_d + 1, own_d + 2), own_d + 3));
      if (cfg.num("ownif") == 1) hw->registerInterface(&own);
    }
    controller_manager::ControllerManager* cm = nullptr;
    bool up = false;
    int left = 1;
    // bring-up
    w.rt_fiber = sim::spawn("rt", [&]()
    {
      bool ok = false, exc = false;
      {
        ros::NodeHandle root(w.root_ns.substr(1)), nh("hw");
        w.in_init = true;
        try { ok = hw->init(root, nh); }
        catch (...) { exc = true; }
        w.in_init = false;
      }
      {
        NoSim ns;
        sim::ev("init -> %s", exc ? "exception" : ok ? "true" : "false");
        sim::count("chk_C19");
        if (any_fault) { sim::count("fault_bringup"); for (auto& p : w.parts) if (!p.second.plan.fault.empty()) sim::count("fault_" + p.second.plan.fault); }
        if (ok && any_fault) sim::fail("C19", false, "init reports success though a part could not be brought up");
        if (!ok && !any_fault) sim::fail("C19", false, "init fails (%s) though nothing is wrong", exc ? "exception" : "false");
        if (ok)
          for (auto& n : w.order) if (w.parts[n].inits != 1) sim::fail("C19", false, "init succeeds but part %s was initialised %d times", S(n), w.parts[n].inits);
        if (!ok)
        {
          bool seen = false;
          for (auto& n : w.order)
          {
            if (seen && w.parts[n].inits) sim::fail("C19", false, "part %s is initialised though an earlier part failed", S(n));
            if (!w.parts[n].plan.fault.empty()) seen = true;
          }
        }
      }
      if (ok && !sim::halted())
      {
        check_all(*hw, cfg.num("ownif") == 1);
        if (cfg.num("ownif") == 2) hw->registerInterface(&own);
        if (cfg.num("ownif") == 3) { extra.registerInterface(&own); hw->registerInterfaceManager(&extra); }
        if (cfg.num("ownif") > 1) { check_all(*hw, true); NoSim ns; sim::count("own_interface_added_later"); }
        cm = new controller_manager::ControllerManager(hw, ros::NodeHandle(""));
        w.clients_left = nclients;
        up = true;
        ros::Time last;
        last.fromNSec((uint64_t)ros_ns());
        while (w.cycle < w.rt_end)
        {
          if (w.stall_until > sim::now()) { sim::sleep_ns(w.stall_until - sim::now()); continue; }
          {
            NoSim ns;
            ++w.cycle;
            w.calls.clear();
            w.t = ros::Time().fromNSec((uint64_t)ros_ns());
            w.p = w.t - last;
            last = w.t;
          }
          hw->read(w.t, w.p);
          {
            NoSim ns;
            std::vector<std::string> want;
            for (auto& n : w.order) want.push_back("read " + n);
            if (w.calls != want) sim::fail("C19", false, "a read reaches [%s] instead of [%s]", S(join(w.calls)), S(join(want)));
            w.calls.clear();
          }
          cm->update(w.t, w.p);
          {
            NoSim ns;
            if (!w.calls.empty()) sim::fail("C19", false, "a part is read or written outside the robot's read and write");
          }
          hw->write(w.t, w.p);
          {
            NoSim ns;
            std::vector<std::string> want;
            for (auto& n : w.order) want.push_back("write " + n);
            if (w.calls != want) sim::fail("C19", false, "a write reaches [%s] instead of [%s]", S(join(w.calls)), S(join(want)));
            sim::count("cycles");
          }
          sim::sleep_ns(w.rt_period);
        }
        while (left > 0) sim::sleep_ns(100000);
        sim::sync_all();
        check_all(*hw, cfg.num("ownif"));
        w.teardown = true;
        delete cm;
      }
      else left = 0;
      w.teardown = true;
      delete hw;
    });
    for (int c = 0; c < nclients; ++c)
      sim::spawn("client" + std::to_string(c), [&, c]()
      {
        while (!up) { if (!left) return; sim::sleep_ns(200000); }
        sim::sync_all();
        for (size_t i = 0; i < w.ops.size(); ++i) if (w.ops[i]->client == c) run_op(cm, w.ops[i]);
        NoSim ns;
        if (--w.clients_left == 0) { w.rt_end = w.cycle + 3; left = 0; }
      });
    for (auto* l : plan.all("fault"))
    {
      uint64_t at = l->num("at"), dur = l->num("dur");
      sim::spawn("fault", [&w, at, dur]() { sim::sleep_ns(at); NoSim ns; w.stall_until = sim::now() + dur; sim::count("fault_rtstall"); }, true);
    }
    sim::run_fibers();
  }
  // every interface and joint of every part is reachable through the robot and is that part's own
  void check_all(Tap& hw, bool own)
  {
    CW& w = world;
    std::map<std::string, std::vector<std::string>> all;
    {
      NoSim ns;
      for (auto& n : w.order) for (auto& x : w.parts[n].plan.res) for (auto& j : x.second) all[x.first].push_back(j);
    }
    auto one = [&](const std::string& k, auto* i)
    {
      typedef typename std::remove_pointer<decltype(i)>::type I;
      I* p = hw.get<I>();
      std::vector<std::string> names;
      NoSim ns;
      sim::count("chk_C19");
      bool mine = own && k == "P";
      if (all[k].empty() && !mine) { if (p) sim::fail("C19", false, "%s is available though no part has it", S(long_name(k))); return; }
      if (!p) { sim::fail("C19", false, "%s of a part is not reachable through the combined robot", S(long_name(k))); return; }
      names = p->getNames();
      std::vector<std::string> want = all[k];
      if (mine) want.push_back("own_joint");
      std::sort(names.begin(), names.end());
      std::sort(want.begin(), want.end());
      if (names != want) sim::fail("C19", false, "%s of the combined robot has joints [%s] instead of [%s]", S(long_name(k)), S(join(names)), S(join(want)));
      auto gn = hw.getNames();
      if (std::count(gn.begin(), gn.end(), long_name(k)) != 1) sim::fail("C19", false, "the combined robot lists %s %d times", S(long_name(k)), (int)std::count(gn.begin(), gn.end(), long_name(k)));
      for (auto& j : all[k]) take(p, j);
      if (mine) { auto h = p->getHandle("own_joint"); if (h.getPositionPtr() != own_d) sim::fail("C19", false, "the robot's own joint obtained from the combined robot does not address its data"); }
      p->clearClaims();
    };
    one("S", (hi::JointStateInterface*)nullptr);
    one("E", (hi::EffortJointInterface*)nullptr);
    one("P", (hi::PositionJointInterface*)nullptr);
    one("V", (hi::VelocityJointInterface*)nullptr);
  }
  void run_op(controller_manager::ControllerManager* cm, COp* o)
  {
    CW& w = world;
    if (o->delay) sim::sleep_ns(o->delay);
    std::vector<std::string> start(o->start), stop(o->stop);
    std::string name(o->name);
    {
      NoSim ns;
      w.cur_op[sim::cur()] = o;
      sim::ev("call %d %s %s", o->id, S(o->kind), S(o->name));
      sim::count("op_" + o->kind);
    }
    bool ok = false, exc = false;
    if (o->alloc) sim::arm_alloc_fail(o->alloc);
    try
    {
      if (o->kind == "load") ok = cm->loadController(name);
      else if (o->kind == "unload") ok = cm->unloadController(name);
      else if (o->kind == "switch") ok = cm->switchController(start, stop, o->strict, o->asap, o->timeout);
      else if (o->kind == "list") cm->getControllerByName(name), ok = true;
    }
    catch (...) { exc = true; }
    sim::arm_alloc_fail(0);
    NoSim ns;
    if (sim::alloc_fail_fired()) sim::count("fault_alloc");
    o->reply = exc ? 'X' : ok ? 'T' : 'F';
    w.cur_op.erase(sim::cur());
    sim::ev("reply %d %s %s -> %c", o->id, S(o->kind), S(o->name), o->reply);
    if (o->kind == "switch")
    {
      bool refused = false;
      for (auto& x : o->prep) if (w.parts.count(x.first)) refused = true;
      if (refused && ok) sim::fail("C18", false, "a switch returns true though a part refuses it");
    }
  }
};
}  // namespace

int main(int argc, char** argv)
{
  static CombinedWorld w;
  return fw::main_(argc, argv, w);
}

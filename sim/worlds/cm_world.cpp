// The controller manager under simulation: realtime loop, service clients, hardware, plugins, clocks and shutdown.
// Decides C01-C17.
#include "../core/framework.h"
#include "../stubs/simworld.h"

#include <controller_interface/controller.h>
#include <controller_interface/multi_interface_controller.h>
#include <controller_manager/controller_loader.h>
#include <controller_manager/controller_manager.h>
#include <controller_manager_msgs/ListControllerTypes.h>
#include <controller_manager_msgs/ListControllers.h>
#include <controller_manager_msgs/LoadController.h>
#include <controller_manager_msgs/ReloadControllerLibraries.h>
#include <controller_manager_msgs/SwitchController.h>
#include <controller_manager_msgs/UnloadController.h>
#include <hardware_interface/imu_sensor_interface.h>
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/joint_state_interface.h>
#include <hardware_interface/posvel_command_interface.h>
#include <hardware_interface/robot_hw.h>

#include <algorithm>
#include <set>

#include "cm_model.h"

using fw::Line;
using fw::Plan;
using sim::NoSim;

namespace hi = hardware_interface;

namespace
{
// ------------------------------------------------------------------------------------------------ state of one run
enum Phase { CONSTRUCTED, READY };

struct CtlPlan
{
  std::string name, type;
  Claims want;               // handles to request, per short interface
  std::vector<std::string> state_joints;
  int variant = 2;           // which init does the work: 2 or 3 arguments, 5: both
  bool only = false;         // the other init is not overridden
  bool opt = false;          // can do without resources that do not exist
};

struct Inst
{
  int id = 0;
  std::string name;          // set in init
  Phase ph = CONSTRUCTED;
  bool running = false, ever_started = false, destroyed = false, in_cb = false;
  Claims claims;
  int creator_op = -1;
  const void* base = nullptr;
  // this cycle
  int updates = 0, starts = 0, stops = 0, waits = 0, aborts = 0, restop = 0, restart = 0;
  bool run_at_begin = false;
};

struct Pending  // the switch that passed prepareSwitch and whose call has not returned
{
  int op = -1;
  bool open = false, done_switch = false, threw = false, complete = false, given_up = false, clock_jumped = false;
  std::map<std::string, Claims> start, stop;
  std::map<std::string, char> out;    // per start controller: 's' 'a' 'w'
  std::set<std::string> stopped;
  uint64_t t_prep = 0, t_do = 0;
  int64_t ros_prep = 0, ros_last_before_do = 0, ros_waits = 0;
  uint64_t cyc_do = 0;
  std::map<std::string, Inst*> inst;
  std::set<std::string> was_aborted;
  uint64_t closed_cycle = ~0ull;
};

struct World1
{
  const Plan* plan = nullptr;
  std::map<std::string, CtlPlan> ctl;
  std::vector<Inst*> insts;
  std::vector<Op*> ops;
  std::map<int, Op*> cur_op;   // by fiber
  std::string policy;
  std::string ns;  // name space of the manager
  bool rt_on = true, clients_done = false, phase0 = false, shutdown = false, teardown = false, drain = false;
  uint64_t t_shutdown = 0, t_quiet = 0;
  int rt_fiber = -1;
  bool in_update = false;
  int user_depth = 0;
  ros::Time cyc_time;
  ros::Duration cyc_period;
  bool cyc_reset = false, cyc_threw = false;
  uint64_t cycle = 0;
  int64_t ros_off = 0, ros_frozen_at = 0;
  bool ros_frozen = false;
  bool ros_wall = false;
  Pending P;
  std::vector<Pending> closed;
  bool pend_at_begin = false;
  uint64_t seq = 0;
  bool exact = true;          // the sequential model applies (no shutdown so far)
  int clients_left = 0;
  uint64_t stall_total = 0;
  int loader_closes_op = 0;
  std::vector<int> reg_loader_reloads;
  int n_client = 1;
  uint64_t drain_cycle = ~0ull;
  uint64_t stall_until = 0, last_disturb = 0;
  bool rt_stopped = false;
  uint64_t rt_period = 1000000, rt_jitter = 0, rt_start = 0, reset_every = 0, t_drain = 0, rt_end_cycle = ~0ull;
  sim::Rng rng{1};
  std::vector<std::string> loaders;
};
World1* W = nullptr;

int64_t ros_ns()
{
  if (W->ros_wall) return sim::wall();
  if (W->ros_frozen) return W->ros_frozen_at;
  return 1000000000000ll + (int64_t)sim::now() + W->ros_off;
}

Op* my_op();
// a call that goes to sleep after the switch was prepared has made its request and waits for the realtime loop
void call_sleeps()
{
  Op* o = my_op();
  if (!o || !W->P.open || W->P.op != o->id || W->P.done_switch || W->P.ros_waits) return;
  W->P.ros_waits = ros_ns();
}
Op* my_op()
{
  auto it = W->cur_op.find(sim::cur());
  return it == W->cur_op.end() ? nullptr : it->second;
}
const char* S(const std::string& s) { return s.c_str(); }

// user code inside the realtime update is allowed to do anything
struct UserCode
{
  bool rt;
  UserCode() : rt(W->in_update && sim::cur() == W->rt_fiber) { if (rt && W->user_depth++ == 0) sim::set_rt_section(false); }
  ~UserCode() { if (rt && --W->user_depth == 0) sim::set_rt_section(true); }
};

bool conflict(const std::vector<std::pair<std::string, Claims>>& v)
{
  return claims_conflict(v, W->policy);
}

// ------------------------------------------------------------------------------------------------ controller callbacks
Inst* new_inst()
{
  NoSim ns;
  Inst* i = new Inst;
  i->id = (int)W->insts.size();
  W->insts.push_back(i);
  if (Op* o = my_op()) { i->creator_op = o->id; o->constructed.push_back(i->id); }
  sim::ev("construct #%d", i->id);
  return i;
}
void destroy_inst(Inst* i)
{
  UserCode uc;
  sim::point(sim::P_SYNC);
  NoSim ns;
  sim::ev("destroy #%d %s", i->id, S(i->name));
  if (i->destroyed) { sim::fail("C12,C02", true, "controller %s (instance %d) is destroyed twice", S(i->name), i->id); return; }
  i->destroyed = true;
  if (W->teardown) return;
  sim::count("chk_C12");
  if (sim::cur() == W->rt_fiber) sim::fail("C10,C12", false, "controller %s is destroyed in the realtime thread", S(i->name));
  if (i->running) sim::fail("C02,C12", false, "controller %s is destroyed while it is running", S(i->name));
  if (i->in_cb) sim::fail("C09,C02,C12", true, "controller %s is destroyed while the realtime loop executes one of its callbacks", S(i->name));
  if (Op* o = my_op()) o->destroyed.push_back(i->id);
  else sim::fail("C12", false, "controller %s is destroyed outside any call", S(i->name));
}

enum Cb { START, STOP, UPDATE, WAIT, ABORT };
const char* CBN[] = {"starting", "stopping", "update", "waiting", "aborting"};

// The checks made before a callback's body.
void cb_enter(Inst* i, Cb k, const ros::Time& t, const ros::Duration* p)
{
  NoSim ns;
  World1& w = *W;
  if (k != UPDATE) sim::ev("%s %s #%d", CBN[k], S(i->name), i->id);
  if (i->destroyed) sim::fail("C02,C09,C12", true, "%s called on controller %s after its destruction", CBN[k], S(i->name));
  sim::count("chk_C02");
  if (sim::cur() != w.rt_fiber || !w.in_update)
    sim::fail("C02", false, "%s of controller %s is called outside the realtime update", CBN[k], S(i->name));
  else if (t != w.cyc_time || (p && *p != w.cyc_period))
    sim::fail(k == UPDATE ? "C01" : "C02", false, "%s of controller %s gets time %.9f (period %.9f) instead of the cycle's %.9f (period %.9f)", CBN[k], S(i->name), t.toSec(),
              p ? p->toSec() : 0.0, w.cyc_time.toSec(), w.cyc_period.toSec());
  if (i->ph != READY) sim::fail("C02", false, "%s called on controller %s that was never successfully initialised", CBN[k], S(i->name));
  i->in_cb = true;
  Pending& P = w.P;
  // after a hardware failure inside doSwitch the manager may go on with or without calling it again
  bool by_reset = w.cyc_reset && i->updates == 0 && ((k == STOP && i->run_at_begin && i->restop == 0) || (k == START && i->restop > i->restart));
  if (P.open && P.threw && !P.done_switch && k != UPDATE && !by_reset && P.inst.count(i->name) && P.inst[i->name] == i) { P.done_switch = true; P.t_do = sim::now(); P.ros_last_before_do = ros_ns(); P.cyc_do = w.cycle; }
  auto pend = [&](bool start) -> bool
  {
    auto& m = start ? P.start : P.stop;
    return P.open && P.done_switch && m.count(i->name) && P.inst[i->name] == i;
  };
  if (P.open && P.complete && k != UPDATE && !(k == STOP && w.cyc_reset && i->updates == 0) && !(k == START && w.cyc_reset && i->restop > i->restart && i->updates == 0) &&
      P.inst.count(i->name) && P.inst[i->name] == i)
    sim::fail("C07", false, "controller %s gets %s though its switch is complete", S(i->name), CBN[k]);
  auto unjust = [&](const char* what)
  {
    bool late = false;
    for (auto& c : w.closed) if (c.start.count(i->name) || c.stop.count(i->name)) late = true;
    if (P.open && !P.done_switch && (P.start.count(i->name) || P.stop.count(i->name)))
      sim::fail("C06", false, "controller %s gets %s before doSwitch was called", S(i->name), what);
    else if (late)
      sim::fail("C08,C04", false, "controller %s gets %s though the switch request naming it is over and no current request names it", S(i->name), what);
    else
      sim::fail("C04", false, "controller %s gets %s though no accepted switch request names it for that", S(i->name), what);
  };
  switch (k)
  {
    case START:
      if (i->running) sim::fail("C02", false, "starting called on controller %s while it is running", S(i->name));
      if (w.cyc_reset && i->restop > i->restart && i->updates == 0) { i->restart++; break; }
      i->starts++;
      if (!pend(true)) unjust("starting");
      else
      {
        // stops of the same switch come first
        for (auto& s : P.stop)
          if (P.inst.count(s.first) && P.inst[s.first] && P.inst[s.first]->running)
            sim::fail("C04", false, "controller %s is started before controller %s of the same switch is stopped", S(i->name), S(s.first));
        P.out[i->name] = 's';
      }
      break;
    case STOP:
      if (!i->running) sim::fail("C02", false, "stopping called on controller %s while it is not running", S(i->name));
      if (w.cyc_reset && i->run_at_begin && i->updates == 0 && i->restop == 0) { i->restop++; break; }
      i->stops++;
      if (!pend(false))
      {
        if (w.cyc_reset && !(P.open && P.stop.count(i->name))) sim::fail("C17,C04", false, "controller %s is stopped a second time in a reset cycle", S(i->name));
        else unjust("stopping");
      }
      else { P.stopped.insert(i->name); w.ops[P.op]->stopped.insert(i->name); }
      break;
    case UPDATE:
      sim::count("chk_C01");
      i->updates++;
      if (!i->run_at_begin) sim::fail("C01", false, "update called on controller %s that was not running when the cycle began", S(i->name));
      if (!i->running) sim::fail("C02,C01", false, "update called on controller %s while it is not running", S(i->name));
      if (i->updates > 1) sim::fail("C01", false, "update called twice on controller %s in one cycle", S(i->name));
      if (w.cyc_reset && (i->restop != 1 || i->restart != 1))
        sim::fail("C17", false, "controller %s is updated in a reset cycle without having been restarted exactly once before (%d stops, %d starts)", S(i->name), i->restop, i->restart);
      break;
    case WAIT:
    case ABORT:
      if (i->running) sim::fail("C02", false, "%s called on controller %s while it is running", CBN[k], S(i->name));
      (k == WAIT ? i->waits : i->aborts)++;
      if (!pend(true)) unjust(CBN[k]);
      else P.out[i->name] = k == WAIT ? 'w' : 'a';
      break;
  }
}
void cb_leave(Inst* i, Cb k)
{
  NoSim ns;
  World1& w = *W;
  i->in_cb = false;
  if (k == STOP) i->running = false;
  {
    Pending& P = w.P;
    if (P.open && P.done_switch && P.inst.count(i->name) && P.inst[i->name] == i && P.out.count(i->name)) w.ops[P.op]->outcome[i->name] = P.out[i->name];
  }
  if (k == START)
  {
    i->running = i->ever_started = true;
    sim::count("chk_C03");
    std::vector<std::pair<std::string, Claims>> v;
    for (auto* j : w.insts) if (j->running && !j->destroyed) v.emplace_back(j->name, j->claims);
    // in a reset cycle restarted controllers are the old set
    if (conflict(v))
    {
      std::string who;
      for (auto& x : v) who += x.first + " ";
      sim::fail("C03", false, "controllers with conflicting resources run together: %s", S(who));
    }
  }
}

struct Body
{
  Inst* i; Cb k; UserCode uc;
  Body(Inst* i, Cb k, const ros::Time& t, const ros::Duration* p = nullptr) : i(i), k(k) { cb_enter(i, k, t, p); sim::point(sim::P_SYNC); }
  ~Body() { cb_leave(i, k); }
};

struct InitFault { std::string kind; uint64_t slow = 0; };

// What the initialisation of a test controller does, for any way of getting at the interfaces.
struct Rec
{
  Inst* i;
  Rec() : i(new_inst()) {}
  ~Rec() { destroy_inst(i); }
  const CtlPlan* plan(const ros::NodeHandle& nh)
  {
    NoSim ns;
    std::string n = nh.getNamespace(), root = W->ns + "/";
    if (n.compare(0, root.size(), root)) { sim::fail("C11", false, "a controller is initialised in the name space %s, not in one of its manager %s", S(n), S(root)); root = "/"; }
    i->name = n.substr(root.size());
    auto it = W->ctl.find(i->name);
    return it == W->ctl.end() ? nullptr : &it->second;
  }
  void root(const ros::NodeHandle& nh)
  {
    NoSim ns;
    if (nh.getNamespace() != (W->ns.empty() ? "/" : W->ns)) sim::fail("C11", false, "a controller gets the root name space %s, not that of its manager %s", S(nh.getNamespace()), S(W->ns));
  }
  // returns false / throws according to the plan
  template <class F> bool init(const ros::NodeHandle& nh, int variant, F claim)
  {
    const CtlPlan* c = plan(nh);
    if (!c || (c->variant != variant && c->variant != 5)) return true;
    Op* o = my_op();
    std::string fault;
    uint64_t slow = 0;
    std::vector<std::pair<std::string, std::string>> want;
    {
      NoSim ns;
      sim::ev("init %s #%d", S(i->name), i->id);
      if (o) { fault = o->fault; slow = o->slow; }
      int q = 0;
      for (auto& r : c->want) for (auto& j : r.second) if (c->variant != 5 || variant == 5 || q++ % 2 == variant - 2) want.emplace_back(r.first, j);
    }
    size_t k = 0, half = want.size() / 2;
    for (auto& r : want)
    {
      if (k++ == half && !fault.empty()) fault_now(fault);
      if (c->opt)
      {
        // a resource this controller can do without
        try { claim(r.first, r.second); }
        catch (const hi::HardwareInterfaceException&) { sim::count("optional_resource_missing"); continue; }
      }
      else claim(r.first, r.second);
      NoSim ns;
      if (r.first != "S") i->claims[r.first].insert(r.second);
    }
    if (want.empty()) fault_now(fault);
    if (slow) sim::sleep_ns(slow);
    if (fault == "initfalse" || fault == "initlate") { NoSim ns; sim::count("fault_init"); return false; }
    return true;
  }
  void fault_now(const std::string& f)
  {
    if (f == "initthrow") { { NoSim ns; sim::count("fault_init_throw"); } throw std::runtime_error("injected"); }
    if (f == "initthrowint") { { NoSim ns; sim::count("fault_init_throw"); } throw 42; }
  }
  void ready() { NoSim ns; i->ph = READY; if (Op* o = my_op()) o->inited.push_back(i->id); sim::ev("ready %s #%d", S(i->name), i->id); }
};

template <class Base> struct Cbs : Base
{
  Rec rec;
  Cbs() { NoSim ns; rec.i->base = static_cast<controller_interface::ControllerBase*>(this); }
  void starting(const ros::Time& t) override { Body b(rec.i, START, t); }
  void stopping(const ros::Time& t) override { Body b(rec.i, STOP, t); }
  void waiting(const ros::Time& t) override { Body b(rec.i, WAIT, t); }
  void aborting(const ros::Time& t) override { Body b(rec.i, ABORT, t); }
  void update(const ros::Time& t, const ros::Duration& p) override { Body b(rec.i, UPDATE, t, &p); }
};
// After a successful initRequest the instance is ready (this override only observes the result).
template <class Base> struct Obs : Cbs<Base>
{
  bool initRequest(hi::RobotHW* hw, ros::NodeHandle& r, ros::NodeHandle& c, controller_interface::ControllerBase::ClaimedResources& cl) override
  {
    bool ok = Base::initRequest(hw, r, c, cl);
    if (ok) this->rec.ready();
    return ok;
  }
};

template <class T> struct Single : Obs<controller_interface::Controller<T>>
{
  bool init(T* hw, ros::NodeHandle& nh) override { return this->rec.init(nh, 2, [&](const std::string&, const std::string& j) { hw->getHandle(j); }); }
  bool init(T* hw, ros::NodeHandle& root, ros::NodeHandle& nh) override { this->rec.root(root); return this->rec.init(nh, 3, [&](const std::string&, const std::string& j) { hw->getHandle(j); }); }
};
template <class T> struct Single2 : Obs<controller_interface::Controller<T>>
{
  bool init(T* hw, ros::NodeHandle& nh) override { return this->rec.init(nh, 2, [&](const std::string&, const std::string& j) { hw->getHandle(j); }); }
};
template <class T> struct Single3 : Obs<controller_interface::Controller<T>>
{
  bool init(T* hw, ros::NodeHandle& root, ros::NodeHandle& nh) override { this->rec.root(root); return this->rec.init(nh, 3, [&](const std::string&, const std::string& j) { hw->getHandle(j); }); }
};
template <class B, bool OPT> struct MaybeOpt : B { MaybeOpt() : B(OPT) {} };
// a controller that needs its interfaces does not say so
template <class B> struct MaybeOpt<B, false> : B {};
template <bool OPT, class A, class... T> struct MultiB : Obs<MaybeOpt<controller_interface::MultiInterfaceController<A, T...>, OPT>>
{
  template <class I> static bool among() { bool r = std::is_same<I, A>::value; bool x[] = {false, std::is_same<I, T>::value...}; for (bool y : x) r = r || y; return r; }
  template <class I> static void exact(hi::RobotHW* hw, const char* what, bool robot_has)
  {
    bool got = hw->get<I>() != nullptr;
    NoSim ns;
    if (got && !among<I>()) sim::fail("C16", false, "a controller is given the %s interface that it does not ask for", what);
    if (!got && among<I>() && robot_has) sim::fail("C16,C11", false, "a controller is not given the %s interface that it asks for", what);
    if (!got && among<I>() && !robot_has && !OPT) sim::fail("C11", false, "a controller is initialised though the %s interface it needs is missing", what);
  }
  static void exact(hi::RobotHW* hw)
  {
    exact<hi::EffortJointInterface>(hw, "effort", true);
    exact<hi::PositionJointInterface>(hw, "position", true);
    exact<hi::VelocityJointInterface>(hw, "velocity", true);
    exact<hi::JointStateInterface>(hw, "joint state", true);
    exact<hi::PosVelJointInterface>(hw, "position-velocity", true);
    exact<hi::ImuSensorInterface>(hw, "IMU", false);
  }
  template <class I> static void grab(hi::RobotHW* hw, const std::string& j) { I* p = hw->get<I>(); if (!p) throw std::runtime_error("no such interface"); p->getHandle(j); }
  static void claim(hi::RobotHW* hw, const std::string& i, const std::string& j)
  {
    if (i == "E") grab<hi::EffortJointInterface>(hw, j);
    else if (i == "P") grab<hi::PositionJointInterface>(hw, j);
    else if (i == "V") grab<hi::VelocityJointInterface>(hw, j);
    else if (i == "S") grab<hi::JointStateInterface>(hw, j);
    else if (i == "Q") grab<hi::PosVelJointInterface>(hw, j);
  }
  bool init2(hi::RobotHW* hw, ros::NodeHandle& nh) { exact(hw); return this->rec.init(nh, 2, [&](const std::string& i, const std::string& j) { claim(hw, i, j); }); }
  bool init3(hi::RobotHW* hw, ros::NodeHandle& root, ros::NodeHandle& nh) { this->rec.root(root); exact(hw); return this->rec.init(nh, 3, [&](const std::string& i, const std::string& j) { claim(hw, i, j); }); }
};
template <bool OPT, class A, class... T> struct MultiO : MultiB<OPT, A, T...>
{
  bool init(hi::RobotHW* hw, ros::NodeHandle& nh) override { return this->init2(hw, nh); }
  bool init(hi::RobotHW* hw, ros::NodeHandle& root, ros::NodeHandle& nh) override { return this->init3(hw, root, nh); }
};
template <bool OPT, class A, class... T> struct MultiO2 : MultiB<OPT, A, T...> { bool init(hi::RobotHW* hw, ros::NodeHandle& nh) override { return this->init2(hw, nh); } };
template <bool OPT, class A, class... T> struct MultiO3 : MultiB<OPT, A, T...> { bool init(hi::RobotHW* hw, ros::NodeHandle& root, ros::NodeHandle& nh) override { return this->init3(hw, root, nh); } };
// A controller with its own initRequest.
struct Own : Cbs<controller_interface::ControllerBase>
{
  bool initRequest(hi::RobotHW*, ros::NodeHandle& root, ros::NodeHandle& nh, ClaimedResources& cl) override
  {
    rec.root(root);
    std::map<std::string, std::set<std::string>> m;
    if (!rec.init(nh, rec.plan(nh) ? rec.plan(nh)->variant : 2, [&](const std::string& i, const std::string& j) { m[i].insert(j); })) return false;
    for (auto& x : m) if (x.first != "S") cl.push_back(hi::InterfaceResources(long_name(x.first), x.second));
    state_ = ControllerState::INITIALIZED;
    rec.ready();
    return true;
  }
};

// ------------------------------------------------------------------------------------------------ hardware
void fill_joints(hi::RobotHW& hw, double* d, const std::vector<std::string>& js, hi::JointStateInterface& s, hi::EffortJointInterface& e, hi::PositionJointInterface& p,
                 hi::VelocityJointInterface& v, hi::PosVelJointInterface& q)
{
  for (size_t i = 0; i < js.size(); ++i)
  {
    hi::JointStateHandle h(js[i], d + 3 * i, d + 3 * i + 1, d + 3 * i + 2);
    s.registerHandle(h);
    e.registerHandle(hi::JointHandle(h, d));
    p.registerHandle(hi::JointHandle(h, d));
    v.registerHandle(hi::JointHandle(h, d));
    q.registerHandle(hi::PosVelJointHandle(h, d, d));
  }
  hw.registerInterface(&s);
  hw.registerInterface(&e);
  hw.registerInterface(&p);
  hw.registerInterface(&v);
  hw.registerInterface(&q);
}
struct Part : hi::RobotHW
{
  hi::JointStateInterface s;
  hi::EffortJointInterface e;
  hi::PositionJointInterface p;
  hi::VelocityJointInterface v;
  hi::PosVelJointInterface q;
  double d[64] = {};
  Part(const std::vector<std::string>& js) { fill_joints(*this, d, js, s, e, p, v, q); }
};

Claims claims_of(const hi::ControllerInfo& c)
{
  Claims m;
  for (auto& r : c.claimed_resources)
    for (auto& x : r.resources) m[short_name(r.hardware_interface)].insert(x);
  return m;
}
std::string lst(const std::map<std::string, Claims>& m)
{
  std::string s;
  for (auto& x : m) s += x.first + show(x.second) + " ";
  return s;
}
std::map<std::string, Claims> to_map(const std::list<hi::ControllerInfo>& l, bool& dup)
{
  std::map<std::string, Claims> m;
  for (auto& c : l) { if (m.count(c.name)) dup = true; m[c.name] = claims_of(c); }
  return m;
}
Inst* loaded_inst(const std::string& name)  // the newest live, initialised instance of that name
{
  Inst* r = nullptr;
  for (auto* i : W->insts) if (i->name == name && i->ph == READY && !i->destroyed) r = i;
  return r;
}

bool may_be_withdrawn(const Pending& P)
{
  Op* o = W->ops[P.op];
  return W->shutdown || (o->timeout > 0 && sim::now() - P.t_prep >= (uint64_t)(o->timeout * 1e9));
}
void close_pending()
{
  W->P.open = false;
  W->P.closed_cycle = W->cycle;
  W->closed.push_back(W->P);
}

struct Hw : hi::RobotHW
{
  std::vector<std::unique_ptr<Part>> parts;

  bool checkForConflict(const std::list<hi::ControllerInfo>& info) const override
  {
    UserCode uc;
    bool r;
    if (W->policy == "default") r = hi::RobotHW::checkForConflict(info);
    else
    {
      sim::point(sim::P_SYNC);
      NoSim ns;
      std::vector<std::pair<std::string, Claims>> v;
      for (auto& c : info) v.emplace_back(c.name, claims_of(c));
      r = claims_conflict(v, W->policy);
    }
    NoSim ns;
    if (Op* o = my_op()) { o->conflict_called = true; o->conflict_result = r; }
    return r;
  }
  void check_claims(const std::list<hi::ControllerInfo>& l, const char* where)
  {
    for (auto& c : l)
    {
      Inst* i = loaded_inst(c.name);
      sim::count("chk_C16");
      if (i && claims_of(c) != i->claims)
        sim::fail("C16", false, "%s: the hardware is told that controller %s uses %s, but it claimed %s", where, S(c.name), S(show(claims_of(c))), S(show(i->claims)));
    }
  }
  bool prepareSwitch(const std::list<hi::ControllerInfo>& start, const std::list<hi::ControllerInfo>& stop) override
  {
    UserCode uc;
    sim::point(sim::P_SYNC);
    std::string mode;
    uint64_t slow = 0;
    {
      NoSim ns;
      bool dup = false;
      auto a = to_map(start, dup), b = to_map(stop, dup);
      sim::ev("prepareSwitch start %s stop %s", S(lst(a)), S(lst(b)));
      sim::count("chk_C06");
      if (sim::cur() == W->rt_fiber) sim::fail("C06", false, "prepareSwitch is called in the realtime loop");
      if (dup) sim::fail("C06", false, "a controller is listed twice in prepareSwitch");
      check_claims(start, "prepareSwitch");
      check_claims(stop, "prepareSwitch");
      Op* o = my_op();
      if (o)
      {
        if (o->prep_calls++) sim::fail("C06", false, "prepareSwitch is called more than once for one request");
        o->prep_start = a;
        o->prep_stop = b;
        mode = o->prep;
        slow = o->prep_slow;
        if (W->P.open && W->P.op != o->id)
        {
          // the other call has let go of the switch, though its reply may not have been seen yet
          Pending& P = W->P;
          if (!P.complete && !may_be_withdrawn(P) && !(W->in_update && P.done_switch))
            sim::fail("C06,C13", false, "prepareSwitch is called for a request while another accepted request is still being carried out");
          close_pending();
        }
      }
      for (auto& x : a) if (Inst* i = loaded_inst(x.first)) if (i->running && !W->cyc_reset) sim::fail("C06", false, "prepareSwitch: controller %s to be started is running", S(x.first));
    }
    if (slow) sim::sleep_ns(slow);
    {
      NoSim ns;
      if (mode == "refuse" || mode == "throw" || mode == "throwint") { sim::count("fault_prepare_" + mode); sim::ev("prepareSwitch -> %s", S(mode)); }
    }
    if (mode == "refuse") return false;
    if (mode == "throw") throw std::runtime_error("injected prepareSwitch failure");
    if (mode == "throwint") throw 7;
    {
      NoSim ns;
      Op* o = my_op();
      if (o)
      {
        o->accepted = true;
        Pending P;
        P.op = o->id;
        P.open = true;
        P.start = o->prep_start;
        P.stop = o->prep_stop;
        P.t_prep = o->t_prep = sim::now();
        P.ros_prep = ros_ns();
        for (auto& x : P.start) P.inst[x.first] = loaded_inst(x.first);
        for (auto& x : P.stop) P.inst[x.first] = loaded_inst(x.first);
        if (!W->P.open) W->P = P;
      }
    }
    sim::point(sim::P_SYNC);
    return true;
  }
  void doSwitch(const std::list<hi::ControllerInfo>& start, const std::list<hi::ControllerInfo>& stop) override
  {
    UserCode uc;
    sim::point(sim::P_SYNC);
    NoSim ns;
    bool dup = false;
    auto a = to_map(start, dup), b = to_map(stop, dup);
    sim::ev("doSwitch start %s stop %s", S(lst(a)), S(lst(b)));
    Pending& P = W->P;
    if (sim::cur() != W->rt_fiber || !W->in_update) sim::fail("C06", false, "doSwitch is called outside the realtime update");
    if (!P.open)
    {
      bool late = false;
      for (auto& c : W->closed) if (c.start == a && c.stop == b && !c.complete) late = true;
      sim::fail(late ? "C06,C08" : "C06", false, "doSwitch is called though no accepted request is pending");
      return;
    }
    if (P.done_switch) { sim::fail("C06", false, "doSwitch is called twice for one request"); return; }
    Op* o = P.op >= 0 ? W->ops[P.op] : nullptr;
    if (a != P.start || b != P.stop || dup)
      sim::fail("C06", false, "doSwitch gets lists (start %s stop %s) that differ from those of prepareSwitch (start %s stop %s)", S(lst(a)), S(lst(b)), S(lst(P.start)), S(lst(P.stop)));
    check_claims(start, "doSwitch");
    for (auto& x : P.inst)
      if (x.second && ((P.start.count(x.first) && x.second->running) || (P.stop.count(x.first) && !x.second->running)))
        sim::fail("C06", false, "controller %s was already switched when doSwitch was called", S(x.first));
    if (o && o->do_throw > 0)
    {
      --o->do_throw;
      P.threw = W->cyc_threw = true;
      sim::count("fault_doswitch_throw");
      sim::ev("doSwitch -> throw");
      throw std::runtime_error("injected doSwitch failure");
    }
    P.done_switch = true;
    P.t_do = sim::now();
    P.ros_last_before_do = ros_ns();
    P.cyc_do = W->cycle;
  }
  // the hardware's answer in the current cycle
  char result(const std::string* who, const Pending* Q = nullptr) const
  {
    const Pending& P = Q ? *Q : W->P;
    Op* o = P.op >= 0 ? W->ops[P.op] : nullptr;
    if (!o) return 'D';
    uint64_t n = W->cycle - P.cyc_do;
    uint64_t lat = o->hw_lat;
    char fin = o->hw_fin;
    if (who) { auto it = o->hwc.find(*who); if (it != o->hwc.end()) { lat = it->second.first; fin = it->second.second; } }
    if (W->drain_cycle <= W->cycle && lat > 1000000) lat = 0;
    return n < lat ? 'O' : fin;
  }
  static SwitchState st(char c) { return c == 'D' ? SwitchState::DONE : c == 'E' ? SwitchState::ERROR : SwitchState::ONGOING; }
  SwitchState switchResult() const override { UserCode uc; sim::point(sim::P_SYNC); NoSim ns; return st(result(nullptr)); }
  SwitchState switchResult(const hi::ControllerInfo& c) const override
  {
    UserCode uc;
    sim::point(sim::P_SYNC);
    NoSim ns;
    std::string n(c.name);
    Inst* i = loaded_inst(n);
    if (i && claims_of(c) != i->claims) sim::fail("C16", false, "switchResult: the hardware is told that controller %s uses %s, but it claimed %s", S(n), S(show(claims_of(c))), S(show(i->claims)));
    return st(result(&n));
  }
};

Hw* g_hw = nullptr;

// ------------------------------------------------------------------------------------------------ the realtime loop
std::string tl(const char* f, double a) { char b[64]; snprintf(b, sizeof b, f, a); return b; }

void cycle_begin()
{
  NoSim ns;
  for (auto* i : W->insts)
  {
    i->updates = i->starts = i->stops = i->waits = i->aborts = i->restop = i->restart = 0;
    i->run_at_begin = i->running && !i->destroyed;
  }
  W->P.out.clear();
  W->pend_at_begin = W->P.open && W->P.done_switch;
}
void eval_pending(Pending& P)
{
  World1& w = *W;
  if (!P.done_switch || P.complete) return;
  Op* o = w.ops[P.op];
  bool first = P.cyc_do == w.cycle;
  sim::count("chk_C04");
  if (first)
    for (auto& s : P.stop)
      if (!P.stopped.count(s.first) || (P.inst[s.first] && P.inst[s.first]->running))
        sim::fail("C04", false, "controller %s of an accepted switch is not stopped in the cycle of the switch", S(s.first));
  for (auto& s : P.stop)
    if (!first && P.inst[s.first] && P.inst[s.first]->stops)
      sim::fail("C04", false, "controller %s of a switch is stopped in a later cycle", S(s.first));

  // expected reaction of the controllers to start
  bool maybe_gone = may_be_withdrawn(P) || P.given_up;
  bool jumped = P.clock_jumped;
  double t = w.cyc_time.toSec();
  double lo = std::min(P.ros_prep, P.ros_last_before_do) * 1e-9, hi_ = std::max(P.ros_prep, P.ros_waits ? P.ros_waits : P.ros_last_before_do) * 1e-9;
  bool must_to = o->timeout > 0 && t - hi_ > o->timeout + 1e-6;
  bool may_to = o->timeout > 0 && t - lo > o->timeout - 1e-6;
  size_t acted = 0, pending = 0;
  bool all_done = true, any_to_a = false, any_to_w = false;
  std::string idle;
  for (auto& s : P.start)
  {
    Inst* i = P.inst[s.first];
    if (!i) continue;
    char got = P.out.count(s.first) ? P.out[s.first] : '-';
    if (o->asap && i->run_at_begin && !i->starts) continue;            // started in an earlier cycle
    if (o->asap && got == '-' && P.was_aborted.count(s.first)) continue;  // aborted in an earlier cycle
    ++pending;
    if (got != '-') ++acted; else idle += s.first + " ";
    char r = o->asap ? g_hw->result(&s.first, &P) : g_hw->result(nullptr, &P);
    sim::count("chk_C07");
    if (got == '-' || got == 'w') all_done = false;
    if (got == '-') continue;
    if (got == 'a') P.was_aborted.insert(s.first);
    if (r == 'D')
    {
      if (got != 's') sim::fail("C07", false, "controller %s is %s though the hardware reports its switch as done", S(s.first), got == 'w' ? "kept waiting" : "aborted");
    }
    else if (r == 'E')
    {
      if (got != 'a') sim::fail("C07", false, "controller %s is %s though the hardware reports an error", S(s.first), got == 'w' ? "kept waiting" : "started");
      sim::count("ev_hw_error_abort");
    }
    else
    {
      if (got == 's') sim::fail("C07", false, "controller %s is started though the hardware reports the switch as ongoing", S(s.first));
      if (got == 'a') { any_to_a = true; sim::count("ev_timeout_abort"); }
      if (got == 'w') { any_to_w = true; sim::count("ev_wait"); }
      if (got == 'a' && !may_to && !jumped) sim::fail("C07", false, "controller %s is aborted %.6f s after the request though the time-out is %.6f s and the hardware is still switching", S(s.first), t - lo, o->timeout);
      if (got == 'w' && must_to && !jumped) sim::fail("C07", false, "controller %s is kept waiting %.6f s after the request though the time-out is %.6f s", S(s.first), t - hi_, o->timeout);
    }
  }
  if (any_to_a && any_to_w) sim::fail("C07", false, "the time-out aborts some controllers of a switch and keeps others waiting in the same cycle");
  if (acted != pending)
  {
    if (acted != 0 || !maybe_gone)
      sim::fail(first && acted == 0 ? "C07,C04" : "C07", false, "controllers %sof the pending switch are neither started, aborted nor told to wait in this cycle", S(idle));
    else P.given_up = true;
  }
  else if (first && pending)
  {
    bool any_s = false, any_n = false;
    for (auto& s : P.start) { if (P.out.count(s.first) && P.out[s.first] == 's') any_s = true; else any_n = true; }
    if (!o->asap && any_s && any_n) sim::fail("C04,C07", false, "only some of the controllers of a switch are started in its cycle");
  }
  if (all_done)
  {
    P.complete = true;
    sim::ev("switch of op %d complete", P.op);
    sim::count("ev_switch_complete");
  }
}
void cycle_end()
{
  NoSim ns;
  World1& w = *W;
  for (auto* i : w.insts)
  {
    if (i->run_at_begin && i->updates != 1)
      sim::fail("C01", false, "controller %s was running when the cycle began but got %d updates", S(i->name), i->updates);
    if (w.cyc_reset)
    {
      if (i->run_at_begin) sim::count("chk_C17");
      if (i->run_at_begin && (i->restop != 1 || i->restart != 1)) sim::fail("C17", false, "reset cycle: running controller %s got %d stops and %d restarts", S(i->name), i->restop, i->restart);
      if (!i->run_at_begin && (i->restop || i->restart)) sim::fail("C17", false, "reset cycle: controller %s that was not running is restarted", S(i->name));
    }
    if (i->starts > 1 || i->stops > 1 || i->waits > 1 || i->aborts > 1 || (i->starts && (i->waits || i->aborts)) || (i->waits && i->aborts))
      sim::fail("C07,C04", false, "controller %s gets switch callbacks twice in one cycle (%d starts %d stops %d waits %d aborts)", S(i->name), i->starts, i->stops, i->waits, i->aborts);
  }
  for (auto& c : w.closed)
    if (c.closed_cycle == w.cycle)
    {
      eval_pending(c);
      if (!c.complete && !may_be_withdrawn(c))
        sim::fail("C06,C13,C08", false, "the call of a switch ends in the cycle of the switch though the switch is not complete");
    }
  if (w.P.open) eval_pending(w.P);
}

void rt_loop(controller_manager::ControllerManager* cm)
{
  World1& w = *W;
  if (w.rt_start) sim::sleep_ns(w.rt_start);
  ros::Time last;
  {
    NoSim ns;
    last.fromNSec((uint64_t)ros_ns());
    sim::ev("rt loop starts");
  }
  while (true)
  {
    if (w.rt_stopped) break;
    if (w.cycle >= w.rt_end_cycle) break;
    if (w.stall_until > sim::now())
    {
      { NoSim ns; sim::ev("rt stalled"); }
      sim::sleep_ns(w.stall_until - sim::now());
      continue;
    }
    {
      NoSim ns;
      ++w.cycle;
      w.cyc_time = ros::Time().fromNSec((uint64_t)ros_ns());
      w.cyc_period = w.cyc_time - last;
      last = w.cyc_time;
      w.cyc_reset = w.reset_every && w.cycle % w.reset_every == 1;
      if (w.cyc_reset) { sim::ev("cycle with reset"); sim::count("fault_reset_cycle"); }
      w.cyc_threw = false;
      cycle_begin();
      w.in_update = true;
    }
    ros::Time t = w.cyc_time;
    ros::Duration p = w.cyc_period;
    bool reset = w.cyc_reset;
    sim::set_rt_section(true);
    try { if (reset) cm->update(t, p, true); else cm->update(t, p); }
    catch (...) { sim::set_rt_section(false); NoSim ns; if (!w.cyc_threw) sim::fail("C10,C01", true, "an exception escapes from the realtime update"); }
    sim::set_rt_section(false);
    {
      NoSim ns;
      w.in_update = false;
      cycle_end();
      sim::count("cycles");
      sim::count("chk_C10");
      if (!w.cur_op.empty()) sim::count("chk_C09");
      w.cyc_reset = false;
    }
    sim::sleep_ns(w.rt_period + (w.rt_jitter ? w.rng.below(w.rt_jitter) : 0));
  }
}

// ------------------------------------------------------------------------------------------------ clients
bool service(const char* name, void* req, void* resp)
{
  ros::NodeHandle::RawService f;
  {
    NoSim ns;
    auto& m = simros::world().services;
    auto it = m.find(W->ns + "/controller_manager/" + name);
    if (it == m.end()) { sim::fail("*", true, "service %s is not advertised", name); return false; }
    f = it->second;
  }
  bool r;
  try { r = f(req, resp); }
  catch (...) { NoSim ns; f = nullptr; throw; }
  NoSim ns;
  f = nullptr;
  if (!r) sim::fail("C15", false, "the call of %s is not answered, its handler gives it up", name);
  return r;
}

void run_op(controller_manager::ControllerManager* cm, Op* o)
{
  World1& w = *W;
  if (o->delay) sim::sleep_ns(o->delay);
  controller_manager_msgs::SwitchController::Request sreq;
  controller_manager_msgs::SwitchController::Response sresp;
  controller_manager_msgs::LoadController::Request lreq;
  controller_manager_msgs::LoadController::Response lresp;
  controller_manager_msgs::UnloadController::Request ureq;
  controller_manager_msgs::UnloadController::Response uresp;
  controller_manager_msgs::ListControllers::Request qreq;
  controller_manager_msgs::ListControllers::Response qresp;
  controller_manager_msgs::ListControllerTypes::Request treq;
  controller_manager_msgs::ListControllerTypes::Response tresp;
  controller_manager_msgs::ReloadControllerLibraries::Request rreq;
  controller_manager_msgs::ReloadControllerLibraries::Response rresp;
  std::string name(o->name);
  sreq.start_controllers = o->start;
  sreq.stop_controllers = o->stop;
  sreq.strictness = o->strict;
  sreq.start_asap = o->asap;
  sreq.timeout = o->timeout;
  lreq.name = name;
  ureq.name = name;
  rreq.force_kill = o->force;
  {
    NoSim ns;
    o->called = true;
    o->call = ++w.seq;
    o->t_call = sim::now();
    w.cur_op[sim::cur()] = o;
    sim::ev("call %s", S(describe(*o)));
    sim::count("op_" + o->kind);
  }
  sim::arm_alloc_fail(o->alloc);
  bool ok = false, exc = false;
  controller_interface::ControllerBase* got = nullptr;
  try
  {
    if (o->kind == "load")
    {
      if (o->direct) ok = cm->loadController(name);
      else ok = service("load_controller", &lreq, &lresp) && lresp.ok;
    }
    else if (o->kind == "unload")
    {
      if (o->direct) ok = cm->unloadController(name);
      else ok = service("unload_controller", &ureq, &uresp) && uresp.ok;
    }
    else if (o->kind == "switch")
    {
      if (o->direct && o->timeout == 0 && !o->asap) ok = cm->switchController(sreq.start_controllers, sreq.stop_controllers, o->strict);
      else if (o->direct) ok = cm->switchController(sreq.start_controllers, sreq.stop_controllers, o->strict, o->asap, o->timeout);
      else ok = service("switch_controller", &sreq, &sresp) && sresp.ok;
    }
    else if (o->kind == "list") ok = service("list_controllers", &qreq, &qresp);
    else if (o->kind == "types") ok = service("list_controller_types", &treq, &tresp);
    else if (o->kind == "reload") ok = service("reload_controller_libraries", &rreq, &rresp) && rresp.ok;
    else if (o->kind == "get") { got = cm->getControllerByName(name); ok = true; }
  }
  catch (const std::exception&) { exc = true; }
  catch (...) { exc = true; }
  NoSim ns;
  o->alloc_fired = sim::alloc_fail_fired();
  o->reply = exc ? 'X' : ok ? 'T' : 'F';
  o->ret = ++w.seq;
  o->t_ret = sim::now();
  o->after_shutdown = w.shutdown;
  w.cur_op.erase(sim::cur());
  sim::ev("reply %s -> %c", S(describe(*o)), o->reply);
  if (o->kind == "list")
    for (auto& c : qresp.controller)
    {
      Snap s{c.name, c.type, c.state, Claims()};
      for (auto& r : c.claimed_resources) for (auto& x : r.resources) s.claims[short_name(r.hardware_interface)].insert(x);
      o->snap.push_back(s);
    }
  if (o->kind == "types")
  {
    sim::count("chk_C13");
    std::multiset<std::pair<std::string, std::string>> want, have;
    for (auto& b : w.loaders) for (auto& c : simros::world().classes[b]) want.insert({c.first, b});
    bool even = tresp.types.size() == tresp.base_classes.size();
    if (even) for (size_t i = 0; i < tresp.types.size(); ++i) have.insert({tresp.types[i], tresp.base_classes[i]});
    if (!ok || !even || want != have) sim::fail("C13", false, "%s: the listing of controller types is not what the %d loaders declare (%d types, %d expected)", S(describe(*o)), (int)w.loaders.size(), (int)tresp.types.size(), (int)want.size());
  }
  if (o->kind == "get" && !exc)
  {
    o->got = -1;
    if (got)  // it may have been destroyed since the lookup
    {
      o->got = -3;
      for (auto* i : w.insts) if (i->base == got && o->got == -3) o->got = i->id;
      for (auto* i : w.insts) if (i->base == got && i->name == o->name) o->got = i->id;
      for (auto* i : w.insts) if (i->base == got && !i->destroyed) o->got = i->id;
    }
  }
  Pending* Q = nullptr;
  if (w.P.open && w.P.op == o->id) { close_pending(); Q = &w.closed.back(); }
  else if (o->accepted) for (auto& c : w.closed) if (c.op == o->id) Q = &c;
  if (Q)
  {
    Pending& P = *Q;
    sim::count("chk_C08");
    if (o->reply == 'T')
    {
      std::string who;
      if (!P.done_switch && !P.threw) who = " the hardware switch was not done";
      for (auto& s : P.stop) if (!P.stopped.count(s.first)) who += " " + s.first + " was not stopped";
      for (auto& s : P.start)
      {
        auto it = o->outcome.find(s.first);
        if (it == o->outcome.end() || (it->second != 's' && it->second != 'a')) who += " " + s.first + " was neither started nor aborted";
      }
      if (!who.empty()) sim::fail("C08", false, "%s returns true but%s", S(describe(*o)), S(who));
    }
  }
  else if (o->kind == "switch" && o->reply == 'T')
    sim::fail("C08,C06", false, "%s returns true though the switch was never prepared", S(describe(*o)));
  o->done = true;
  sim::count("chk_C15");
  if (o->kind == "reload") sim::count("chk_C14");
  if (o->kind == "load") sim::count("chk_C11");
  if (o->kind == "switch") sim::count("chk_C05");
  if (o->kind == "list" || o->kind == "get") sim::count("chk_C13");
  if (o->kind == "reload") sim::count("chk_C14");
}

uint64_t frozen_since(const Op*) { return sim::frozen_total(); }

void monitor()
{
  World1& w = *W;
  while (true)
  {
    sim::sleep_ns(20000000);
    NoSim ns;
    uint64_t t = sim::now(), slack = sim::frozen_total();
    if (w.drain_cycle == ~0ull && t > w.t_drain) w.drain_cycle = w.cycle + 1;
    for (auto* o : w.ops)
    {
      if (!o->called || o->done) continue;
      if (w.shutdown && t > std::max(w.t_shutdown, o->t_call) + 1000000000ull + slack)
      {
        sim::fail("C15", true, "%s has not returned %.3f s after node shutdown", S(describe(*o)), (t - std::max(w.t_shutdown, o->t_call)) * 1e-9);
        return;
      }
      if (o->accepted && o->kind == "switch" && o->timeout > 0 && t > o->t_prep + (uint64_t)(o->timeout * 1e9) + 2000000000ull + slack)
      {
        sim::fail("C15", true, "%s has not returned %.3f s after it was accepted though its time-out is %.3f s", S(describe(*o)), (t - o->t_prep) * 1e-9, o->timeout);
        return;
      }
      uint64_t base = std::max(std::max(o->t_call, w.t_drain), std::max(w.last_disturb, w.rt_start));
      if (!w.rt_stopped && t > base + 20000000000ull + slack)
      {
        sim::fail("C15", true, "%s does not return though the realtime loop runs and the hardware has finished", S(describe(*o)));
        return;
      }
    }
  }
}

void do_fault(const Line& l)
{
  World1& w = *W;
  std::string k = l.get("kind");
  uint64_t dur = l.num("dur");
  {
    NoSim ns;
    sim::ev("fault %s", S(k));
    sim::count("fault_" + k);
    w.last_disturb = std::max(w.last_disturb, sim::now() + dur);
  }
  if (k == "shutdown") { simros::world().ok = false; w.shutdown = true; w.exact = false; w.t_shutdown = sim::now(); }
  else if (k == "rtstall") w.stall_until = sim::now() + dur;
  else if (k == "rtstop") w.rt_stopped = true;
  else if (k == "pause") sim::pause_all(dur);
  else if (k == "wall")
  {
    sim::wall_jump(l.num("d"));
    if (w.ros_wall && w.P.open) w.P.clock_jumped = true;
  }
  else if (k == "rosfreeze")
  {
    w.ros_frozen_at = ros_ns();
    w.ros_frozen = true;
    sim::sleep_ns(dur);
    int64_t at = w.ros_frozen_at;
    w.ros_frozen = false;
    w.ros_off -= ros_ns() - at;
  }
  NoSim ns;
  sim::ev("fault %s over", S(k));
}

// classes that override both kinds of init, or just the one that does the work
template <class T, class T2, class T3> void reg3(const char* base, const char* cls)
{
  simros::world().classes[base][cls] = []() -> void*
  {
    int v = 0;
    {
      NoSim ns;
      Op* o = my_op();
      auto it = o ? W->ctl.find(o->name) : W->ctl.end();
      if (it != W->ctl.end() && it->second.only) v = it->second.variant;
    }
    if (v == 2) return static_cast<controller_interface::ControllerBase*>(new T2());
    if (v == 3) return static_cast<controller_interface::ControllerBase*>(new T3());
    return static_cast<controller_interface::ControllerBase*>(new T());
  };
}
template <class I> void reg_single(const char* base, const char* cls) { reg3<Single<I>, Single2<I>, Single3<I>>(base, cls); }
template <bool OPT, class... I> void reg_multi(const char* base, const char* cls) { reg3<MultiO<OPT, I...>, MultiO2<OPT, I...>, MultiO3<OPT, I...>>(base, cls); }
template <class T> void reg(const char* base, const char* cls)
{
  simros::world().classes[base][cls] = []() -> void* { return static_cast<controller_interface::ControllerBase*>(new T()); };
}

const char* BASE1 = "controller_interface::ControllerBase";
const char* BASE2 = "sim::OtherBase";
const char* BASE3 = "sim::ThirdBase";

struct CmWorld : fw::World
{
  std::vector<std::string> properties() override
  {
    return {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17"};
  }

  // -------------------------------------------------------------------------------------------- generation
  struct Prof
  {
    double load = 2.5, unload = 2, sw = 5, list = 1.5, get = 0.3, reload = 0.25, types = 0.2;
    double fault = 0.15, alloc = 0.04, lat = 0.3, err = 0.25, asap = 0.4, to = 0.3, prep = 0.1, never = 0.1;
    double shutdown = 0.1, wall = 0.1, rosfreeze = 0.08, stall = 0.1, rtstop = 0.5, reset = 0.15, direct = 0.15, invalid = 0.2, conflict = 0.35, slowinit = 0.1;
    int cmax = 3, nmin = 3, nmax = 9;
    double single = 0.4, pause = 0.04, dothrow = 0;
  };
  static Prof prof(const std::string& p)
  {
    Prof f;
    if (p == "C01") { f.reset = 0.3; f.sw = 6; }
    if (p == "C02") { f.reset = 0.25; f.lat = 0.4; f.shutdown = 0.15; }
    if (p == "C03") { f.conflict = 0.75; f.sw = 7; f.list = 0.5; }
    if (p == "C04") { f.sw = 7; f.lat = 0.3; f.invalid = 0.3; f.single = 0.5; }
    if (p == "C05") { f.sw = 7; f.invalid = 0.45; f.single = 0.7; f.prep = 0.15; f.shutdown = 0.02; f.alloc = 0.02; }
    if (p == "C06") { f.sw = 7; f.prep = 0.25; f.lat = 0.3; f.alloc = 0.08; f.stall = 0.15; f.to = 0.4; }
    if (p == "C07") { f.pause = 0.1; f.sw = 6; f.lat = 0.85; f.err = 0.35; f.asap = 0.5; f.to = 0.6; f.never = 0.25; f.prep = 0.03; f.single = 0.6; f.invalid = 0.08; f.conflict = 0.15; f.rosfreeze = 0.12; f.fault = 0.03; }
    if (p == "C08") { f.pause = 0.1; f.sw = 7; f.lat = 0.6; f.to = 0.7; f.never = 0.3; f.shutdown = 0.35; f.stall = 0.35; f.rosfreeze = 0.2; f.prep = 0.12; f.invalid = 0.12; f.alloc = 0.05; f.wall = 0.2; f.conflict = 0.2; f.fault = 0.03; }
    if (p == "C09") { f.load = 4; f.unload = 4; f.sw = 5; f.shutdown = 0.25; f.direct = 0.3; f.reload = 0.6; f.single = 0.2; f.to = 0.5; f.stall = 0.2; }
    if (p == "C10") { f.load = 3; f.unload = 3; f.lat = 0.5; f.reset = 0.25; f.slowinit = 0.4; }
    if (p == "C11") { f.load = 7; f.unload = 2.5; f.fault = 0.5; f.alloc = 0.15; f.sw = 2; f.single = 0.6; f.slowinit = 0.25; }
    if (p == "C12") { f.load = 4; f.unload = 6; f.sw = 3; f.alloc = 0.1; f.single = 0.45; }
    if (p == "C13") { f.list = 4; f.get = 1; f.single = 0.05; f.lat = 0.5; f.shutdown = 0.05; f.direct = 0.3; }
    if (p == "C14") { f.reload = 4; f.load = 4; f.sw = 4; f.direct = 0.35; f.single = 0.4; f.prep = 0.2; f.shutdown = 0.08; f.alloc = 0.02; }
    if (p == "C15") { f.dothrow = 0.06; f.pause = 0.25; f.shutdown = 0.5; f.stall = 0.35; f.rosfreeze = 0.3; f.wall = 0.4; f.to = 0.6; f.never = 0.35; f.lat = 0.6; f.single = 0.25; f.reload = 0.5; }
    if (p == "C16") { f.load = 5; f.list = 3; f.fault = 0.35; f.alloc = 0.1; f.conflict = 0.6; }
    if (p == "C17") { f.reset = 1.0; f.unload = 3; f.list = 3; f.lat = 0.4; f.sw = 6; }
    return f;
  }
  Plan generate(const std::string& prop, sim::Rng& r, bool thorough) override
  {
    Prof f = prof(prop);
    Plan pl;
    bool single = r.chance(f.single);
    int nclients = single ? 1 : r.range(2, f.cmax);
    {
      Line& c = pl.add("cfg");
      static const long long per[] = {1000000, 2000000, 5000000, 10000000, 300000};
      long long period = per[r.below(5)];
      c.set("clients", nclients);
      c.set("period", period).set("jitter", r.chance(0.5) ? (long long)(period / 2) : 0ll);
      c.set("rtstart", r.chance(0.35) ? (long long)r.below(2000000) : 0ll);
      c.set("policy", r.chance(0.75) ? "default" : r.chance(0.5) ? "permissive" : "perjoint");
      c.set("hw", r.chance(0.7) ? "flat" : "nested");
      c.set("loader2", r.chance(0.4) ? r.range(1, 2) : 0);
      c.set("ros", r.chance(0.25) ? "wall" : "sim");
      c.set("reset", r.chance(f.reset) ? r.range(2, 9) : 0);
      c.set("drain", (long long)3000000000ll);
      if (r.chance(0.3)) c.set("ns", r.chance(0.5) ? "/rob" : "/cell/c0");
    }
    int nctl = r.range(2, 5);
    bool many = r.chance(0.08);
    if (many) nctl = r.range(6, 12);
    std::vector<std::string> names;
    std::set<std::string> good;
    int naming = r.chance(0.65) ? 0 : r.range(1, 2);
    for (int i = 0; i < nctl; ++i)
    {
      Line& c = pl.add("ctl");
      std::string n = naming == 0 ? "c" + std::to_string(i) : naming == 1 ? "c" + std::string(i, '_') : std::string(i % 2 ? "arm/" : "") + "c" + std::to_string(i / 2);
      names.push_back(n);
      static const char* types[] = {"E", "P", "V", "Q", "S", "M1", "M2", "M1", "O", "L2E"};
      std::string t = types[r.below(10)];
      int l2 = (int)pl.lines[0].num("loader2");
      if (t == "L2E" && !l2) t = "E";
      if (t == "L2E" && l2 == 2 && r.chance(0.5)) t = "L3V";
      if (t == "M1" && r.chance(0.2)) t = "M3";
      if (r.chance(0.04)) t = r.chance(0.5) ? "X" : r.chance(0.5) ? "M4" : "M5";
      if (r.chance(0.03)) t = "none";
      auto joint = [&]() { return r.chance(f.conflict) ? "j" + std::to_string(r.below(3)) : "k" + std::to_string(i) + std::to_string(r.below(2)); };
      std::string res;
      bool opt = r.chance(0.08);
      if (opt) c.set("opt", 1);
      auto addres = [&](const std::string& ifc)
      {
        int k = r.range(1, 2);
        std::set<std::string> js;
        for (int j = 0; j < k; ++j) js.insert(joint());
        if (r.chance(opt ? 0.6 : 0.03)) js.insert("nojoint");
        for (auto& j : js) res += (res.empty() ? "" : ",") + ifc + ":" + j;
      };
      if (t == "E" || t == "P" || t == "V" || t == "Q" || t == "S") addres(t);
      else if (t == "L2E") addres("E");
      else if (t == "L3V") addres("V");
      else if (t == "M1" || t == "M3" || t == "M5") { if (r.chance(0.9)) addres("E"); if (r.chance(0.7)) addres("P"); }
      else if (t == "M2") { if (r.chance(0.8)) addres("V"); if (r.chance(0.6)) addres("S"); if (r.chance(0.4)) addres("E"); }
      else if (t == "O") { addres(r.chance(0.5) ? "E" : "V"); if (r.chance(0.3)) addres("P"); }
      c.set("name", n).set("type", "sim/" + t).set("res", res).set("variant", r.chance(0.2) ? 5 : r.chance(0.5) ? 2 : 3);
      if (r.chance(0.5)) c.set("only", 1);
      if (t != "X" && t != "none" && t != "M4" && t != "M5") good.insert(n);
    }
    std::set<std::string> loaded, running;
    int id = 0;
    auto rnd = [&](const std::set<std::string>& s) -> std::string { if (s.empty()) return r.pick(names); auto it = s.begin(); std::advance(it, r.below(s.size())); return *it; };
    auto setdiff = [&](const std::set<std::string>& a, const std::set<std::string>& b) { std::set<std::string> d; for (auto& x : a) if (!b.count(x)) d.insert(x); return d; };
    auto wrong = [&]() -> std::string
    {
      // a name nothing has: an arbitrary one, a part of a name or a longer one
      std::string n = r.pick(names);
      std::string g = r.chance(0.5) ? "ghost" : r.chance(0.5) ? n.substr(0, n.size() - 1) : n + "1";
      return g.empty() || std::find(names.begin(), names.end(), g) != names.end() ? "ghost" : g;
    };
    auto common = [&](Line& o, int client)
    {
      o.set("id", id++).set("client", client);
      static const long long dl[] = {0, 0, 20000, 200000, 1500000, 6000000};
      long long d = dl[r.below(6)];
      if (d) o.set("delay", (long long)r.below(d));
      if (r.chance(f.direct)) o.set("direct", 1);
    };
    auto mk_switch = [&](Line& o)
    {
      o.set("kind", "switch");
      std::vector<std::string> a, b;
      int na = (int)r.below(many ? 8 : 4), nb = (int)r.below(many ? 8 : r.chance(0.25) ? 5 : 3);
      if (na + nb == 0 && r.chance(0.9)) na = 1;
      std::set<std::string> cs = setdiff(loaded, running), cr = running;
      for (int i = 0; i < na; ++i)
      {
        std::string n;
        if (r.chance(f.invalid)) n = r.chance(0.3) ? wrong() : r.pick(names);
        else { if (cs.empty()) break; n = rnd(cs); cs.erase(n); }
        a.push_back(n);
      }
      for (int i = 0; i < nb; ++i)
      {
        std::string n;
        if (r.chance(f.invalid)) n = r.chance(0.3) ? wrong() : r.pick(names);
        else { if (cr.empty()) break; n = rnd(cr); cr.erase(n); }
        b.push_back(n);
      }
      // names among the others that cannot be switched
      if (r.chance(f.invalid * 0.4)) b.insert(b.begin() + r.below(b.size() + 1), r.chance(0.5) ? wrong() : r.pick(names));
      if (r.chance(f.invalid * 0.4)) a.insert(a.begin() + r.below(a.size() + 1), r.chance(0.5) ? wrong() : r.pick(names));
      if (r.chance(0.06) && !a.empty()) a.push_back(a[0]);
      if (r.chance(0.06) && !b.empty()) b.push_back(b[0]);
      bool again = r.chance(f.invalid * 0.4) && !a.empty();
      if (again) for (int i = r.range(1, 2); i > 0; --i) b.push_back(a[0]);  // to be stopped, too, though it does not run
      if (!a.empty()) o.set("start", a);
      if (!b.empty()) o.set("stop", b);
      o.set("strict", r.chance(again ? 0.2 : 0.5) ? 2 : r.chance(0.7) ? 1 : 0);
      if (r.chance(f.asap)) o.set("asap", 1);
      bool to = r.chance(f.to);
      if (to) { static const double tos[] = {0.003, 0.02, 0.1, 0.4, 0.0002}; o.set("timeout", tos[r.below(5)]); }
      if (r.chance(f.prep)) o.set("prep", r.chance(0.5) ? "refuse" : r.chance(0.7) ? "throw" : "throwint");
      if (r.chance(f.dothrow)) o.set("dothrow", r.range(1, 3));
      if (r.chance(0.08)) o.set("prepslow", (long long)r.below(5000000));
      if (r.chance(f.lat))
      {
        if (r.chance(f.never)) o.set("lat", 1000000000ll); else o.set("lat", (long long)r.below(12));
        if (r.chance(f.err)) o.set("fin", "E");
        std::string h;
        for (auto& n : names)
          if (r.chance(0.7))
            h += (h.empty() ? "" : ",") + n + ":" + (r.chance(f.never) ? "1000000000" : std::to_string(r.below(8))) + ":" + (r.chance(f.err) ? "E" : "D");
        if (!h.empty()) o.set("hwc", h);
      }
      if (r.chance(f.alloc)) o.set("alloc", r.range(1, 25));
      for (auto& n : b) running.erase(n);
      for (auto& n : a) if (loaded.count(n) && o.get("prep").empty()) running.insert(n);
    };
    auto mk_load = [&](Line& o, const std::string& n)
    {
      o.set("kind", "load").set("name", n);
      if (r.chance(f.fault))
      {
        static const char* fs[] = {"noparam", "nocls", "createthrow", "createlogic", "createint", "createnull", "initfalse", "initthrow", "initthrowint", "badname"};
        std::string k = fs[r.below(10)];
        if (k == "badname") o.set("name", n + "!");
        o.set("fault", k);
      }
      else if (good.count(n)) loaded.insert(n);
      if (r.chance(f.alloc)) o.set("alloc", r.range(1, 60));
      if (r.chance(f.slowinit)) o.set("slow", (long long)r.below(8000000));
    };
    // phase 0: client 0 loads (and mostly starts) some controllers
    for (auto& n : names)
      if (r.chance(0.7)) { Line& o = pl.add("op"); common(o, 0); o.set("phase", 0); mk_load(o, n); }
    if (!loaded.empty() && r.chance(0.7)) { Line& o = pl.add("op"); common(o, 0); o.set("phase", 0); mk_switch(o); }
    int extra = thorough && r.chance(0.3) ? 4 : 0;
    for (int c = 0; c < nclients; ++c)
    {
      int n = r.range(f.nmin, f.nmax) / (nclients > 1 ? 2 : 1) + extra;
      if (n < 1) n = 1;
      for (int k = 0; k < n && id < 34; ++k)
      {
        double tot = f.load + f.unload + f.sw + f.list + f.get + f.reload + f.types, x = r.uniform(0, tot);
        Line& o = pl.add("op");
        common(o, c);
        if ((x -= f.load) < 0) { auto s = setdiff(good, loaded); mk_load(o, r.chance(0.75) && !s.empty() ? rnd(s) : r.pick(names)); }
        else if ((x -= f.unload) < 0)
        {
          auto s = setdiff(loaded, running);
          std::string nm = r.chance(0.75) ? rnd(s) : r.chance(0.2) ? wrong() : r.pick(names);
          o.set("kind", "unload").set("name", nm);
          if (r.chance(f.alloc)) o.set("alloc", r.range(1, 8));
          if (!running.count(nm)) loaded.erase(nm);
        }
        else if ((x -= f.sw) < 0) mk_switch(o);
        else if ((x -= f.list) < 0) { o.set("kind", "list"); if (r.chance(f.alloc * 0.5)) o.set("alloc", r.range(1, 20)); }
        else if ((x -= f.get) < 0) { o.set("kind", "get").set("name", r.chance(0.8) ? r.pick(names) : wrong()); }
        else if ((x -= f.types) < 0) o.set("kind", "types");
        else
        {
          bool force = r.chance(0.7);
          o.set("kind", "reload").set("force", force ? 1 : 0);
          if (r.chance(f.prep)) o.set("prep", r.chance(0.5) ? "refuse" : "throw");
          if (r.chance(f.lat * 0.5)) o.set("lat", (long long)r.below(6));
          if (force && o.get("prep").empty()) { loaded.clear(); running.clear(); }
        }
      }
    }
    auto where = [&](Line& l)
    {
      if (id > 0 && r.chance(0.8)) { l.set("op", (long long)r.below(id)).set("after", r.chance(0.4) ? (long long)r.below(300000) : (long long)r.below(20000000)); if (r.chance(0.5)) l.set("prep", 1); }
      else l.set("at", (long long)r.below(60000000));
    };
    if (r.chance(f.stall)) { Line& l = pl.add("fault"); l.set("kind", "rtstall").set("dur", r.chance(0.5) ? (long long)r.below(20000000) : (long long)r.below(2500000000ll)); where(l); }
    if (prop == "C07" && r.chance(0.3))
    {
      // a loop that is late for the first cycle of a switch with a time-out
      std::vector<std::string> ids;
      for (auto& o : pl.lines) if (o.kind == "op" && o.get("kind") == "switch" && o.has("timeout") && o.real("timeout") > 0 && o.real("timeout") < 0.05) ids.push_back(o.get("id"));
      if (!ids.empty()) { Line& l = pl.add("fault"); l.set("kind", "rtstall").set("dur", (long long)r.below(60000000)).set("op", r.pick(ids)).set("after", (long long)r.below(20000)).set("prep", 1); }
    }
    if (r.chance(f.pause)) { Line& l = pl.add("fault"); l.set("kind", "pause").set("dur", r.chance(0.4) ? (long long)r.below(3000000000ll) : (long long)r.below(200000000000ll)); where(l); }
    if (r.chance(f.rosfreeze)) { Line& l = pl.add("fault"); l.set("kind", "rosfreeze").set("dur", (long long)r.below(2500000000ll)); where(l); }
    if (r.chance(f.wall)) { Line& l = pl.add("fault"); l.set("kind", "wall").set("d", (r.chance(0.5) ? 1 : -1) * (long long)r.below(200000000000ll)); where(l); }
    if (r.chance(f.shutdown))
    {
      Line& l = pl.add("fault");
      l.set("kind", "shutdown");
      where(l);
      Line s = l;
      if (r.chance(f.rtstop))
      {
        Line& m = pl.add("fault");
        m = s;
        m.set("kind", "rtstop");
        if (r.chance(0.5)) m.set("after", (long long)r.below(20000000));
      }
    }
    Line& l = pl.add("sched");
    static const double pm[] = {0.0, 0.002, 0.01, 0.03, 0.1, 0.3};
    static const double ps[] = {0.01, 0.05, 0.1, 0.2, 0.4, 0.02};
    static const double pf[] = {0.0, 0.1, 0.3, 0.6};
    static const long long mf[] = {20000, 200000, 2000000, 20000000, 1500000000};
    l.set("seed", (long long)(r.next() >> 1)).set("pmem", pm[r.below(6)]).set("psync", ps[r.below(6)]).set("pfreeze", pf[r.below(4)]).set("maxfreeze", mf[r.below(5)]);
    return pl;
  }
  bool droppable(const Line& l) override { return l.kind == "op" || l.kind == "fault" || l.kind == "ctl"; }
  std::vector<Line> simpler(const Line& l) override
  {
    std::vector<Line> v;
    auto without = [&](const char* k) { if (l.has(k)) { Line n = l; n.kv.erase(std::remove_if(n.kv.begin(), n.kv.end(), [&](const std::pair<std::string, std::string>& p) { return p.first == k; }), n.kv.end()); v.push_back(n); } };
    if (l.kind == "op")
    {
      for (const char* k : {"delay", "direct", "alloc", "fault", "slow", "prepslow", "hwc", "lat", "fin", "asap", "timeout", "prep", "dothrow"}) without(k);
      for (const char* k : {"start", "stop"})
      {
        auto a = l.list(k);
        for (size_t i = 0; i < a.size() && a.size() > 1; ++i) { auto b = a; b.erase(b.begin() + i); Line n = l; n.set(k, b); v.push_back(n); }
        without(k);
      }
    }
    if (l.kind == "cfg")
    {
      const char* d[][2] = {{"jitter", "0"}, {"reset", "0"}, {"policy", "default"}, {"hw", "flat"}, {"ros", "sim"}, {"rtstart", "0"}, {"loader2", "0"}};
      for (auto& x : d) if (l.get(x[0]) != x[1]) { Line n = l; n.set(x[0], x[1]); v.push_back(n); }
    }
    if (l.kind == "ctl")
    {
      auto a = l.list("res");
      for (size_t i = 0; i < a.size() && a.size() > 1; ++i) { auto b = a; b.erase(b.begin() + i); Line n = l; n.set("res", b); v.push_back(n); }
    }
    return v;
  }

  // -------------------------------------------------------------------------------------------- execution
  World1 world;
  std::vector<Line> faults;
  void cleanup() override
  {
    for (auto* i : world.insts) delete i;
    for (auto* o : world.ops) delete o;
    world = World1();
    g_hw = nullptr;
    simros::reset_world();
  }
  void run(const Plan& plan) override
  {
    W = &world;
    World1& w = world;
    simros::reset_world();
    w.plan = &plan;
    const Line empty("cfg");
    const Line& cfg = plan.first("cfg") ? *plan.first("cfg") : empty;
    w.policy = cfg.get("policy", "default");
    w.ns = cfg.get("ns");
    w.rt_period = cfg.num("period", 1000000);
    w.rt_jitter = cfg.num("jitter");
    w.rt_start = cfg.num("rtstart");
    w.reset_every = cfg.num("reset");
    w.t_drain = 1000000000ull + cfg.num("drain", 3000000000ll);
    w.ros_wall = cfg.get("ros") == "wall";
    w.n_client = (int)cfg.num("clients", 1);
    std::vector<std::string> joints = {"j0", "j1", "j2", "j3"};
    // the joints of the robot: a few everybody uses, and some of each controller
    std::set<std::string> own;
    for (int i = 0; i < 6; ++i) for (int k = 0; k < 2; ++k) own.insert("k" + std::to_string(i) + std::to_string(k));
    for (auto* l : plan.all("ctl")) for (auto& x : l->list("res")) { auto j = x.substr(x.find(':') + 1); if (j[0] == 'k') own.insert(j); }
    joints.insert(joints.end(), own.begin(), own.end());
    for (auto* l : plan.all("ctl"))
    {
      CtlPlan c;
      c.name = l->get("name");
      c.type = l->get("type");
      c.variant = (int)l->num("variant", 2);
      c.opt = l->num("opt");
      c.only = l->num("only");
      for (auto& x : l->list("res")) { auto k = x.find(':'); c.want[x.substr(0, k)].insert(x.substr(k + 1)); }
      w.ctl[c.name] = c;
      simros::world().params[w.ns + "/" + c.name + "/type"] = c.type;
    }
    faults.clear();
    for (auto* l : plan.all("fault")) faults.push_back(*l);
    for (auto* l : plan.all("op"))
    {
      Op* o = new Op;
      o->id = (int)w.ops.size();
      o->client = (int)l->num("client");
      o->kind = l->get("kind");
      o->name = l->get("name");
      o->start = l->list("start");
      o->stop = l->list("stop");
      o->strict = (int)l->num("strict", 2);
      o->asap = l->num("asap");
      o->direct = l->num("direct");
      o->force = l->num("force");
      o->timeout = l->real("timeout");
      o->fault = l->get("fault");
      o->prep = l->get("prep");
      o->slow = l->num("slow");
      o->prep_slow = l->num("prepslow");
      o->delay = l->num("delay");
      o->alloc = (int)l->num("alloc");
      o->phase = (int)l->num("phase", 1);
      o->do_throw = (int)l->num("dothrow");
      o->hw_lat = l->num("lat");
      o->hw_fin = l->get("fin", "D")[0];
      for (auto& x : l->list("hwc")) { auto p = fw::split(x, ':'); if (p.size() == 3) o->hwc[p[0]] = {strtoull(p[1].c_str(), nullptr, 10), p[2][0]}; }
      // fault lines name the plan's id
      for (auto& f : faults) if (f.has("op") && f.get("op") == l->get("id")) f.set("idx", o->id);
      w.ops.push_back(o);
    }
    simros::World& R = simros::world();
    R.ros_time = ros_ns;
    reg_single<hi::EffortJointInterface>(BASE1, "sim/E");
    reg_single<hi::PositionJointInterface>(BASE1, "sim/P");
    reg_single<hi::VelocityJointInterface>(BASE1, "sim/V");
    reg_single<hi::PosVelJointInterface>(BASE1, "sim/Q");
    reg_single<hi::JointStateInterface>(BASE1, "sim/S");
    reg_single<hi::ImuSensorInterface>(BASE1, "sim/X");
    reg_multi<false, hi::EffortJointInterface, hi::PositionJointInterface>(BASE1, "sim/M1");
    reg_multi<false, hi::VelocityJointInterface, hi::JointStateInterface, hi::EffortJointInterface>(BASE1, "sim/M2");
    reg_multi<true, hi::EffortJointInterface, hi::ImuSensorInterface, hi::PositionJointInterface>(BASE1, "sim/M3");
    reg_multi<false, hi::ImuSensorInterface, hi::EffortJointInterface>(BASE1, "sim/M4");
    reg_multi<false, hi::EffortJointInterface, hi::PositionJointInterface, hi::ImuSensorInterface>(BASE1, "sim/M5");
    reg<Own>(BASE1, "sim/O");
    reg_single<hi::EffortJointInterface>(BASE2, "sim/L2E");
    reg_single<hi::VelocityJointInterface>(BASE3, "sim/L3V");
    R.on_param = [](const std::string&) -> int { Op* o = my_op(); return o && o->fault == "noparam" ? 1 : 0; };
    R.on_declared = [](simros::LoaderHandle*, std::vector<std::string> v) { Op* o = my_op(); if (o && o->fault == "nocls") v.clear(); return v; };
    R.on_create = [](simros::LoaderHandle*, const std::string& cls, std::function<void*()> f) -> void*
    {
      Op* o = my_op();
      const char* k = o ? o->fault.c_str() : "";
      if (strcmp(k, "createthrow") == 0) { sim::count("fault_create"); throw pluginlib::CreateClassException("injected"); }
      if (strcmp(k, "createlogic") == 0) { sim::count("fault_create"); throw std::logic_error("injected"); }
      if (strcmp(k, "createint") == 0) { sim::count("fault_create"); throw 3; }
      if (strcmp(k, "createnull") == 0) { sim::count("fault_create"); return nullptr; }
      return f();
    };
    R.on_open = [](simros::LoaderHandle* h)
    {
      if (sim::cur() < 0) return;
      Op* o = my_op();
      if (!o || o->kind != "reload") { sim::fail("C14", false, "plugin loader %s is reloaded outside a reload request", h->base.c_str()); return; }
      o->reloads[h->base]++;
      for (auto* i : W->insts)
        if (!i->destroyed) { sim::fail("C14", false, "library of %s is reloaded while controller %s still exists", h->base.c_str(), S(i->name)); break; }
    };
    R.on_close = [](simros::LoaderHandle* h)
    {
      if (W->teardown || sim::cur() < 0) return;
      if (h->live) sim::fail("C14", false, "library of %s is unloaded while %d of its controllers still exist", h->base.c_str(), h->live);
    };
    Hw* hw;
    controller_manager::ControllerManager* cm;
    {
      sim::ArenaScope as;
      hw = new Hw;
      if (cfg.get("hw") == "nested")
      {
        std::vector<std::string> a, b;
        for (size_t i = 0; i < joints.size(); ++i) (i % 2 ? a : b).push_back(joints[i]);
        hw->parts.emplace_back(new Part(a));
        hw->parts.emplace_back(new Part(b));
        for (auto& p : hw->parts) hw->registerInterfaceManager(p.get());
      }
      else
      {
        hw->parts.emplace_back(new Part(joints));
        Part& p = *hw->parts[0];
        hw->registerInterface(&p.s);
        hw->registerInterface(&p.e);
        hw->registerInterface(&p.p);
        hw->registerInterface(&p.v);
        hw->registerInterface(&p.q);
      }
      cm = new controller_manager::ControllerManager(hw, ros::NodeHandle(w.ns.empty() ? "" : w.ns.substr(1)));
      w.loaders = {BASE1};
      for (int i = 0; i < (int)cfg.num("loader2"); ++i)
      {
        w.loaders.push_back(i ? BASE3 : BASE2);
        cm->registerControllerLoader(controller_manager::ControllerLoaderInterfaceSharedPtr(new controller_manager::ControllerLoader<controller_interface::ControllerBase>("sim", w.loaders.back())));
      }
    }
    g_hw = hw;
    w.rng = sim::Rng(77);
    w.clients_left = w.n_client;
    sim::on_code_sleep = call_sleeps;
    w.rt_fiber = sim::spawn("rt", [cm, this]()
    {
      rt_loop(cm);
      World1& w = world;
      while (w.clients_left > 0) sim::sleep_ns(100000);
      sim::sync_all();
      { NoSim ns; w.teardown = true; sim::ev("teardown"); }
      delete cm;
      delete g_hw;
      NoSim ns;
      for (auto* i : w.insts) if (!i->destroyed) sim::fail("C12", false, "controller instance %d (%s) is never destroyed", i->id, S(i->name));
    });
    for (int c = 0; c < w.n_client; ++c)
      sim::spawn("client" + std::to_string(c), [cm, c, this]()
      {
        World1& w = world;
        if (c == 0)
        {
          for (auto* o : w.ops) if (o->client == 0 && o->phase == 0) run_op(cm, o);
          w.phase0 = true;
        }
        else while (!w.phase0) sim::sleep_ns(150000);
        for (size_t i = 0; i < w.ops.size(); ++i)
        {
          Op* o = w.ops[i];
          if (o->client == c && o->phase != 0) run_op(cm, o);
        }
        if (--w.clients_left == 0)
        {
          if (!w.shutdown)
          {
            Op* o;
            {
              NoSim ns;
              o = new Op;
              o->id = (int)w.ops.size();
              o->kind = "list";
              o->client = c;
              w.ops.push_back(o);
            }
            ++w.clients_left;
            run_op(cm, o);
            --w.clients_left;
          }
          w.rt_end_cycle = w.cycle + 4;
        }
      });
    sim::spawn("monitor", []() { monitor(); }, true);
    for (size_t i = 0; i < faults.size() && i < 4; ++i)
      sim::spawn("fault" + std::to_string(i), [i, this]()
      {
        const Line& l = faults[i];
        World1& w = world;
        if (l.has("at")) sim::sleep_ns(l.num("at"));
        else
        {
          int k = (int)l.num("idx", -1);
          bool prep = l.num("prep");
          if (k < 0) return;
          while (!(w.ops[k]->done || (prep ? w.ops[k]->accepted : w.ops[k]->called))) sim::sleep_ns(100000);
          sim::sleep_ns(l.num("after"));
        }
        do_fault(l);
      }, true);
    sim::run_fibers();
    if (sim::halted()) return;
    linearize();
  }
  void linearize()
  {
    World1& w = world;
    std::vector<Op*> ops;
    for (auto* o : w.ops)
      if (o->done && o->kind != "types") ops.push_back(o);
    if (ops.size() > 60) return;
    ModelEnv env;
    env.policy = w.policy;
    env.loaders = w.loaders;
    env.loadable = [&](const std::string& n)
    {
      auto it = w.ctl.find(n);
      if (it == w.ctl.end()) return false;
      std::string t = it->second.type;
      if (t == "sim/X" || t == "sim/none" || t == "sim/M4" || t == "sim/M5") return false;
      if (t == "sim/L2E" && w.loaders.size() < 2) return false;
      if (t == "sim/L3V" && w.loaders.size() < 3) return false;
      if (t != "sim/O" && !it->second.opt) for (auto& x : it->second.want) if (x.second.count("nojoint")) return false;
      return true;
    };
    env.type_of = [&](const std::string& n) { auto it = w.ctl.find(n); return it == w.ctl.end() ? std::string() : it->second.type; };
    env.claims_of = [&](int i) { return i >= 0 && i < (int)w.insts.size() ? w.insts[i]->claims : Claims(); };
    Linearizer L(ops, env);
    if (!L.go(0, 0, MState()))
    {
      std::string props = L.why.props;
      if (w.n_client > 1 && props.find("C13") == std::string::npos) props += ",C13";
      sim::fail(props.c_str(), false, "%s%s", S(L.why.msg), w.n_client > 1 ? " (in every sequential order)" : "");
    }
    if (L.gave_up) sim::count("linearize_gave_up");
  }
};
}  // namespace

int main(int argc, char** argv)
{
  static CmWorld w;
  return fw::main_(argc, argv, w);
}

// Robots whose parts register handles, interfaces and nested managers while clients look them up and a realtime loop
// uses what they got. Decides C32.
#include "../core/framework.h"
#include "../stubs/simworld.h"

#include <hardware_interface/actuator_command_interface.h>
#include <hardware_interface/actuator_state_interface.h>
#include <hardware_interface/force_torque_sensor_interface.h>
#include <hardware_interface/imu_sensor_interface.h>
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/joint_mode_interface.h>
#include <hardware_interface/joint_state_interface.h>
#include <hardware_interface/position_velocity_torque_gains_command_interface.h>
#include <hardware_interface/posvel_command_interface.h>
#include <hardware_interface/posvelacc_command_interface.h>
#include <hardware_interface/robot_hw.h>

#include <algorithm>
#include <atomic>
#include <cstring>
#include <memory>
#include <mutex>
#include <set>

using fw::Line;
using fw::Plan;
using sim::NoSim;
namespace hi = hardware_interface;

namespace
{
const char* S(const std::string& s) { return s.c_str(); }
#define BAD(...) sim::fail("C32", false, __VA_ARGS__)

// slots of a cell of storage
enum { POS, VEL, EFF, ABS, TOR, C0, C1, C2, C3, C4, ORI, OCOV = ORI + 4, ANG = OCOV + 9, ACOV = ANG + 3, LIN = ACOV + 9, LCOV = LIN + 3, FORCE = LCOV + 9, TORQUE = FORCE + 3, SLOTS = TORQUE + 3 };
const int CELLS = 6;
struct Cell
{
  double v[SLOTS];
  hi::JointCommandModes mode;
};

// How a handle was made: the cell, the optional data it has, its frame
struct Spec
{
  int cell = 0, opt = 0;  // opt: 1 absolute position, 2 torque sensor
  std::string frame;
  bool operator==(const Spec& o) const { return cell == o.cell && opt == o.opt && frame == o.frame; }
};

// An interface defined by a user: resources without claiming, and not a hardware interface
struct OwnHandle
{
  std::string name;
  double* d = nullptr;
  std::string getName() const { return name; }
};
struct OwnInterface : hi::ResourceManager<OwnHandle> {};
struct OwnJointInterface : hi::HardwareResourceManager<hi::JointHandle, hi::ClaimResources> {};
struct OddInterface : hi::HardwareInterface {};   // not made of resources

// ---- how handles are made, and what their accessors must refer to
typedef hi::JointStateHandle JS;
typedef hi::ActuatorStateHandle AS;
template <class H> H make_state(const std::string& n, Cell& c, int opt, int nul)
{
  double* p[5];
  for (int i = 0; i < 5; ++i) p[i] = i == nul ? nullptr : &c.v[POS + i];
  switch (opt)
  {
    case 0: return H(n, p[0], p[1], p[2]);
    case 1: return H(n, p[0], p[1], p[2], p[3]);
    case 2: return H(n, p[0], p[1], p[2], p[4], true);
    default: return H(n, p[0], p[1], p[2], p[3], p[4]);
  }
}
bool null_matters_state(int opt, int nul) { return nul >= 0 && (nul < 3 || (nul == 3 && (opt & 1)) || (nul == 4 && (opt & 2))); }

struct Use  // collects the differences between a handle and its cell
{
  Cell& c;
  const Spec& s;
  std::string bad;
  Use(Cell& c_, const Spec& s_) : c(c_), s(s_) {}
  void same(const char* what, int slot, double got) { if (memcmp(&got, &c.v[slot], sizeof got)) note(what); }
  void ptr(const char* what, int slot, const double* got) { if (got != &c.v[slot]) note(what); }
  void note(const char* what) { if (bad.empty()) bad = what; }
};
template <class H> void use_state(const H& h, Use& u)
{
  u.same("getPosition", POS, h.getPosition());
  u.same("getVelocity", VEL, h.getVelocity());
  u.same("getEffort", EFF, h.getEffort());
  u.ptr("getPositionPtr", POS, h.getPositionPtr());
  u.ptr("getVelocityPtr", VEL, h.getVelocityPtr());
  u.ptr("getEffortPtr", EFF, h.getEffortPtr());
  if (h.hasAbsolutePosition() != !!(u.s.opt & 1)) u.note("hasAbsolutePosition");
  if (h.hasTorqueSensor() != !!(u.s.opt & 2)) u.note("hasTorqueSensor");
  for (int k = 0; k < 4; ++k)
  {
    bool has = u.s.opt & (k < 2 ? 1 : 2), threw = false;
    try
    {
      if (k == 0) u.same("getAbsolutePosition", ABS, h.getAbsolutePosition());
      if (k == 1) u.ptr("getAbsolutePositionPtr", ABS, h.getAbsolutePositionPtr());
      if (k == 2) u.same("getTorqueSensor", TOR, h.getTorqueSensor());
      if (k == 3) u.ptr("getTorqueSensorPtr", TOR, h.getTorqueSensorPtr());
    }
    catch (const std::runtime_error&) { threw = true; }
    if (threw == has) u.note(k < 2 ? "absolute position" : "torque sensor");
  }
}
// Writes a fresh value through a setter and expects exactly that slot to change.
struct Cmd
{
  Cell& c;
  double next;
  std::string bad;
  explicit Cmd(Cell& c_, double n) : c(c_), next(n) {}
  template <class F, class G> void one(const char* what, std::vector<int> slots, F set, G get)
  {
    std::vector<double> v;
    Cell before = c;
    for (int s : slots) { v.push_back(next); before.v[s] = next; next += 0.001; }
    set(v);
    if (memcmp(&before, &c, sizeof c)) { if (bad.empty()) bad = what; return; }
    for (size_t i = 0; i < slots.size(); ++i) if (get((int)i) != v[i] && bad.empty()) bad = std::string("reading back ") + what;
  }
};

template <class H> struct Ops;
template <> struct Ops<JS>
{
  static JS make(const std::string& n, Cell& c, const Spec& s, int nul) { return make_state<JS>(n, c, s.opt, nul); }
  static bool null_matters(const Spec& s, int nul) { return null_matters_state(s.opt, nul); }
  static void use(JS& h, Use& u) { use_state(h, u); }
  static void cmd(JS&, Cmd&) {}
};
template <> struct Ops<AS>
{
  static AS make(const std::string& n, Cell& c, const Spec& s, int nul) { return make_state<AS>(n, c, s.opt, nul); }
  static bool null_matters(const Spec& s, int nul) { return null_matters_state(s.opt, nul); }
  static void use(AS& h, Use& u) { use_state(h, u); }
  static void cmd(AS&, Cmd&) {}
};
double* cp(Cell& c, int k, int nul) { return nul == 5 + k ? nullptr : &c.v[C0 + k]; }
template <class H, class B, int N> struct CmdOps
{
  static B base(const std::string& n, Cell& c, const Spec& s, int nul) { return make_state<B>(n, c, s.opt, nul); }
  static bool null_matters(const Spec& s, int nul) { return null_matters_state(s.opt, nul) || (nul >= 5 && nul < 5 + N); }
  static void use(H& h, Use& u) { use_state(h, u); }
};
template <class H, class B> struct OneCmd : CmdOps<H, B, 1>
{
  static H make(const std::string& n, Cell& c, const Spec& s, int nul) { return H(CmdOps<H, B, 1>::base(n, c, s, nul), cp(c, 0, nul)); }
  static void use(H& h, Use& u)
  {
    use_state(h, u);
    u.same("getCommand", C0, h.getCommand());
    u.ptr("getCommandPtr", C0, h.getCommandPtr());
  }
  static void cmd(H& h, Cmd& m) { m.one("setCommand", {C0}, [&](const std::vector<double>& v) { h.setCommand(v[0]); }, [&](int) { return h.getCommand(); }); }
};
template <> struct Ops<hi::JointHandle> : OneCmd<hi::JointHandle, JS> {};
template <> struct Ops<hi::ActuatorHandle> : OneCmd<hi::ActuatorHandle, AS> {};
template <class H> void use_pv(H& h, Use& u)
{
  use_state(h, u);
  u.same("getCommandPosition", C0, h.getCommandPosition());
  u.same("getCommandVelocity", C1, h.getCommandVelocity());
}
template <class H> void cmd_pv(H& h, Cmd& m)
{
  m.one("setCommandPosition", {C0}, [&](const std::vector<double>& v) { h.setCommandPosition(v[0]); }, [&](int) { return h.getCommandPosition(); });
  m.one("setCommandVelocity", {C1}, [&](const std::vector<double>& v) { h.setCommandVelocity(v[0]); }, [&](int) { return h.getCommandVelocity(); });
}
template <> struct Ops<hi::PosVelJointHandle> : CmdOps<hi::PosVelJointHandle, JS, 2>
{
  typedef hi::PosVelJointHandle H;
  static H make(const std::string& n, Cell& c, const Spec& s, int nul) { return H(base(n, c, s, nul), cp(c, 0, nul), cp(c, 1, nul)); }
  static void use(H& h, Use& u) { use_pv(h, u); }
  static void cmd(H& h, Cmd& m)
  {
    cmd_pv(h, m);
    m.one("setCommand", {C0, C1}, [&](const std::vector<double>& v) { h.setCommand(v[0], v[1]); }, [&](int i) { return i ? h.getCommandVelocity() : h.getCommandPosition(); });
  }
};
template <> struct Ops<hi::PosVelAccJointHandle> : CmdOps<hi::PosVelAccJointHandle, JS, 3>
{
  typedef hi::PosVelAccJointHandle H;
  static H make(const std::string& n, Cell& c, const Spec& s, int nul) { return H(base(n, c, s, nul), cp(c, 0, nul), cp(c, 1, nul), cp(c, 2, nul)); }
  static double get(H& h, int i) { return i == 0 ? h.getCommandPosition() : i == 1 ? h.getCommandVelocity() : h.getCommandAcceleration(); }
  static void use(H& h, Use& u) { use_pv(h, u); u.same("getCommandAcceleration", C2, h.getCommandAcceleration()); }
  static void cmd(H& h, Cmd& m)
  {
    cmd_pv(h, m);
    m.one("setCommandAcceleration", {C2}, [&](const std::vector<double>& v) { h.setCommandAcceleration(v[0]); }, [&](int) { return h.getCommandAcceleration(); });
    m.one("setCommand", {C0, C1, C2}, [&](const std::vector<double>& v) { h.setCommand(v[0], v[1], v[2]); }, [&](int i) { return get(h, i); });
  }
};
template <> struct Ops<hi::PositionVelocityTorqueGainsJointHandle> : CmdOps<hi::PositionVelocityTorqueGainsJointHandle, JS, 5>
{
  typedef hi::PositionVelocityTorqueGainsJointHandle H;
  static H make(const std::string& n, Cell& c, const Spec& s, int nul) { return H(base(n, c, s, nul), cp(c, 0, nul), cp(c, 1, nul), cp(c, 2, nul), cp(c, 3, nul), cp(c, 4, nul)); }
  static double get(H& h, int i) { return i == 0 ? h.getCommandPosition() : i == 1 ? h.getCommandVelocity() : i == 2 ? h.getCommandEffort() : i == 3 ? h.getCommandKp() : h.getCommandKd(); }
  static void use(H& h, Use& u)
  {
    use_pv(h, u);
    u.same("getCommandEffort", C2, h.getCommandEffort());
    u.same("getCommandKp", C3, h.getCommandKp());
    u.same("getCommandKd", C4, h.getCommandKd());
  }
  static void cmd(H& h, Cmd& m)
  {
    cmd_pv(h, m);
    m.one("setCommandEffort", {C2}, [&](const std::vector<double>& v) { h.setCommandEffort(v[0]); }, [&](int) { return h.getCommandEffort(); });
    m.one("setCommandKp", {C3}, [&](const std::vector<double>& v) { h.setCommandKp(v[0]); }, [&](int) { return h.getCommandKp(); });
    m.one("setCommandKd", {C4}, [&](const std::vector<double>& v) { h.setCommandKd(v[0]); }, [&](int) { return h.getCommandKd(); });
    m.one("setCommand", {C0, C1, C2, C3, C4}, [&](const std::vector<double>& v) { h.setCommand(v[0], v[1], v[2], v[3], v[4]); }, [&](int i) { return get(h, i); });
  }
};
template <> struct Ops<hi::JointModeHandle>
{
  typedef hi::JointModeHandle H;
  static H make(const std::string& n, Cell& c, const Spec&, int nul) { return H(n, nul == 0 ? nullptr : &c.mode); }
  static bool null_matters(const Spec&, int nul) { return nul == 0; }
  static void use(H& h, Use& u)
  {
    if (h.getMode() != u.c.mode) u.note("getMode");
    if (h.getModePtr() != &u.c.mode) u.note("getModePtr");
  }
  static void cmd(H& h, Cmd& m)
  {
    auto want = (hi::JointCommandModes)((int)(m.next * 1000) % 8 - 1);
    Cell before = m.c;
    before.mode = want;
    h.setMode(want);
    if (memcmp(&before, &m.c, sizeof before) || h.getMode() != want) m.bad = "setMode";
  }
};
template <> struct Ops<hi::ImuSensorHandle>
{
  typedef hi::ImuSensorHandle H;
  static H make(const std::string& n, Cell& c, const Spec& s, int nul)
  {
    static const int at[6] = {ORI, OCOV, ANG, ACOV, LIN, LCOV};
    double* p[6];
    for (int i = 0; i < 6; ++i) p[i] = &c.v[at[i]];
    if (nul >= 0) {}  // readings may be missing; the specification of the handle says which are there
    if (s.opt & 1) p[0] = p[1] = nullptr;
    if (s.opt & 2) p[4] = p[5] = nullptr;
    if (s.cell % 2) return H(n, s.frame, p[0], p[1], p[2], p[3], p[4], p[5]);
    H::Data d;
    d.name = n;
    d.frame_id = s.frame;
    d.orientation = p[0];
    d.orientation_covariance = p[1];
    d.angular_velocity = p[2];
    d.angular_velocity_covariance = p[3];
    d.linear_acceleration = p[4];
    d.linear_acceleration_covariance = p[5];
    return H(d);
  }
  static bool null_matters(const Spec&, int) { return false; }
  static void use(H& h, Use& u)
  {
    if (h.getFrameId() != u.s.frame) u.note("getFrameId");
    auto is = [&](const char* what, const double* got, int slot, bool missing) { if (got != (missing ? nullptr : &u.c.v[slot])) u.note(what); };
    is("getOrientation", h.getOrientation(), ORI, u.s.opt & 1);
    is("getOrientationCovariance", h.getOrientationCovariance(), OCOV, u.s.opt & 1);
    is("getAngularVelocity", h.getAngularVelocity(), ANG, false);
    is("getAngularVelocityCovariance", h.getAngularVelocityCovariance(), ACOV, false);
    is("getLinearAcceleration", h.getLinearAcceleration(), LIN, u.s.opt & 2);
    is("getLinearAccelerationCovariance", h.getLinearAccelerationCovariance(), LCOV, u.s.opt & 2);
  }
  static void cmd(H&, Cmd&) {}
};
template <> struct Ops<hi::ForceTorqueSensorHandle>
{
  typedef hi::ForceTorqueSensorHandle H;
  static H make(const std::string& n, Cell& c, const Spec& s, int) { return H(n, s.frame, &c.v[FORCE], &c.v[TORQUE]); }
  static bool null_matters(const Spec&, int) { return false; }
  static void use(H& h, Use& u)
  {
    if (h.getFrameId() != u.s.frame) u.note("getFrameId");
    u.ptr("getForce", FORCE, h.getForce());
    u.ptr("getTorque", TORQUE, h.getTorque());
  }
  static void cmd(H&, Cmd&) {}
};
template <> struct Ops<OwnHandle>
{
  static OwnHandle make(const std::string& n, Cell& c, const Spec&, int) { OwnHandle h; h.name = n; h.d = &c.v[C0]; return h; }
  static bool null_matters(const Spec&, int) { return false; }
  static void use(OwnHandle& h, Use& u) { u.ptr("its data", C0, h.d); }
  static void cmd(OwnHandle&, Cmd&) {}
};

// ---- handles and interfaces of all kinds behind one face
struct AnyHandle
{
  virtual ~AnyHandle() {}
  virtual std::string name() = 0;
  virtual std::string use(Cell& c, const Spec& s) = 0;         // what is wrong, or nothing
  virtual std::string command(Cell& c, double next) = 0;
  virtual std::unique_ptr<AnyHandle> copy() = 0;
};
template <class H> struct TypedHandle : AnyHandle
{
  H h;
  explicit TypedHandle(const H& o) : h(o) {}
  std::string name() override { return h.getName(); }
  std::string use(Cell& c, const Spec& s) override { Use u(c, s); Ops<H>::use(h, u); return u.bad; }
  std::string command(Cell& c, double next) override { Cmd m(c, next); Ops<H>::cmd(h, m); return m.bad; }
  std::unique_ptr<AnyHandle> copy() override { return std::unique_ptr<AnyHandle>(new TypedHandle<H>(h)); }
};
struct Iface
{
  int kind = 0;
  virtual ~Iface() {}
  virtual void* ptr() = 0;
  virtual void add(const std::string& n, Cell& c, const Spec& s, int nul) = 0;  // makes a handle and registers it
  virtual void regist(hi::InterfaceManager& m) = 0;
};
struct Kind
{
  std::string id;
  bool claims = false, plain = false, odd = false;
  virtual ~Kind() {}
  virtual std::unique_ptr<Iface> create() = 0;
  virtual std::string type() = 0;
  virtual void* get(hi::InterfaceManager& m) = 0;
  virtual std::vector<std::string> names(void* p) = 0;
  virtual std::unique_ptr<AnyHandle> handle(void* p, const std::string& n) = 0;
  virtual std::set<std::string> get_claims(void* p) = 0;
  virtual void clear(void* p) = 0;
  virtual bool null_matters(const Spec& s, int nul) = 0;
};
template <class I, class H> struct IfaceOf : Iface
{
  I i;
  void* ptr() override { return &i; }
  void add(const std::string& n, Cell& c, const Spec& s, int nul) override { i.registerHandle(Ops<H>::make(n, c, s, nul)); }
  void regist(hi::InterfaceManager& m) override { m.registerInterface(&i); }
};
struct Claimer
{
  template <class I> static std::set<std::string> get(I* i, typename std::enable_if<std::is_base_of<hi::HardwareInterface, I>::value>::type* = nullptr) { return i->getClaims(); }
  template <class I> static std::set<std::string> get(I*, typename std::enable_if<!std::is_base_of<hi::HardwareInterface, I>::value>::type* = nullptr) { return {}; }
  template <class I> static void clear(I* i, typename std::enable_if<std::is_base_of<hi::HardwareInterface, I>::value>::type* = nullptr) { i->clearClaims(); }
  template <class I> static void clear(I*, typename std::enable_if<!std::is_base_of<hi::HardwareInterface, I>::value>::type* = nullptr) {}
};
template <class I, class H> struct KindOf : Kind
{
  KindOf(const char* i, bool c) { id = i; claims = c; plain = !std::is_base_of<hi::HardwareInterface, I>::value; }
  std::unique_ptr<Iface> create() override { return std::unique_ptr<Iface>(new IfaceOf<I, H>); }
  std::string type() override { return hi::internal::demangledTypeName<I>(); }
  void* get(hi::InterfaceManager& m) override { return m.get<I>(); }
  std::vector<std::string> names(void* p) override { return static_cast<I*>(p)->getNames(); }
  std::unique_ptr<AnyHandle> handle(void* p, const std::string& n) override
  {
    H h = static_cast<I*>(p)->getHandle(n);
    NoSim ns;
    return std::unique_ptr<AnyHandle>(new TypedHandle<H>(h));
  }
  std::set<std::string> get_claims(void* p) override { return Claimer::get(static_cast<I*>(p)); }
  void clear(void* p) override { Claimer::clear(static_cast<I*>(p)); }
  bool null_matters(const Spec& s, int nul) override { return Ops<H>::null_matters(s, nul); }
};
struct OddIface : Iface
{
  OddInterface i;
  void* ptr() override { return &i; }
  void add(const std::string&, Cell&, const Spec&, int) override {}
  void regist(hi::InterfaceManager& m) override { m.registerInterface(&i); }
};
struct OddKind : Kind
{
  OddKind() { id = "odd"; odd = true; }
  std::unique_ptr<Iface> create() override { return std::unique_ptr<Iface>(new OddIface); }
  std::string type() override { return hi::internal::demangledTypeName<OddInterface>(); }
  void* get(hi::InterfaceManager& m) override { return m.get<OddInterface>(); }
  std::vector<std::string> names(void*) override { return {}; }
  std::unique_ptr<AnyHandle> handle(void*, const std::string&) override { return nullptr; }
  std::set<std::string> get_claims(void* p) override { return static_cast<OddInterface*>(p)->getClaims(); }
  void clear(void* p) override { static_cast<OddInterface*>(p)->clearClaims(); }
  bool null_matters(const Spec&, int) override { return false; }
};
std::vector<std::unique_ptr<Kind>>& kinds()
{
  static std::vector<std::unique_ptr<Kind>> k;
  if (k.empty())
  {
    auto add = [&](Kind* x) { k.emplace_back(x); };
    add(new KindOf<hi::JointStateInterface, JS>("js", false));
    add(new KindOf<hi::JointCommandInterface, hi::JointHandle>("jc", true));
    add(new KindOf<hi::EffortJointInterface, hi::JointHandle>("je", true));
    add(new KindOf<hi::VelocityJointInterface, hi::JointHandle>("jv", true));
    add(new KindOf<hi::PositionJointInterface, hi::JointHandle>("jp", true));
    add(new KindOf<hi::PosVelJointInterface, hi::PosVelJointHandle>("pv", true));
    add(new KindOf<hi::PosVelAccJointInterface, hi::PosVelAccJointHandle>("pva", true));
    add(new KindOf<hi::PositionVelocityTorqueGainsJointInterface, hi::PositionVelocityTorqueGainsJointHandle>("pvt", true));
    add(new KindOf<hi::JointModeInterface, hi::JointModeHandle>("jm", false));
    add(new KindOf<hi::ActuatorStateInterface, AS>("as", false));
    add(new KindOf<hi::ActuatorCommandInterface, hi::ActuatorHandle>("ac", false));
    add(new KindOf<hi::EffortActuatorInterface, hi::ActuatorHandle>("ae", false));
    add(new KindOf<hi::VelocityActuatorInterface, hi::ActuatorHandle>("av", false));
    add(new KindOf<hi::PositionActuatorInterface, hi::ActuatorHandle>("ap", false));
    add(new KindOf<hi::ImuSensorInterface, hi::ImuSensorHandle>("imu", false));
    add(new KindOf<hi::ForceTorqueSensorInterface, hi::ForceTorqueSensorHandle>("ft", false));
    add(new KindOf<OwnInterface, OwnHandle>("own", false));
    add(new KindOf<OwnJointInterface, hi::JointHandle>("ownj", true));
    add(new OddKind);
  }
  return k;
}
int kind_index(const std::string& id)
{
  for (size_t i = 0; i < kinds().size(); ++i) if (kinds()[i]->id == id) return (int)i;
  return -1;
}

// ---- the model
struct MIface
{
  std::unique_ptr<Iface> obj;
  int kind = 0;
  std::map<std::string, Spec> handles;
};
struct MMgr
{
  std::unique_ptr<hi::RobotHW> obj;
  std::map<int, int> ifaces;          // kind -> interface
  std::vector<int> subs;
};
struct Held
{
  std::unique_ptr<AnyHandle> h;
  Spec spec;
  std::string what;
};
struct HW
{
  std::vector<MIface> ifaces;
  std::vector<MMgr> mgrs;
  std::map<void*, std::set<std::string>> claims;
  std::map<std::pair<int, int>, std::pair<void*, std::vector<void*>>> combos;  // (manager, kind) -> what was handed out for which interfaces
  std::vector<std::unique_ptr<Held>> held;
  Cell cells[CELLS];
  Cell model[CELLS];
  double next = 1;
  int clients = 0;
};
HW* W = nullptr;

struct HardwareWorld : fw::World
{
  std::unique_ptr<HW> w_;
  std::vector<std::string> properties() override { return {"C32"}; }

  Plan generate(const std::string&, sim::Rng& r, bool thorough) override
  {
    Plan pl;
    int nm = r.range(1, r.chance(0.3) ? 6 : 4), ni = r.range(1, r.chance(0.3) ? 12 : 6);
    int focus = r.range(1, 3);
    std::vector<std::string> ks;
    for (int i = 0; i < focus; ++i) ks.push_back(kinds()[r.below(kinds().size())]->id);
    std::vector<int> parent(nm, -1);
    pl.add("cfg").set("mgrs", nm).set("clients", r.range(1, 2)).set("cycle", r.pick(std::vector<long long>{20000, 100000, 1000000}));
    std::vector<std::string> ik;
    for (int i = 0; i < ni; ++i) { ik.push_back(r.pick(ks)); pl.add("iface").set("kind", ik.back()); }
    std::vector<std::string> names = {"a", "b", "arm/joint_with_a_long_name_1", "c", "", "arm/joint_with_a_long_name_2"};
    names.resize(r.range(1, (int)names.size()));
    std::vector<std::string> frames = {"", "base", "a_frame_with_quite_a_long_name_in_it"};
    int n = r.range(3, thorough ? 80 : 40);
    double late = r.chance(0.5) ? 0.5 : 0.9;  // whether all is registered before it is looked up
    double pa = r.chance(0.35) ? r.uniform(0.05, 0.4) : 0;
    if (r.chance(0.75))  // a robot that has been brought up to some extent
    {
      std::vector<Line> ls;
      double sub = r.chance(0.5) ? 1 : 0.5, reg = r.chance(0.6) ? 1 : 0.5;
      for (int b = 1; b < nm; ++b) if (r.chance(sub)) ls.push_back(Line("op").set("kind", "sub").set("mgr", r.chance(0.6) ? 0 : r.range(0, b - 1)).set("sub", b));
      for (int i = 0; i < ni; ++i)
      {
        if (r.chance(reg)) ls.push_back(Line("op").set("kind", "iface").set("mgr", r.range(0, nm - 1)).set("iface", i));
        for (int k = r.range(0, 3); k > 0; --k) ls.push_back(Line("op").set("kind", "handle").set("iface", i).set("name", r.pick(names)).set("cell", r.range(0, CELLS - 1)).set("opt", r.range(0, 3)).set("frame", r.pick(frames)));
      }
      for (size_t i = ls.size(); i > 1; --i) std::swap(ls[i - 1], ls[r.below(i)]);
      for (auto& l : ls) pl.lines.push_back(l);
    }
    for (int i = 0; i < n; ++i)
    {
      Line& o = pl.add("op");
      double ph = (double)i / n;
      bool setup = r.chance(late > 0.6 ? (ph < 0.5 ? 0.95 : 0.1) : 0.5);
      std::string kind = "look";
      if (setup)
      {
        double x = r.unit();
        kind = x < 0.55 ? "handle" : x < 0.85 ? "iface" : "sub";
      }
      else { double x = r.unit(); kind = x < 0.72 ? "look" : x < 0.82 ? "list" : x < 0.92 ? "clear" : "policy"; }
      if (kind == "sub" && nm < 2) kind = "handle";
      o.set("kind", kind).set("client", r.range(0, 1)).set("delay", (long long)r.below(r.chance(0.3) ? 3000000 : 50000));
      if (r.chance(pa)) o.set("alloc", r.range(1, 12));
      if (kind == "handle")
      {
        o.set("iface", r.range(0, ni - 1)).set("name", r.pick(names)).set("cell", r.range(0, CELLS - 1)).set("opt", r.chance(0.5) ? 0 : r.range(0, 3)).set("frame", r.pick(frames));
        if (r.chance(0.1)) o.set("null", r.range(0, 9));
      }
      else if (kind == "iface") o.set("mgr", r.range(0, nm - 1)).set("iface", r.range(0, ni - 1));
      else if (kind == "sub")
      {
        int b = r.range(1, nm - 1);
        o.set("mgr", r.range(0, b - 1)).set("sub", b);
      }
      else if (kind == "look" || kind == "clear")
      {
        o.set("mgr", r.chance(0.6) ? 0 : r.range(0, nm - 1)).set("type", r.chance(0.9) ? r.pick(ks) : kinds()[r.below(kinds().size())]->id);
        if (kind == "look") o.set("name", r.chance(0.9) ? r.pick(names) : std::string("unknown")).set("hold", r.chance(0.6) ? 1 : 0);
      }
      else if (kind == "list") o.set("mgr", r.chance(0.6) ? 0 : r.range(0, nm - 1));
      else o.set("seed", (long long)r.below(1000000));
    }
    return pl;
  }

  // all interfaces of a kind registered with a manager and the managers below it, as lookups reach them
  void reach(int m, int k, std::vector<int>& out)
  {
    MMgr& g = W->mgrs[m];
    auto it = g.ifaces.find(k);
    if (it != g.ifaces.end()) out.push_back(it->second);
    for (int s : g.subs) reach(s, k, out);
  }
  std::map<std::string, Spec> offered(const std::vector<int>& l)
  {
    std::map<std::string, Spec> m;
    for (int i : l) for (auto& h : W->ifaces[i].handles) m[h.first] = h.second;
    return m;
  }
  static std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += "'" + x + "' "; return s; }

  void check_storage(const char* when)
  {
    for (int c = 0; c < CELLS; ++c)
      if (memcmp(W->cells[c].v, W->model[c].v, sizeof W->cells[c].v) || W->cells[c].mode != W->model[c].mode) { BAD("the data of the robot (cell %d) changed %s", c, when); W->model[c] = W->cells[c]; }
  }
  // A handle must refer to the data it was registered with, whatever has been registered since.
  void check_handle(Held& h)
  {
    sim::count("chk_C32");
    check_storage("without anybody commanding it");
    Cell& c = W->cells[h.spec.cell];
    std::string bad = h.h->use(c, h.spec);
    if (!bad.empty()) { BAD("%s: %s does not refer to the data it was registered with", S(h.what), S(bad)); return; }
    check_storage("by reading a handle");
    Cell saved = c;
    bad = h.h->command(c, W->next);
    W->next += 1;
    if (!bad.empty()) { BAD("%s: %s does not act on the data it was registered with alone", S(h.what), S(bad)); }
    (void)saved;
    W->model[h.spec.cell] = c;
    check_storage("by commanding another handle");
  }

  template <class F> bool attempt(const Line& o, F f)  // false: an allocation failed
  {
    int a = (int)o.num("alloc");
    bool ok = true;
    if (a > 0) sim::arm_alloc_fail(a);
    try { f(); }
    catch (const std::bad_alloc&) { ok = false; }
    bool fired = sim::alloc_fail_fired();
    if (!ok && !fired) { BAD("an allocation failed without memory being short"); }
    if (!ok) { NoSim ns; sim::count("ev_alloc_failed_op"); }
    return ok;
  }

  void do_handle(const Line& o)
  {
    int i = (int)o.num("iface", -1);
    if (i < 0 || i >= (int)W->ifaces.size()) return;
    MIface& f = W->ifaces[i];
    Spec s;
    s.cell = (int)o.num("cell") % CELLS;
    s.opt = (int)o.num("opt") & 3;
    s.frame = o.get("frame");
    std::string n = o.get("name");
    int nul = (int)o.num("null", -1);
    Kind& K = *kinds()[f.kind];
    if (K.odd) return;
    bool refuse = K.null_matters(s, nul), refused = false, other = false;
    bool ok = attempt(o, [&]()
    {
      try { f.obj->add(n, W->cells[s.cell], s, nul); }
      catch (const hi::HardwareInterfaceException&) { refused = true; }
      catch (const std::bad_alloc&) { throw; }
      catch (const std::exception&) { other = true; }
    });
    NoSim ns;
    sim::ev("register handle '%s' of %s %d: %s", S(n), S(K.id), i, !ok ? "no memory" : refused ? "refused" : "ok");
    if (other) { BAD("registering handle '%s' of %s raises an exception of another type", S(n), S(K.id)); return; }
    if (refuse && !refused && ok) { BAD("a handle '%s' of %s without the data it needs (%d) is accepted", S(n), S(K.id), nul); return; }
    if (!refuse && refused) { BAD("a handle '%s' of %s that has all its data is refused", S(n), S(K.id)); return; }
    if (refused) { sim::count("ev_handle_refused"); return; }
    if (ok) { if (f.handles.count(n)) sim::count("ev_handle_replaced"); f.handles[n] = s; return; }
    // failed for lack of memory: either registered or as before
    auto now = K.names(f.obj->ptr());
    bool there = std::find(now.begin(), now.end(), n) != now.end();
    if (!there) { if (f.handles.count(n)) BAD("a failing registration removed handle '%s' of %s", S(n), S(K.id)); return; }
    auto claims = K.get_claims(f.obj->ptr());
    std::unique_ptr<AnyHandle> h = K.handle(f.obj->ptr(), n);
    if (K.claims && !claims.count(n)) { auto c = W->claims[f.obj->ptr()]; K.clear(f.obj->ptr()); for (auto& x : c) K.handle(f.obj->ptr(), x); }
    if (h->use(W->cells[s.cell], s).empty()) f.handles[n] = s;
    else if (!f.handles.count(n) || !h->use(W->cells[f.handles[n].cell], f.handles[n]).empty()) BAD("a failing registration left handle '%s' of %s in pieces", S(n), S(K.id));
  }
  void do_iface(const Line& o)
  {
    int m = (int)o.num("mgr", -1), i = (int)o.num("iface", -1);
    if (m < 0 || m >= (int)W->mgrs.size() || i < 0 || i >= (int)W->ifaces.size()) return;
    MMgr& g = W->mgrs[m];
    MIface& f = W->ifaces[i];
    bool ok = attempt(o, [&]() { f.obj->regist(*g.obj); });
    if (!ok) f.obj->regist(*g.obj);  // the robot tries again
    NoSim ns;
    sim::ev("manager %d: register %s %d%s", m, S(kinds()[f.kind]->id), i, ok ? "" : " again after running out of memory");
    if (g.ifaces.count(f.kind) && g.ifaces[f.kind] != i) sim::count("ev_iface_replaced");
    g.ifaces[f.kind] = i;
  }
  bool below(int m, int s) { if (m == s) return true; for (int x : W->mgrs[m].subs) if (below(x, s)) return true; return false; }
  void do_sub(const Line& o)
  {
    int m = (int)o.num("mgr", -1), s = (int)o.num("sub", -1);
    if (m < 0 || s < 0 || m >= (int)W->mgrs.size() || s >= (int)W->mgrs.size()) return;
    for (auto& g : W->mgrs) if (std::find(g.subs.begin(), g.subs.end(), s) != g.subs.end()) return;  // a part belongs to one robot
    if (below(s, m)) return;
    bool ok = attempt(o, [&]() { W->mgrs[m].obj->registerInterfaceManager(W->mgrs[s].obj.get()); });
    NoSim ns;
    sim::ev("manager %d: register manager %d%s", m, s, ok ? "" : ": no memory");
    if (ok) { W->mgrs[m].subs.push_back(s); sim::count("ev_nested"); }
  }
  // Looks up an interface and checks that it is what it must be. Null if there is none, or on lack of memory (ok false).
  void* lookup(const Line& o, int m, int k, std::vector<int>& l, bool& ok)
  {
    Kind& K = *kinds()[k];
    l.clear();
    { NoSim ns; reach(m, k, l); }
    void* p = nullptr;
    ok = attempt(o, [&]() { p = K.get(*W->mgrs[m].obj); });
    NoSim ns;
    if (!ok) return nullptr;
    if (l.empty()) { if (p) BAD("manager %d offers an interface %s though none is registered", m, S(K.id)); return nullptr; }
    if (l.size() == 1)
    {
      if (p != W->ifaces[l[0]].obj->ptr()) { BAD("manager %d does not offer the one interface %s that is registered", m, S(K.id)); return nullptr; }
      return p;
    }
    if (K.odd)
    {
      // several places at this level cannot be combined; a nested manager that cannot combine its own offers none
      return nullptr;
    }
    bool one_obj = std::set<int>(l.begin(), l.end()).size() == 1;
    if (!p) { BAD("manager %d offers no interface %s though %d are registered", m, S(K.id), (int)l.size()); return nullptr; }
    (void)one_obj;
    return p;
  }
  void names_must_be(int m, Kind& K, void* p, const std::map<std::string, Spec>& want)
  {
    std::vector<std::string> w;
    for (auto& h : want) w.push_back(h.first);
    auto n = K.names(p);
    std::sort(n.begin(), n.end());
    if (n != w) BAD("interface %s of manager %d has the resources %sinstead of %s", S(K.id), m, S(join(n)), S(join(w)));
  }
  void claims_must_be(int m, Kind& K, void* p)
  {
    if (K.plain) return;
    auto c = K.get_claims(p);
    if (c != W->claims[p]) BAD("interface %s of manager %d reports the claims %sinstead of %s", S(K.id), m, S(join({c.begin(), c.end()})), S(join({W->claims[p].begin(), W->claims[p].end()})));
  }
  void do_look(const Line& o)
  {
    int m = (int)o.num("mgr", -1), k = kind_index(o.get("type"));
    if (m < 0 || k < 0 || m >= (int)W->mgrs.size()) return;
    Kind& K = *kinds()[k];
    std::string n = o.get("name");
    std::vector<int> l;
    bool ok = true;
    void* p = lookup(o, m, k, l, ok);
    if (!ok)
    {
      { NoSim ns; sim::ev("look up %s of manager %d: no memory", S(K.id), m); }
      Line again;
      p = lookup(again, m, k, l, ok);
    }
    if (!p || K.odd) { NoSim ns; sim::ev("look up %s of manager %d: none", S(K.id), m); return; }
    std::map<std::string, Spec> want;
    {
      NoSim ns;
      want = offered(l);
      if (l.size() > 1)
      {
        sim::count("ev_combined");
        // the same interfaces are combined into one object, so that claims made through one lookup show in the next
        std::vector<void*> parts;
        for (int i : l) parts.push_back(W->ifaces[i].obj->ptr());
        auto& c = W->combos[{m, k}];
        if (c.second == parts && c.first != p) BAD("manager %d hands out another combined interface %s for the same interfaces", m, S(K.id));
        c = {p, parts};
      }
      names_must_be(m, K, p, want);
      claims_must_be(m, K, p);
    }
    std::unique_ptr<AnyHandle> h;
    int how = 0;  // 1 interface exception, 2 logic error, 3 other
    ok = attempt(o, [&]()
    {
      try { h = K.handle(p, n); }
      catch (const hi::HardwareInterfaceException&) { how = 1; }
      catch (const std::bad_alloc&) { throw; }
      catch (const std::logic_error&) { how = 2; }
      catch (...) { how = 3; }
    });
    NoSim ns;
    sim::ev("look up '%s' in %s of manager %d: %s", S(n), S(K.id), m, !ok ? "no memory" : h ? "ok" : "unknown");
    bool known = want.count(n);
    if (!ok) { claims_must_be(m, K, p); return; }
    if (!known)
    {
      sim::count("ev_unknown");
      if (h) BAD("interface %s of manager %d has a handle for the unknown resource '%s'", S(K.id), m, S(n));
      else if (how != (K.plain ? 2 : 1)) BAD("looking up the unknown resource '%s' in %s of manager %d does not raise the exception it should", S(n), S(K.id), m);
      claims_must_be(m, K, p);
      return;
    }
    if (!h) { BAD("interface %s of manager %d has no handle for '%s'", S(K.id), m, S(n)); return; }
    if (h->name() != n) BAD("the handle for '%s' in %s of manager %d is named '%s'", S(n), S(K.id), m, S(h->name()));
    if (K.claims) W->claims[p].insert(n);
    claims_must_be(m, K, p);
    auto held = std::unique_ptr<Held>(new Held);
    held->h = std::move(h);
    held->spec = want[n];
    held->what = "handle '" + n + "' looked up in " + K.id + " of manager " + std::to_string(m);
    check_handle(*held);
    if (o.num("hold")) W->held.push_back(std::move(held));
  }
  void do_clear(const Line& o)
  {
    int m = (int)o.num("mgr", -1), k = kind_index(o.get("type"));
    if (m < 0 || k < 0 || m >= (int)W->mgrs.size()) return;
    std::vector<int> l;
    bool ok = true;
    void* p = lookup(o, m, k, l, ok);
    if (!p || !ok) return;
    kinds()[k]->clear(p);
    NoSim ns;
    sim::ev("clear claims of %s of manager %d", S(kinds()[k]->id), m);
    W->claims[p].clear();
    claims_must_be(m, *kinds()[k], p);
  }
  void all_ifaces(int m, std::vector<std::pair<int, int>>& out)
  {
    for (auto& i : W->mgrs[m].ifaces) out.push_back(i);
    for (int s : W->mgrs[m].subs) all_ifaces(s, out);
  }
  void do_list(const Line& o)
  {
    int m = (int)o.num("mgr", -1);
    if (m < 0 || m >= (int)W->mgrs.size()) return;
    std::vector<std::string> got;
    std::map<std::string, std::vector<std::string>> res;
    bool ok = attempt(o, [&]()
    {
      got = W->mgrs[m].obj->getNames();
      for (auto& k : kinds()) { std::string t; { NoSim ns; t = k->type(); } res[t] = W->mgrs[m].obj->getInterfaceResources(t); }
      res["unknown"] = W->mgrs[m].obj->getInterfaceResources("unknown");
    });
    NoSim ns;
    sim::ev("list manager %d%s", m, ok ? "" : ": no memory");
    if (!ok) return;
    sim::count("chk_C32");
    std::vector<std::pair<int, int>> all;
    all_ifaces(m, all);
    std::map<std::string, std::set<std::string>> want;
    for (auto& a : all)
    {
      auto& s = want[kinds()[a.first]->type()];
      for (auto& h : W->ifaces[a.second].handles) s.insert(h.first);
    }
    std::vector<std::string> wn;
    for (auto& x : want) wn.push_back(x.first);
    std::sort(got.begin(), got.end());
    if (got != wn) BAD("manager %d lists the interfaces %sinstead of %s", m, S(join(got)), S(join(wn)));
    for (auto& x : res)
    {
      std::set<std::string> g(x.second.begin(), x.second.end());
      if (g != want[x.first]) BAD("manager %d lists the resources %sof %s instead of %s", m, S(join({g.begin(), g.end()})), S(x.first), S(join({want[x.first].begin(), want[x.first].end()})));
    }
  }
  // the behaviour of a robot that does not override anything
  void do_policy(const Line& o)
  {
    std::list<hi::ControllerInfo> cs;
    bool want = false;
    {
      NoSim ns;
      sim::Rng r(o.num("seed"));
      static const std::vector<std::string> js = {"a", "b", "c", "d", "e", "f"};
      static const std::vector<std::string> ifs = {"hardware_interface::EffortJointInterface", "hardware_interface::PositionJointInterface"};
      std::map<std::string, int> by;
      int n = r.range(0, 4);
      for (int i = 0; i < n; ++i)
      {
        hi::ControllerInfo c;
        c.name = r.chance(0.15) ? "c" : "c" + std::to_string(i);
        c.type = "t";
        std::set<std::string> mine;
        for (auto& f : ifs)
        {
          if (r.chance(0.4)) continue;
          hi::InterfaceResources x;
          x.hardware_interface = f;
          for (auto& j : js) if (!mine.count(j) && r.chance(0.15)) { x.resources.insert(j); mine.insert(j); by[j]++; }
          c.claimed_resources.push_back(x);
        }
        cs.push_back(c);
      }
      for (auto& x : by) if (x.second > 1) want = true;
    }
    bool got = false, prep = false, sw = false;
    hi::RobotHW& h = *W->mgrs[0].obj;
    bool ok = attempt(o, [&]()
    {
      got = h.checkForConflict(cs);
      prep = h.prepareSwitch(cs, cs);
      h.doSwitch(cs, cs);
      sw = h.switchResult() == hi::RobotHW::SwitchState::DONE;
      for (auto& c : cs) sw = sw && h.switchResult(c) == hi::RobotHW::SwitchState::DONE;
    });
    NoSim ns;
    sim::ev("policy of %d controllers: %s", (int)cs.size(), !ok ? "no memory" : got ? "conflict" : "fine");
    if (!ok) return;
    sim::count("chk_C32");
    if (want) sim::count("ev_conflict");
    if (got != want) BAD("the robot %s controllers that %s", got ? "refuses" : "accepts", want ? "claim the same resource" : "claim different resources");
    if (!prep || !sw) BAD("a robot without switching of its own does not take part in a switch");
  }
  void op(const Line& o)
  {
    std::string k = o.get("kind");
    if (k == "handle") do_handle(o);
    else if (k == "iface") do_iface(o);
    else if (k == "sub") do_sub(o);
    else if (k == "look") do_look(o);
    else if (k == "list") do_list(o);
    else if (k == "clear") do_clear(o);
    else if (k == "policy") do_policy(o);
    NoSim ns;
    sim::count("op_" + k);
  }

  void run(const Plan& plan) override
  {
    sim::own_faults();
    const Line empty("cfg");
    const Line& cfg = plan.first("cfg") ? *plan.first("cfg") : empty;
    w_.reset(new HW);
    W = w_.get();
    kinds();
    for (auto& c : W->cells)
    {
      memset(&c, 0, sizeof c);
      for (auto& v : c.v) { v = W->next; W->next += 1; }
      c.mode = hi::JointCommandModes::BEGIN;
    }
    memcpy(W->model, W->cells, sizeof W->cells);
    {
      sim::ArenaScope a;
      int nm = std::max(1, (int)cfg.num("mgrs", 1));
      for (int i = 0; i < nm; ++i) { W->mgrs.emplace_back(); W->mgrs.back().obj.reset(new hi::RobotHW); }
      for (auto* l : plan.all("iface"))
      {
        int k = kind_index(l->get("kind"));
        if (k < 0) k = 0;
        W->ifaces.emplace_back();
        W->ifaces.back().kind = k;
        W->ifaces.back().obj = kinds()[k]->create();
      }
    }
    auto ops = plan.all("op");
    int nc = std::max(1, (int)cfg.num("clients", 1));
    uint64_t cyc = std::max<long long>(1000, cfg.num("cycle", 100000));
    W->clients = nc;
    auto* mutex = new std::mutex;  // requests to a robot are made one at a time
    std::unique_ptr<std::mutex> guard(mutex);
    std::atomic<int> published{0};
    for (int c = 0; c < nc; ++c)
      sim::spawn("client" + std::to_string(c), [this, c, nc, mutex, ops, &published]()
      {
        for (auto* o : ops)
        {
          if (o->num("client") % nc != c) continue;
          if (o->num("delay") > 0) sim::sleep_ns(o->num("delay"));
          std::lock_guard<std::mutex> l(*mutex);
          op(*o);
          published.store((int)W->held.size(), std::memory_order_release);
        }
        NoSim ns;
        --W->clients;
      });
    sim::spawn("realtime", [this, cyc, &published]()
    {
      bool last = false;
      sim::Rng r(7);
      while (!sim::halted())
      {
        sim::sleep_ns(cyc);
        { NoSim ns; last = W->clients == 0; }
        int n = published.load(std::memory_order_acquire);
        {
          NoSim ns;
          // the hardware delivers new data
          check_storage("without anybody commanding it");
          for (int i = 0; i < 8; ++i) { int c = (int)r.below(CELLS), s = (int)r.below(SLOTS); W->cells[c].v[s] = W->model[c].v[s] = W->next; W->next += 1; }
        }
        for (int i = 0; i < n && !sim::halted(); ++i)
        {
          Held* h;
          { NoSim ns; h = W->held[i].get(); }
          sim::point(sim::P_SYNC);
          {
            NoSim ns;
            check_handle(*h);
            sim::count("rt_uses");
          }
        }
        if (last) break;
      }
    });
    sim::run_fibers();
  }
  void cleanup() override
  {
    NoSim ns;
    if (w_) { w_->held.clear(); }
    w_.reset();
    W = nullptr;
  }
};
}  // namespace

int main(int argc, char** argv)
{
  static HardwareWorld w;
  return fw::main_(argc, argv, w);
}

// A control loop whose commands pass the joint limit handles, with a simulated plant, encoder bus and operator.
// Decides C21-C23.
#include "../core/framework.h"

#include <joint_limits_interface/joint_limits_interface.h>
#include <joint_limits_interface/joint_limits_rosparam.h>
#include <joint_limits_interface/joint_limits_urdf.h>
#include "../stubs/simworld.h"

#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <memory>

using fw::Line;
using fw::Plan;
using sim::NoSim;
namespace hi = hardware_interface;
namespace jl = joint_limits_interface;

namespace
{
const double BIG = std::numeric_limits<double>::max();
const double NaN = std::numeric_limits<double>::quiet_NaN();
const char* S(const std::string& s) { return s.c_str(); }

struct Ev
{
  std::string kind;
  uint64_t at = 0, dur = 1;
  double val = 0;
  bool on(uint64_t c) const { return c >= at && c < at + dur; }
};
struct Joint
{
  std::string name, type;  // P Ps V Vs E Es
  jl::JointLimits lim;
  jl::SoftJointLimits soft;
  std::string profile;
  double amp = 1, freq = 1;
  sim::Rng rng{1};
  // data shared with the code under test
  double pos = 0, vel = 0, eff = 0, cmd = 0;
  // plant
  double x = 0, v = 0, u = 0;
  uint64_t last_plant = 0;
  std::vector<std::pair<uint64_t, std::pair<double, double>>> flight;
  double dpos = 0, dvel = 0;  // last delivered sample
  // oracle
  bool fresh = true;
  double prev = 0;
  bool unknown = false;  // the previous enforced command was not a number
  std::vector<Ev> evs;
  double in = 0;
};
struct LW
{
  std::vector<std::unique_ptr<Joint>> joints;
  std::vector<Ev> evs;  // of the loop
  uint64_t cycles = 0, dt = 1000000, cycle = 0, bus = 500000;
  bool done = false;
};

struct LimitsWorld : fw::World
{
  LW w;
  std::vector<std::string> properties() override { return {"C21", "C22", "C23", "C30"}; }

  static std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.12g", v); return b; }
  void limits(Line& j, const std::string& type, sim::Rng& r)
  {
    bool soft = type.size() > 1;
    double lo = -r.uniform(0.1, 3), hi = r.uniform(0.1, 3);
    if (r.chance(0.2)) { double off = r.uniform(-5, 5); lo += off; hi += off; }
    bool haspos = r.chance(0.85);
    if (haspos) j.set("plim", num(lo) + "," + num(hi));
    bool vneed = type == "Ps" || type == "V" || type[0] == 'E';
    if (vneed || r.chance(0.85)) j.set("vlim", num(r.chance(0.3) ? r.uniform(0.01, 0.3) : r.uniform(0.3, 20)));
    if (type[0] == 'E' || r.chance(0.3)) j.set("elim", num(r.uniform(0.1, 50)));
    if (type[0] == 'V' ? r.chance(0.75) : r.chance(0.3)) j.set("alim", num(r.chance(0.3) ? r.uniform(0.01, 1) : r.uniform(1, 200)));
    if (soft)
    {
      double a = r.uniform(0, 0.4), b = r.uniform(0, 0.4);
      if (r.chance(0.15)) { a = -a; b = -b; }   // soft limits beyond the hard ones
      double w_ = hi - lo, s0 = lo + a * w_, s1 = hi - b * w_;
      j.set("soft", num(s0) + "," + num(s1) + "," + num(r.chance(0.15) ? r.uniform(100, 3000) : r.uniform(0.5, 50)) + "," + num(r.uniform(0.1, 100)));
    }
  }
  Plan generate(const std::string& prop, sim::Rng& r, bool thorough) override
  {
    if (prop == "C30") return generate_spec(r);
    Plan pl;
    Line& cfg = pl.add("cfg");
    int cycles = r.range(20, thorough ? 400 : 120);
    long long dt = r.pick(std::vector<long long>{100000, 1000000, 4000000, 10000000, 100000000});
    cfg.set("cycles", cycles).set("dt", dt).set("bus", (long long)(dt * r.uniform(0.2, 3)));
    std::vector<std::string> mine = prop == "C21" ? std::vector<std::string>{"P", "Ps"} : prop == "C22" ? std::vector<std::string>{"V", "Vs"} : std::vector<std::string>{"E", "Es"};
    std::vector<std::string> all = {"P", "Ps", "V", "Vs", "E", "Es"};
    int n = r.range(1, 4);
    std::vector<std::string> types;
    for (int i = 0; i < n; ++i)
    {
      std::string t = r.chance(0.85) ? r.pick(mine) : r.pick(all);
      types.push_back(t);
      Line j("joint");
      j.set("name", "j" + std::to_string(i)).set("type", t);
      limits(j, t, r);
      auto pos = j.list("plim");
      double lo = -2, hi = 2;
      if (pos.size() == 2) { lo = atof(pos[0].c_str()); hi = atof(pos[1].c_str()); }
      double x0 = r.uniform(lo, hi);
      if (r.chance(0.15)) x0 = lo - r.uniform(0, 2);
      else if (r.chance(0.15)) x0 = hi + r.uniform(0, 2);
      j.set("x0", num(x0)).set("v0", num(r.chance(0.7) ? 0 : r.uniform(-5, 5)));
      double span = t[0] == 'P' ? (hi - lo) : t[0] == 'V' ? j.real("vlim", 5) : j.real("elim", 20);
      static const std::vector<std::string> prof = {"const", "sine", "step", "random", "walk", "ramp"};
      j.set("profile", r.pick(prof)).set("amp", num(span * (r.chance(0.15) ? 1e6 : r.uniform(0.3, 3)))).set("freq", num(1e9 / dt * r.uniform(0.005, 0.3))).set("seed", (long long)r.below(1000000));
      pl.lines.push_back(j);
    }
    int nev = r.range(0, 6);
    for (int i = 0; i < nev; ++i)
    {
      int q = r.below(n);
      Line& e = pl.add("ev");
      e.set("joint", "j" + std::to_string(q)).set("at", (long long)r.below(cycles));
      std::string k = r.pick(std::vector<std::string>{"nanpos", "nanvel", "nan", "drop", "delay", "stale", "jump", "push", "reset", "reset", "nancmd", "infcmd", "hold", "rereg", "off", "pin"});
      if (r.chance(0.1)) { e.set("at", 0); k = r.pick(std::vector<std::string>{"nan", "nanpos", "nanvel"}); }
      e.set("kind", k).set("dur", k == "jump" || k == "rereg" || k == "reset" ? 1 : r.range(1, 12));
      if (k == "jump") e.set("val", num(r.uniform(-6, 6)));
      if (k == "push") e.set("val", num(r.uniform(-30, 30)));
      if (k == "pin") e.set("val", (r.chance(0.5) ? -1 : 1) * (r.chance(0.5) ? 1 : 2));
      if (k == "infcmd") e.set("val", r.chance(0.5) ? 1 : -1);
      if (k == "rereg") { limits(e, types[q], r); }
    }
    int ns = r.range(0, 3);
    for (int i = 0; i < ns; ++i)
    {
      bool stall = r.chance(0.6);
      pl.add("loop").set("kind", stall ? "stall" : "early").set("at", (long long)r.below(cycles)).set("val", stall ? (long long)(dt * r.uniform(1, 200)) : (long long)r.range(1, 1000)).set("dur", stall ? 1 : r.range(1, 4));
    }
    return pl;
  }
  bool droppable(const Line& l) override { return l.kind == "param" || l.kind == "write" || l.kind == "out" || l.kind == "ev" || l.kind == "loop" || l.kind == "joint"; }
  std::vector<Line> simpler(const Line& l) override
  {
    std::vector<Line> v;
    if (l.kind == "cfg") for (double f : {0.25, 0.5, 0.75, 0.9}) if (l.num("cycles") > 1) { Line n = l; n.set("cycles", (long long)(l.num("cycles") * f)); v.push_back(n); }
    if (l.kind == "joint" && l.get("profile") != "const") { Line n = l; n.set("profile", "const"); v.push_back(n); }
    if (l.kind == "ev" && l.num("dur", 1) > 1) { Line n = l; n.set("dur", 1); v.push_back(n); }
    return v;
  }
  void cleanup() override { w = LW(); simros::reset_world(); }

  static void read_limits(const Line& l, Joint& j)
  {
    j.lim = jl::JointLimits();
    j.soft = jl::SoftJointLimits();
    auto p = l.list("plim");
    if (p.size() == 2) { j.lim.has_position_limits = true; j.lim.min_position = atof(p[0].c_str()); j.lim.max_position = atof(p[1].c_str()); }
    if (l.has("vlim")) { j.lim.has_velocity_limits = true; j.lim.max_velocity = l.real("vlim"); }
    if (l.has("alim")) { j.lim.has_acceleration_limits = true; j.lim.max_acceleration = l.real("alim"); }
    if (l.has("elim")) { j.lim.has_effort_limits = true; j.lim.max_effort = l.real("elim"); }
    auto s = l.list("soft");
    if (s.size() == 4) { j.soft.min_position = atof(s[0].c_str()); j.soft.max_position = atof(s[1].c_str()); j.soft.k_position = atof(s[2].c_str()); j.soft.k_velocity = atof(s[3].c_str()); }
  }
  struct Ifaces
  {
    jl::PositionJointSaturationInterface p;
    jl::PositionJointSoftLimitsInterface ps;
    jl::VelocityJointSaturationInterface v;
    jl::VelocityJointSoftLimitsInterface vs;
    jl::EffortJointSaturationInterface e;
    jl::EffortJointSoftLimitsInterface es;
  };
  static void reg(Ifaces& f, Joint& j)
  {
    hi::JointHandle h(hi::JointStateHandle(j.name, &j.pos, &j.vel, &j.eff), &j.cmd);
    if (j.type == "P") f.p.registerHandle(jl::PositionJointSaturationHandle(h, j.lim));
    if (j.type == "Ps") f.ps.registerHandle(jl::PositionJointSoftLimitsHandle(h, j.lim, j.soft));
    if (j.type == "V") f.v.registerHandle(jl::VelocityJointSaturationHandle(h, j.lim));
    if (j.type == "Vs") f.vs.registerHandle(jl::VelocityJointSoftLimitsHandle(h, j.lim, j.soft));
    if (j.type == "E") f.e.registerHandle(jl::EffortJointSaturationHandle(h, j.lim));
    if (j.type == "Es") f.es.registerHandle(jl::EffortJointSoftLimitsHandle(h, j.lim, j.soft));
  }
  // the simulated joint
  void plant(Joint& j, uint64_t now)
  {
    double dt = (now - j.last_plant) * 1e-9;
    j.last_plant = now;
    if (!(dt > 0)) return;
    double u = std::isfinite(j.u) ? std::max(-1e6, std::min(1e6, j.u)) : 0;
    double x0 = j.x;
    if (j.type[0] == 'P') { double a = 1 - std::exp(-dt / 0.02); j.x += (u - j.x) * a; j.v = (j.x - x0) / dt; }
    else if (j.type[0] == 'V') { double a = 1 - std::exp(-dt / 0.01); j.v += (u - j.v) * a; j.x += j.v * dt; }
    else { j.v = j.v * std::exp(-dt * 0.5) + u * dt; j.x += j.v * dt; }
    if (!std::isfinite(j.x) || std::fabs(j.x) > 1e5) j.x = 0;
    if (!std::isfinite(j.v) || std::fabs(j.v) > 1e5) j.v = 0;
  }
  double command(Joint& j, double t)
  {
    double c = 0;
    if (j.profile == "const") c = j.amp;
    else if (j.profile == "sine") c = j.amp * std::sin(2 * M_PI * j.freq * t);
    else if (j.profile == "step") c = std::fmod(t * j.freq, 1.0) < 0.5 ? j.amp : -j.amp;
    else if (j.profile == "random") c = j.rng.uniform(-j.amp, j.amp);
    else if (j.profile == "ramp") c = j.amp * (std::fmod(t * j.freq, 2.0) - 1);
    else if (j.profile == "walk") c = (std::isfinite(j.cmd) ? j.cmd : 0) + j.rng.uniform(-0.02, 0.02) * j.amp;
    return c;
  }

  void run(const Plan& plan) override
  {
    spec = false;
    rd = Reading();
    sim::own_faults();
    const Line empty("cfg");
    const Line& cfg = plan.first("cfg") ? *plan.first("cfg") : empty;
    if (cfg.get("mode") == "spec") { run_spec(plan, cfg); return; }
    w.cycles = cfg.num("cycles", 20);
    w.dt = std::max<long long>(1, cfg.num("dt", 1000000));
    w.bus = std::max<long long>(1000, cfg.num("bus", 500000));
    std::map<std::string, Joint*> by;
    for (auto* l : plan.all("joint"))
    {
      auto j = std::unique_ptr<Joint>(new Joint);
      j->name = l->get("name");
      j->type = l->get("type");
      read_limits(*l, *j);
      j->profile = l->get("profile");
      j->amp = l->real("amp", 1);
      j->freq = l->real("freq", 1);
      j->rng = sim::Rng(l->num("seed", 1));
      j->x = j->dpos = l->real("x0");
      j->v = j->dvel = l->real("v0");
      by[j->name] = j.get();
      w.joints.push_back(std::move(j));
    }
    std::map<Ev*, const Line*> rereg;
    auto read_ev = [](const Line* l) { Ev e; e.kind = l->get("kind"); e.at = l->num("at"); e.dur = l->num("dur", 1); e.val = l->real("val"); return e; };
    for (auto* l : plan.all("ev")) if (by.count(l->get("joint"))) by[l->get("joint")]->evs.push_back(read_ev(l));
    std::map<std::pair<std::string, uint64_t>, const Line*> newlim;
    for (auto* l : plan.all("ev")) if (l->get("kind") == "rereg") newlim[{l->get("joint"), (uint64_t)l->num("at")}] = l;
    for (auto* l : plan.all("loop")) w.evs.push_back(read_ev(l));

    Ifaces f;
    for (auto& j : w.joints) reg(f, *j);

    sim::spawn("bus", [this]()
    {
      while (!w.done)
      {
        sim::sleep_ns(w.bus);
        NoSim ns;
        uint64_t now = sim::now();
        for (auto& jp : w.joints)
        {
          Joint& j = *jp;
          plant(j, now);
          bool drop = false, stale = false;
          uint64_t delay = 0;
          for (auto& e : j.evs)
          {
            if (!e.on(w.cycle)) continue;
            if (e.kind == "drop") drop = true;
            if (e.kind == "delay") delay = 3 * w.dt;
            if (e.kind == "stale") stale = true;
          }
          if (drop) { sim::count("fault_bus_loss"); continue; }
          if (delay) sim::count("fault_bus_delay");
          j.flight.push_back({now + delay, {j.x, j.v}});
          // deliver what is due; a stale bus delivers the oldest sample again and out of order
          if (stale && j.flight.size() > 1) { sim::count("fault_bus_reorder"); std::swap(j.flight.front(), j.flight.back()); }
          while (!j.flight.empty() && j.flight.front().first <= now) { j.dpos = j.flight.front().second.first; j.dvel = j.flight.front().second.second; j.flight.erase(j.flight.begin()); }
        }
      }
    }, true);

    sim::spawn("loop", [&]()
    {
      uint64_t last = sim::now();
      for (w.cycle = 0; w.cycle < w.cycles && !sim::halted(); ++w.cycle)
      {
        uint64_t wait = w.dt;
        for (auto& e : w.evs)
          if (e.on(w.cycle)) { wait = std::max<uint64_t>(1, (uint64_t)e.val); sim::count(e.kind == "stall" ? "fault_stall" : "fault_early_cycle"); }
        sim::sleep_ns(wait);
        uint64_t now = sim::now();
        ros::Duration period;
        std::vector<std::string> off, resets;
        {
          NoSim ns;
          period.fromNSec((int64_t)(now - last));
          last = now;
          for (auto& jp : w.joints)
          {
            Joint& j = *jp;
            j.pos = j.dpos;
            j.vel = j.dvel;
            double c = command(j, now * 1e-9);
            for (auto& e : j.evs)
            {
              if (!e.on(w.cycle)) { if (e.kind == "off" && e.at + e.dur == w.cycle) resets.push_back(j.type); continue; }
              sim::count("fault_" + e.kind);
              if (e.kind == "nanpos" || e.kind == "nan") j.pos = NaN;
              if (e.kind == "nanvel" || e.kind == "nan") j.vel = NaN;
              if (e.kind == "pin") { if (j.lim.has_position_limits) j.pos = e.val < 0 ? j.lim.min_position : j.lim.max_position; if (j.lim.has_velocity_limits && std::fabs(e.val) > 1) j.vel = e.val < 0 ? -j.lim.max_velocity : j.lim.max_velocity; }  // exactly at a limit
              if (e.kind == "jump") { j.x += e.val; }
              if (e.kind == "push") { j.v += e.val; j.vel += e.val; }
              if (e.kind == "nancmd") c = NaN;
              if (e.kind == "infcmd") c = e.val * std::numeric_limits<double>::infinity();
              if (e.kind == "hold") c = j.cmd;
              if (e.kind == "reset") resets.push_back(j.type);
              if (e.kind == "off") off.push_back(j.type);
              if (e.kind == "rereg") { read_limits(*newlim[{j.name, e.at}], j); j.fresh = true; j.prev = 0; j.unknown = false; }
            }
            j.cmd = c;
          }
        }
        for (auto& jp : w.joints)
          for (auto& e : jp->evs) if (e.kind == "rereg" && e.at == w.cycle) reg(f, *jp);
        auto is_in = [](const std::vector<std::string>& v, const std::string& s) { return std::find(v.begin(), v.end(), s) != v.end(); };
        if (is_in(resets, "P")) f.p.reset();
        if (is_in(resets, "Ps")) f.ps.reset();
        {
          NoSim ns;
          for (auto& jp : w.joints)
          {
            if (is_in(resets, jp->type) && jp->type[0] == 'P') { jp->fresh = true; jp->unknown = false; }
            jp->in = jp->cmd;
          }
        }
        if (!is_in(off, "P")) f.p.enforceLimits(period);
        if (!is_in(off, "Ps")) f.ps.enforceLimits(period);
        if (!is_in(off, "V")) f.v.enforceLimits(period);
        if (!is_in(off, "Vs")) f.vs.enforceLimits(period);
        if (!is_in(off, "E")) f.e.enforceLimits(period);
        if (!is_in(off, "Es")) f.es.enforceLimits(period);
        NoSim ns;
        for (auto& jp : w.joints)
        {
          if (is_in(off, jp->type))
          {
            if (memcmp(&jp->cmd, &jp->in, sizeof(double))) sim::fail(prop_of(*jp), false, "joint %s: a command is changed though its interface was not enforced", S(jp->name));
            jp->u = 0;
            continue;
          }
          judge(*jp, period.toSec());
          jp->u = jp->cmd;
        }
        sim::count("cycles");
      }
      w.done = true;
    });
    sim::run_fibers();
  }
  bool spec = false;
  const char* prop_of(const Joint& j) { return spec ? "C30" : j.type[0] == 'P' ? "C21" : j.type[0] == 'V' ? "C22" : "C23"; }

#include "limits_spec.inc"

  static double sat(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
  struct Bounds
  {
    double lo = -BIG, hi = BIG;
    const char* what = "limits";
  };
  void judge(Joint& j, double dt)
  {
    const char* prop = prop_of(j);
    sim::count(std::string("chk_") + prop);
    const auto& L = j.lim;
    const auto& F = j.soft;
    double in = j.in, out = j.cmd;
    bool soft = j.type.size() > 1;
    sim::ev("%s %s in %.9g out %.9g pos %.9g vel %.9g", S(j.name), S(j.type), in, out, j.pos, j.vel);
    double base = j.fresh ? j.pos : j.prev;
    bool unknown = j.unknown;
    bool was_fresh = j.fresh;
    j.fresh = false;
    j.prev = out;
    j.unknown = std::isnan(out);
    if (std::isnan(in)) { sim::count("nan_command"); return; }
    double scale = 1 + std::fabs(in < BIG && in > -BIG ? in : 0) * 1e-3 + (std::isfinite(base) ? std::fabs(base) : 0);
    double tol = 1e-9 * scale;
    // bounds in order of precedence; each further one applies as far as the earlier ones permit
    std::vector<Bounds> bs;
    bool certain = true;  // whether the bounds are all known, so that commands within them must pass unchanged
    if (j.type[0] == 'P')
    {
      if (L.has_position_limits) bs.push_back({L.min_position, L.max_position, "position limits"});
      bool inside = std::isfinite(base) && (!L.has_position_limits || (base >= L.min_position && base <= L.max_position));
      if (unknown || std::isnan(base)) certain = unknown ? false : true;
      else if (!inside) { sim::count("ev_start_outside"); certain = false; }
      else if (L.has_velocity_limits)
      {
        double vlo = -L.max_velocity, vhi = L.max_velocity;
        bs.push_back({base + vlo * dt, base + vhi * dt, "velocity limit"});
        if (soft && L.has_position_limits)
        {
          vlo = sat(-F.k_position * (base - F.min_position), -L.max_velocity, L.max_velocity);
          vhi = sat(-F.k_position * (base - F.max_position), -L.max_velocity, L.max_velocity);
          bs.push_back({base + vlo * dt, base + vhi * dt, "soft position limits"});
          tol += 1e-9 * (std::fabs(F.k_position) * (1 + std::fabs(F.min_position) + std::fabs(F.max_position)) * dt);
        }
      }
    }
    else if (j.type[0] == 'V')
    {
      if (L.has_velocity_limits) bs.push_back({-L.max_velocity, L.max_velocity, "velocity limit"});
      if (soft)
      {
        double m = L.has_velocity_limits ? L.max_velocity : BIG;
        if (L.has_position_limits)
        {
          if (std::isfinite(j.pos))
          {
            bs.push_back({sat(-F.k_position * (j.pos - F.min_position), -m, m), sat(-F.k_position * (j.pos - F.max_position), -m, m), "soft position limits"});
            tol += 1e-9 * std::fabs(F.k_position) * (1 + std::fabs(j.pos) + std::fabs(F.min_position) + std::fabs(F.max_position));
          }
          else certain = false;
        }
        if (L.has_acceleration_limits)
        {
          if (std::isfinite(j.vel)) { bs.push_back({j.vel - L.max_acceleration * dt, j.vel + L.max_acceleration * dt, "acceleration limit"}); tol += 1e-9 * std::fabs(j.vel); }
          else certain = false;
        }
      }
      else if (L.has_acceleration_limits)
      {
        double b = was_fresh ? 0 : base;
        if (unknown) certain = false;
        else bs.push_back({b - L.max_acceleration * dt, b + L.max_acceleration * dt, "acceleration limit"});
      }
    }
    else
    {
      bs.push_back({-L.max_effort, L.max_effort, "effort limit"});
      if (!soft)
      {
        Bounds b;
        b.what = "a joint already beyond its limits";
        if (L.has_position_limits && j.pos < L.min_position) b.lo = 0;
        if (L.has_position_limits && j.pos > L.max_position) b.hi = 0;
        if (j.vel < -L.max_velocity) b.lo = 0;
        if (j.vel > L.max_velocity) b.hi = 0;
        if (b.lo == 0 || b.hi == 0) { bs.push_back(b); sim::count("ev_beyond"); }
        if (std::isnan(j.pos) || std::isnan(j.vel)) certain = false;
      }
      else
      {
        double vlo = -L.max_velocity, vhi = L.max_velocity;
        bool known = std::isfinite(j.vel);
        if (L.has_position_limits)
        {
          known = known && std::isfinite(j.pos);
          vlo = sat(-F.k_position * (j.pos - F.min_position), -L.max_velocity, L.max_velocity);
          vhi = sat(-F.k_position * (j.pos - F.max_position), -L.max_velocity, L.max_velocity);
        }
        if (known)
        {
          bs.push_back({sat(-F.k_velocity * (j.vel - vlo), -L.max_effort, L.max_effort), sat(-F.k_velocity * (j.vel - vhi), -L.max_effort, L.max_effort), "soft velocity bounds"});
          tol += 1e-9 * F.k_velocity * (1 + std::fabs(j.vel) + (L.has_position_limits ? std::fabs(F.k_position) * (1 + std::fabs(j.pos) + std::fabs(F.min_position) + std::fabs(F.max_position)) : 0));
        }
        else certain = false;
      }
    }
    double lo = -BIG, hi = BIG;
    for (auto& b : bs)
    {
      double nlo = std::max(lo, b.lo), nhi = std::min(hi, b.hi);
      if (nlo > nhi + tol) { sim::count("ev_limits_in_conflict"); certain = false; break; }  // cannot be met within the more important ones
      if (nlo > nhi) nlo = nhi = (nlo + nhi) / 2;
      lo = nlo;
      hi = nhi;
      if (!(out >= lo - tol) || !(out <= hi + tol))
      {
        sim::fail(prop, false, "joint %s (%s): command %.12g becomes %.12g, outside [%.12g, %.12g] (%s)", S(j.name), S(j.type), in, out, lo, hi, b.what);
        return;
      }
    }
    if (!bs.empty() && (in < lo || in > hi)) sim::count("ev_limited");
    if (certain && std::isfinite(in) && in >= lo + tol && in <= hi - tol)
    {
      sim::count("ev_passed");
      if (out != in) sim::fail(prop, false, "joint %s (%s): command %.12g is changed to %.12g though it is within all limits [%.12g, %.12g]", S(j.name), S(j.type), in, out, lo, hi);
    }
  }
};
}  // namespace

int main(int argc, char** argv)
{
  static LimitsWorld w;
  return fw::main_(argc, argv, w);
}


  // ------------------------------------------------------------------------------------------------------------------
  // C30: limits are read from a parameter server, which can fail and which others write, and from URDF joints.
  typedef XmlRpc::XmlRpcValue Val;
  static Val value(const std::string& s)
  {
    std::string v = s.size() > 2 ? s.substr(2) : "";
    if (s[0] == 'b') return Val(v == "1");
    if (s[0] == 'i') return Val(atoi(v.c_str()));
    if (s[0] == 'd') return Val(atof(v.c_str()));
    return Val(v);
  }
  static const std::vector<std::string>& spec_keys()
  {
    static const std::vector<std::string> k = {"has_position_limits", "min_position", "max_position", "angle_wraparound", "has_velocity_limits", "max_velocity", "has_acceleration_limits",
      "max_acceleration", "has_jerk_limits", "max_jerk", "has_effort_limits", "max_effort", "has_soft_limits", "k_position", "k_velocity", "soft_lower_limit", "soft_upper_limit"};
    return k;
  }
  static bool is_flag(const std::string& k) { return k.compare(0, 4, "has_") == 0 || k == "angle_wraparound"; }
  static std::string good_value(const std::string& k, sim::Rng& r)
  {
    if (is_flag(k)) return r.chance(0.8) ? "b:1" : "b:0";
    if (r.chance(0.15)) return "i:" + std::to_string(k == "min_position" || k == "soft_lower_limit" ? -r.range(0, 3) : r.range(1, 9));
    double d = k == "min_position" ? -r.uniform(0.1, 3) : k == "soft_lower_limit" ? -r.uniform(0.05, 2) : k == "max_position" ? r.uniform(0.1, 3) : k == "soft_upper_limit" ? r.uniform(0.05, 2) : r.uniform(0.05, 30);
    return "d:" + num(d);
  }
  static std::string any_value(const std::string& k, sim::Rng& r)
  {
    if (r.chance(0.8)) return good_value(k, r);
    static const std::vector<std::string> odd = {"s:yes", "s:1.0", "i:1", "i:0", "b:1", "d:1", "s:"};
    return r.pick(odd);
  }
  Plan generate_spec(sim::Rng& r)
  {
    Plan pl;
    static const std::vector<std::string> nss = {"", "robot", "a/b"};
    int rounds = r.range(1, 3);
    long long lat = r.chance(0.6) ? (long long)r.below(3000000) : 0;
    double flake = r.chance(0.3) ? r.uniform(0.005, 0.15) : 0;
    pl.add("cfg").set("mode", "spec").set("ns", r.pick(nss)).set("rounds", rounds).set("lat", lat).set("seed", (long long)r.below(1000000)).set("dt", r.pick(std::vector<long long>{1000000, 10000000})).set("flake", num(flake));
    int n = r.range(1, 3);
    std::vector<std::string> js;
    for (int i = 0; i < n; ++i)
    {
      std::string nm = "j" + std::to_string(i);
      if (r.chance(0.1)) nm = i ? "j0_" + std::to_string(i) : "arm/j0";
      if (r.chance(0.04)) nm = "~bad" + std::to_string(i);
      js.push_back(nm);
      Line& j = pl.add("joint");
      static const std::vector<std::string> ty = {"P", "Ps", "V", "Vs", "E", "Es"}, uk = {"rev", "rev", "cont", "pris", "fixed", "float", "planar", "unknown", "nolimits", "null"}, od = {"up", "pu", "p", "p", "u", "pp"};
      j.set("name", nm).set("type", r.pick(ty)).set("order", r.pick(od)).set("urdf", r.pick(uk)).set("seed", (long long)r.below(1000000)).set("x0", num(r.uniform(-2, 2)));
      j.set("ulim", num(-r.uniform(0.1, 3)) + "," + num(r.uniform(0.1, 3)) + "," + num(r.uniform(0.1, 20)) + "," + num(r.uniform(0.1, 50)));
      if (r.chance(0.6)) j.set("usafe", num(-r.uniform(0, 2)) + "," + num(r.uniform(0, 2)) + "," + num(r.uniform(0.5, 50)) + "," + num(r.uniform(0.1, 50)));
      if (r.chance(0.5)) j.set("before", 1);
      if (nm[0] == '~' || r.chance(0.08)) continue;
      double full = r.chance(0.5) ? 0.97 : 0.7;
      for (auto& k : spec_keys())
        if (r.chance(full)) pl.add("param").set("joint", nm).set("key", k).set("val", r.chance(full) ? good_value(k, r) : any_value(k, r));
    }
    long long span = 40000000ll + rounds * 60 * lat;
    int nw = r.chance(0.5) ? 0 : r.range(1, 8);
    for (int i = 0; i < nw; ++i)
    {
      const std::string& k = r.pick(spec_keys());
      Line& l = pl.add("write");
      l.set("at", (long long)r.below(span)).set("joint", r.pick(js)).set("key", k);
      if (r.chance(0.05)) l.set("key", "*");
      if (!r.chance(0.3) && l.get("key") != "*") l.set("val", any_value(k, r));
    }
    int no = r.chance(0.6) ? 0 : r.range(1, 2);
    for (int i = 0; i < no; ++i) pl.add("out").set("at", (long long)r.below(span)).set("dur", (long long)r.below(r.chance(0.5) ? 2000000 : 60000000));
    return pl;
  }

  // What a key of a joint can have looked like to a reader during a call.
  struct Poss
  {
    std::vector<Val> vals;
    bool none = false;   // absent or unreadable at some moment
    bool always_none() const { return vals.empty(); }
    void add(const Val* v) { if (v && v->valid()) vals.push_back(*v); else none = true; }
    bool can_bool(bool b) const { for (auto& v : vals) if (v.getType() == Val::TypeBoolean && v.boolean() == b) return true; return false; }
    bool can_num(double d) const { for (auto& v : vals) if ((v.getType() == Val::TypeDouble || v.getType() == Val::TypeInt) && v.num() == d) return true; return false; }
    bool can_no_bool() const { if (none || vals.empty()) return true; for (auto& v : vals) if (v.getType() != Val::TypeBoolean) return true; return false; }
    bool can_no_num() const { if (none || vals.empty()) return true; for (auto& v : vals) if (v.getType() != Val::TypeDouble && v.getType() != Val::TypeInt) return true; return false; }
  };
  struct Reading
  {
    bool on = false;
    std::string base;                 // namespace of the joint
    std::map<std::string, Poss> keys;
    Poss ns;
  } rd;
  static bool exists(const std::string& base)
  {
    auto& P = simros::world().params;
    auto i = P.lower_bound(base + "/");
    return P.count(base) || (i != P.end() && i->first.compare(0, base.size() + 1, base + "/") == 0);
  }
  void begin_reading(const std::string& base)
  {
    NoSim ns;
    rd = Reading();
    rd.on = true;
    rd.base = base;
    auto& P = simros::world().params;
    for (auto& k : spec_keys()) { auto i = P.find(base + "/" + k); rd.keys[k].add(i == P.end() ? nullptr : &i->second); }
    Val present(true);
    rd.ns.add(exists(base) ? &present : nullptr);
  }
  void changed(const std::string& key)
  {
    if (!rd.on || key.compare(0, rd.base.size() + 1, rd.base + "/")) return;
    sim::count("ev_change_while_reading");
    auto& P = simros::world().params;
    auto i = P.find(key);
    rd.keys[key.substr(rd.base.size() + 1)].add(i == P.end() ? nullptr : &i->second);
    Val present(true);
    rd.ns.add(exists(rd.base) ? &present : nullptr);
  }
  void unreadable(const std::string& key)
  {
    if (!rd.on) return;
    if (key == rd.base) { rd.ns.add(nullptr); for (auto& k : rd.keys) k.second.add(nullptr); }
    else if (key.compare(0, rd.base.size() + 1, rd.base + "/") == 0) rd.keys[key.substr(rd.base.size() + 1)].add(nullptr);
  }
  void kind(const std::string& j, const char* what, const char* flag, const std::vector<std::string>& keys, bool has0, std::vector<double> v0, bool has1, std::vector<double> v1)
  {
    Poss& h = rd.keys[flag];
    bool same_v = v0 == v1;
    bool ok = h.can_no_bool() && has0 == has1 && same_v;
    if (h.can_bool(false) && !has1 && same_v) ok = true;
    if (h.can_bool(true))
    {
      bool all = true, miss = false;
      for (size_t i = 0; i < keys.size(); ++i) { if (!rd.keys[keys[i]].can_num(v1[i])) all = false; if (rd.keys[keys[i]].can_no_num()) miss = true; }
      if (has1 && all) ok = true;
      if (miss && has0 == has1 && same_v) ok = true;
    }
    if (ok) { if (has1 && !(has0 && same_v)) sim::count("ev_limit_taken"); return; }
    std::string s;
    for (size_t i = 0; i < v1.size(); ++i) s += (i ? "," : "") + num(v1[i]);
    sim::fail("C30", false, "the %s limits of joint %s are %s [%s] after reading, which is neither what is specified nor what was there before", what, S(j), has1 ? "on" : "off", S(s));
  }
  void judge_params(const std::string& j, bool bad, const jl::JointLimits& a, const jl::JointLimits& b, bool ret)
  {
    sim::count("chk_C30");
    rd.on = false;
    bool can_false = bad || rd.ns.none, can_true = !bad && !rd.ns.always_none();
    if (ret ? !can_true : !can_false) { sim::fail("C30", false, "reading the limits of joint %s returns %s though the server has %s specification", S(j), ret ? "true" : "false", ret ? "no" : "a"); return; }
    if (!ret)
    {
      if (!same(a, b)) sim::fail("C30", false, "the limits of joint %s change though no specification is found", S(j));
      return;
    }
    kind(j, "position", "has_position_limits", {"min_position", "max_position"}, a.has_position_limits, {a.min_position, a.max_position}, b.has_position_limits, {b.min_position, b.max_position});
    kind(j, "velocity", "has_velocity_limits", {"max_velocity"}, a.has_velocity_limits, {a.max_velocity}, b.has_velocity_limits, {b.max_velocity});
    kind(j, "acceleration", "has_acceleration_limits", {"max_acceleration"}, a.has_acceleration_limits, {a.max_acceleration}, b.has_acceleration_limits, {b.max_acceleration});
    kind(j, "jerk", "has_jerk_limits", {"max_jerk"}, a.has_jerk_limits, {a.max_jerk}, b.has_jerk_limits, {b.max_jerk});
    kind(j, "effort", "has_effort_limits", {"max_effort"}, a.has_effort_limits, {a.max_effort}, b.has_effort_limits, {b.max_effort});
    Poss& h = rd.keys["has_position_limits"];
    Poss& g = rd.keys["angle_wraparound"];
    bool ok = (h.can_no_bool() || h.can_bool(true) || g.can_no_bool()) && a.angle_wraparound == b.angle_wraparound;
    if (h.can_bool(false) && g.can_bool(b.angle_wraparound)) ok = true;
    if (!ok) sim::fail("C30", false, "the angle wrap-around of joint %s is %d after reading, which is not what is specified", S(j), (int)b.angle_wraparound);
  }
  static bool same(const jl::JointLimits& a, const jl::JointLimits& b, bool accel = true)
  {
    return a.has_position_limits == b.has_position_limits && a.has_velocity_limits == b.has_velocity_limits && (!accel || a.has_acceleration_limits == b.has_acceleration_limits) &&
           a.has_jerk_limits == b.has_jerk_limits && a.has_effort_limits == b.has_effort_limits && a.angle_wraparound == b.angle_wraparound && a.min_position == b.min_position &&
           a.max_position == b.max_position && a.max_velocity == b.max_velocity && a.max_acceleration == b.max_acceleration && a.max_jerk == b.max_jerk && a.max_effort == b.max_effort;
  }
  static bool same(const jl::SoftJointLimits& a, const jl::SoftJointLimits& b) { return a.min_position == b.min_position && a.max_position == b.max_position && a.k_position == b.k_position && a.k_velocity == b.k_velocity; }
  void judge_soft(const std::string& j, bool bad, const jl::SoftJointLimits& a, const jl::SoftJointLimits& b, bool ret)
  {
    sim::count("chk_C30");
    rd.on = false;
    Poss &h = rd.keys["has_soft_limits"], &kp = rd.keys["k_position"], &kv = rd.keys["k_velocity"], &lo = rd.keys["soft_lower_limit"], &hi = rd.keys["soft_upper_limit"];
    if (ret)
    {
      if (!bad && !rd.ns.always_none() && h.can_bool(true) && kp.can_num(b.k_position) && kv.can_num(b.k_velocity) && lo.can_num(b.min_position) && hi.can_num(b.max_position)) { sim::count("ev_soft_taken"); return; }
      sim::fail("C30", false, "reading the soft limits of joint %s reports success with [%s, %s], gains %s and %s, which is not a complete specification of the server", S(j), S(num(b.min_position)), S(num(b.max_position)), S(num(b.k_position)), S(num(b.k_velocity)));
      return;
    }
    if (!same(a, b)) { sim::fail("C30", false, "the soft limits of joint %s change though there is no complete specification", S(j)); return; }
    if (!(bad || rd.ns.none || h.can_no_bool() || h.can_bool(false) || kp.can_no_num() || kv.can_no_num() || lo.can_no_num() || hi.can_no_num()))
      sim::fail("C30", false, "reading the soft limits of joint %s reports failure though the server has a complete specification", S(j));
  }
  void judge_urdf(const std::string& j, const urdf::Joint* u, const jl::JointLimits& a, const jl::JointLimits& b, bool ret)
  {
    sim::count("chk_C30");
    bool want = u && u->limits;
    if (ret != want) { sim::fail("C30", false, "reading the URDF limits of joint %s returns %d", S(j), (int)ret); return; }
    jl::JointLimits e = a;
    if (want)
    {
      e.has_position_limits = u->type == urdf::Joint::REVOLUTE || u->type == urdf::Joint::PRISMATIC;
      if (e.has_position_limits) { e.min_position = u->limits->lower; e.max_position = u->limits->upper; }
      if (u->type == urdf::Joint::CONTINUOUS) e.angle_wraparound = true;
      e.has_velocity_limits = e.has_effort_limits = true;
      e.max_velocity = u->limits->velocity;
      e.max_effort = u->limits->effort;
    }
    // whether a URDF joint, which cannot specify acceleration limits, switches them off is left open
    if (!same(e, b, !want) || (b.has_acceleration_limits && !a.has_acceleration_limits)) sim::fail("C30", false, "the limits of joint %s are not those of its URDF joint", S(j));
  }
  void run_spec(const Plan& plan, const Line& cfg)
  {
    spec = true;
    auto& R = simros::world();
    std::string ns = cfg.get("ns");
    std::string pre = (ns.empty() ? "" : "/" + ns) + "/joint_limits/";
    uint64_t lat = cfg.num("lat");
    auto rng = std::make_shared<sim::Rng>(cfg.num("seed", 1));
    double flake = cfg.real("flake");
    auto out_until = std::make_shared<uint64_t>(0);
    for (auto* l : plan.all("param")) R.params[pre + l->get("joint") + "/" + l->get("key")] = value(l->get("val"));
    R.param_call = [=](const std::string&) { if (lat) sim::sleep_ns(rng->below(lat)); };
    R.on_param = [=](const std::string& k) -> int
    {
      if (sim::now() < *out_until) { sim::count("fault_param_unreachable"); unreadable(k); return 1; }
      if (flake > 0 && rng->chance(flake)) { sim::count("fault_param_call"); unreadable(k); return 1; }
      return 0;
    };
    std::map<std::string, urdf::JointSharedPtr> us;
    std::map<std::string, std::string> order;
    for (auto* l : plan.all("joint"))
    {
      auto j = std::unique_ptr<Joint>(new Joint);
      j->name = l->get("name");
      j->type = l->get("type");
      j->rng = sim::Rng(l->num("seed", 1));
      j->x = l->real("x0");
      order[j->name] = l->get("order", "p");
      sim::count("chk_C30");
      if (j->lim.has_position_limits || j->lim.has_velocity_limits || j->lim.has_acceleration_limits || j->lim.has_jerk_limits || j->lim.has_effort_limits || j->lim.angle_wraparound)
        sim::fail("C30", false, "joint %s has limits before any have been specified", S(j->name));
      if (l->num("before"))
      {
        // specified by the robot itself
        j->lim.has_position_limits = j->lim.has_velocity_limits = j->lim.has_effort_limits = j->lim.has_acceleration_limits = j->lim.has_jerk_limits = true;
        j->lim.min_position = -1.5; j->lim.max_position = 1.25; j->lim.max_velocity = 3.5; j->lim.max_effort = 17; j->lim.max_acceleration = 4.5; j->lim.max_jerk = 55;
        j->soft.min_position = -1.25; j->soft.max_position = 1; j->soft.k_position = 7; j->soft.k_velocity = 3;
      }
      std::string uk = l->get("urdf");
      if (uk != "null")
      {
        auto u = std::make_shared<urdf::Joint>();
        u->type = uk == "rev" || uk == "nolimits" ? urdf::Joint::REVOLUTE : uk == "cont" ? urdf::Joint::CONTINUOUS : uk == "pris" ? urdf::Joint::PRISMATIC : uk == "fixed" ? urdf::Joint::FIXED : uk == "float" ? urdf::Joint::FLOATING : uk == "planar" ? urdf::Joint::PLANAR : urdf::Joint::UNKNOWN;
        auto v = l->list("ulim");
        if (uk != "nolimits" && v.size() == 4)
        {
          u->limits = std::make_shared<urdf::JointLimits>();
          u->limits->lower = atof(v[0].c_str()); u->limits->upper = atof(v[1].c_str()); u->limits->velocity = atof(v[2].c_str()); u->limits->effort = atof(v[3].c_str());
        }
        v = l->list("usafe");
        if (v.size() == 4)
        {
          u->safety = std::make_shared<urdf::JointSafety>();
          u->safety->soft_lower_limit = atof(v[0].c_str()); u->safety->soft_upper_limit = atof(v[1].c_str()); u->safety->k_position = atof(v[2].c_str()); u->safety->k_velocity = atof(v[3].c_str());
        }
        us[j->name] = u;
      }
      w.joints.push_back(std::move(j));
    }
    for (auto* l : plan.all("write"))
      sim::spawn("operator", [=]()
      {
        sim::sleep_ns(l->num("at"));
        NoSim n0;
        auto& P = simros::world().params;
        std::string base = pre + l->get("joint"), key = base + "/" + l->get("key");
        sim::ev("write %s %s", S(key), S(l->get("val", "-")));
        sim::count("ev_param_write");
        if (l->get("key") == "*")
        {
          std::vector<std::string> del;
          for (auto& x : P) if (x.first.compare(0, base.size() + 1, base + "/") == 0) del.push_back(x.first);
          for (auto& k : del) P.erase(k);
          for (auto& k : del) changed(k);
          return;
        }
        if (l->has("val")) P[key] = value(l->get("val")); else P.erase(key);
        changed(key);
      }, true);
    for (auto* l : plan.all("out"))
      sim::spawn("outage", [=]() { sim::sleep_ns(l->num("at")); NoSim n0; *out_until = std::max(*out_until, sim::now() + (uint64_t)l->num("dur")); sim::ev("parameter server unreachable"); }, true);
    int rounds = (int)cfg.num("rounds", 1);
    uint64_t dt = std::max<long long>(1, cfg.num("dt", 1000000));
    std::unique_ptr<Ifaces> f;
    sim::spawn("robot", [&]()
    {
      for (int q = 0; q < rounds && !sim::halted(); ++q)
      {
        if (q) sim::sleep_ns(10000000);
        f.reset(new Ifaces);
        for (auto& jp : w.joints)
        {
          Joint& j = *jp;
          bool bad = j.name[0] == '~';
          urdf::JointConstSharedPtr u;
          { NoSim n0; auto i = us.find(j.name); if (i != us.end()) u = i->second; }
          ros::NodeHandle nh(ns);
          std::string ord;
          { NoSim n0; ord = order[j.name]; }
          for (char c : ord)
          {
            jl::JointLimits a = j.lim;
            jl::SoftJointLimits sa = j.soft;
            if (c == 'u')
            {
              bool r1 = jl::getJointLimits(u, j.lim);
              bool r2 = jl::getSoftJointLimits(u, j.soft);
              NoSim n0;
              judge_urdf(j.name, u.get(), a, j.lim, r1);
              jl::SoftJointLimits e = sa;
              if (u && u->safety) { e.min_position = u->safety->soft_lower_limit; e.max_position = u->safety->soft_upper_limit; e.k_position = u->safety->k_position; e.k_velocity = u->safety->k_velocity; }
              if (r2 != (u && u->safety) || !same(e, j.soft)) sim::fail("C30", false, "the soft limits of joint %s are not those of its URDF joint", S(j.name));
              continue;
            }
            for (int soft = 0; soft < 2; ++soft)
            {
              begin_reading(pre + j.name);
              bool ret = false;
              const char* exc = nullptr;
              try { ret = soft ? jl::getSoftJointLimits(j.name, nh, j.soft) : jl::getJointLimits(j.name, nh, j.lim); }
              catch (...) { exc = "an exception"; }
              NoSim n0;
              sim::ev("read %s of %s -> %s", soft ? "soft limits" : "limits", S(j.name), exc ? exc : ret ? "true" : "false");
              if (exc) sim::fail("C30", false, "reading the limits of joint %s ends in an exception", S(j.name));
              else if (soft) judge_soft(j.name, bad, sa, j.soft, ret);
              else judge_params(j.name, bad, a, j.lim, ret);
            }
          }
          // what was read is what gets enforced
          bool vel = j.type == "Ps" || j.type == "V" || j.type[0] == 'E', eff = j.type[0] == 'E';
          bool want = (!vel || j.lim.has_velocity_limits) && (!eff || j.lim.has_effort_limits), got = true;
          try { reg(*f, j); } catch (const jl::JointLimitsInterfaceException&) { got = false; }
          NoSim n0;
          if (got != want) sim::fail("C30", false, "a handle for joint %s (%s) is %s its limits", S(j.name), S(j.type), got ? "made without" : "refused although it has");
          if (!got) sim::count("ev_refused");
          j.fresh = true; j.prev = 0; j.unknown = false;
          j.in = got && sane(j) ? 1 : 0;
          j.amp = j.in;
        }
        for (int c = 0; c < 8 && !sim::halted(); ++c)
        {
          sim::sleep_ns(dt);
          ros::Duration period;
          period.fromNSec((int64_t)dt);
          {
            NoSim n0;
            for (auto& jp : w.joints) { Joint& j = *jp; plant(j, sim::now()); j.pos = j.x; j.vel = j.v; j.cmd = j.in = j.rng.chance(0.3) ? j.rng.uniform(-100, 100) : j.rng.uniform(-4, 4); }
          }
          f->p.enforceLimits(period);
          f->ps.enforceLimits(period);
          f->v.enforceLimits(period);
          f->vs.enforceLimits(period);
          f->e.enforceLimits(period);
          f->es.enforceLimits(period);
          NoSim n0;
          for (auto& jp : w.joints) if (jp->amp > 0) { judge(*jp, dt * 1e-9); jp->u = jp->cmd; }
        }
      }
    });
    sim::run_fibers();
    spec = false;
  }
  // limits that can be enforced
  static bool sane(const Joint& j)
  {
    const auto& L = j.lim;
    const auto& F = j.soft;
    if (L.has_position_limits && !(L.min_position <= L.max_position)) return false;
    if (L.has_velocity_limits && !(L.max_velocity >= 0)) return false;
    if (L.has_acceleration_limits && !(L.max_acceleration >= 0)) return false;
    if (L.has_effort_limits && !(L.max_effort >= 0)) return false;
    return j.type.size() == 1 || !L.has_position_limits || (F.k_position >= 0 && F.k_velocity >= 0 && F.min_position <= F.max_position);
  }

// Small test bench for demonstrations: a robot, some controllers, a realtime loop.
#pragma once
#include "simworld.h"
#include <condition_variable>
#include <unistd.h>
#include <controller_interface/controller.h>
#include <controller_interface/multi_interface_controller.h>
#include <controller_manager/controller_manager.h>
#include <hardware_interface/joint_command_interface.h>
#include <hardware_interface/robot_hw.h>
#include <pluginlib/class_list_macros.hpp>

#define CHECK(c, ...) do { if (!(c)) { printf("FAIL: " __VA_ARGS__); printf("  [%s]\n", #c); fflush(stdout); _exit(1); } } while (0)

typedef std::vector<std::string> Names;
struct Log
{
  std::mutex m;
  std::vector<std::string> v;
  void add(const std::string& s) { std::lock_guard<std::mutex> g(m); v.push_back(s); }
  int count(const std::string& s) { std::lock_guard<std::mutex> g(m); int n = 0; for (auto& x : v) n += x == s; return n; }
  int find(const std::string& s) { std::lock_guard<std::mutex> g(m); for (size_t i = 0; i < v.size(); ++i) if (v[i] == s) return (int)i; return -1; }
  void clear() { std::lock_guard<std::mutex> g(m); v.clear(); }
  void print() { for (auto& x : v) printf("%s ", x.c_str()); printf("\n"); }
};
inline Log& LOG() { static Log* l = new Log; return *l; }
inline std::function<void(const std::string&)>& HOOK() { static auto* f = new std::function<void(const std::string&)>; return *f; }
inline void event(const std::string& s) { LOG().add(s); if (HOOK()) HOOK()(s); }

struct Robot : hardware_interface::RobotHW
{
  hardware_interface::JointStateInterface jsi;
  hardware_interface::PositionJointInterface pji;
  hardware_interface::VelocityJointInterface vji;
  hardware_interface::EffortJointInterface eji;
  double p[8] = {0}, v[8] = {0}, e[8] = {0}, cmd[8] = {0};
  std::function<bool()> on_prepare;
  std::function<void(const std::list<hardware_interface::ControllerInfo>&, const std::list<hardware_interface::ControllerInfo>&)> on_do;
  std::function<SwitchState()> on_result;
  std::function<SwitchState(const std::string&)> on_result_of;
  Robot()
  {
    for (int i = 0; i < 8; ++i) jsi.registerHandle(hardware_interface::JointStateHandle("j" + std::to_string(i), &p[i], &v[i], &e[i]));
    for (int i = 0; i < 8; ++i)
    {
      hardware_interface::JointHandle h(jsi.getHandle("j" + std::to_string(i)), &cmd[i]);
      pji.registerHandle(h); vji.registerHandle(h); eji.registerHandle(h);
    }
    registerInterface(&jsi); registerInterface(&pji); registerInterface(&vji); registerInterface(&eji);
  }
  bool prepareSwitch(const std::list<hardware_interface::ControllerInfo>&, const std::list<hardware_interface::ControllerInfo>&) override { event("prepareSwitch"); return on_prepare ? on_prepare() : true; }
  void doSwitch(const std::list<hardware_interface::ControllerInfo>& a, const std::list<hardware_interface::ControllerInfo>& b) override { event("doSwitch"); if (on_do) on_do(a, b); }
  SwitchState switchResult() const override { return on_result ? on_result() : SwitchState::DONE; }
  SwitchState switchResult(const hardware_interface::ControllerInfo& c) const override { return on_result_of ? on_result_of(c.name) : SwitchState::DONE; }
};

template <class I>
struct Ctl : controller_interface::Controller<I>
{
  std::string name;
  bool init(I* hw, ros::NodeHandle& nh) override
  {
    name = nh.getNamespace().substr(1);
    Names js;
    nh.getParam("joints", js);
    for (auto& j : js) hw->getHandle(j);
    event(name + ":init");
    return true;
  }
  void starting(const ros::Time&) override { event(name + ":starting"); }
  void update(const ros::Time&, const ros::Duration&) override { event(name + ":update"); }
  void stopping(const ros::Time&) override { event(name + ":stopping"); }
  void waiting(const ros::Time&) override { event(name + ":waiting"); }
  void aborting(const ros::Time&) override { event(name + ":aborting"); }
  ~Ctl() override { event(name + ":destroyed"); }
};
struct PosCtl : Ctl<hardware_interface::PositionJointInterface> {};
struct VelCtl : Ctl<hardware_interface::VelocityJointInterface> {};
struct EffCtl : Ctl<hardware_interface::EffortJointInterface> {};

inline void add_class(const std::string& n, std::function<controller_interface::ControllerBase*()> f)
{
  simros::world().classes["controller_interface::ControllerBase"][n] = [f]() -> void* { return f(); };
}
inline void add_controller(const std::string& name, const std::string& type, const Names& joints)
{
  simros::world().params["/" + name + "/type"] = XmlRpc::XmlRpcValue(type);
  simros::world().params["/" + name + "/joints"] = XmlRpc::XmlRpcValue(joints);
}
struct Bench
{
  Robot robot;
  std::unique_ptr<controller_manager::ControllerManager> cm;
  std::atomic<bool> run{false};
  std::atomic<uint64_t> cycles{0};
  std::thread rt;
  Bench()
  {
    simros::reset_world();
    add_class("Pos", [] { return new PosCtl; });
    add_class("Vel", [] { return new VelCtl; });
    add_class("Eff", [] { return new EffCtl; });
    cm.reset(new controller_manager::ControllerManager(&robot));
  }
  void step(bool reset = false) { event("cycle"); cm->update(ros::Time::now(), ros::Duration(0.001), reset); ++cycles; }
  void start(unsigned us = 1000) { run = true; rt = std::thread([this, us] { while (run) { step(); std::this_thread::sleep_for(std::chrono::microseconds(us)); } }); }
  void stop() { run = false; if (rt.joinable()) rt.join(); }
  bool load(const std::string& n) { return cm->loadController(n); }
  template <class T> bool call(const std::string& srv, T& s)
  {
    auto it = simros::world().services.find("/controller_manager/" + srv);
    CHECK(it != simros::world().services.end(), "no service %s", srv.c_str());
    return it->second(&s.request, &s.response);
  }
  bool sw(const Names& a, const Names& b, int strict = 2, bool asap = false, double timeout = 0) { return cm->switchController(a, b, strict, asap, timeout); }
  ~Bench() { stop(); }
};
// Ends the demonstration as failed if it takes too long.
inline void watchdog(int s) { std::thread([s] { std::this_thread::sleep_for(std::chrono::seconds(s)); printf("FAIL: takes too long\n"); fflush(stdout); _exit(1); }).detach(); }

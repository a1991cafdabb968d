#include "simworld.h"
#include "pluginlib/class_loader.hpp"
#include "pluginlib/class_list_macros.hpp"
#include "../core/sim.h"

namespace simros
{
static World* g_world = nullptr;
World& world() { if (!g_world) g_world = new World(); return *g_world; }
void reset_world()
{
  sim::NoSim ns;
  if (g_world) for (auto* l : g_world->loaders) delete l;
  delete g_world;
  g_world = new World();
  g_world->classes = static_classes();
}
std::map<std::string, std::map<std::string, std::function<void*()>>>& static_classes()
{
  static std::map<std::string, std::map<std::string, std::function<void*()>>> c;
  return c;
}
ClassReg::ClassReg(const char* base, const char* cls, std::function<void*()> f)
{
  sim::NoSim ns;
  auto norm = [](std::string s) { while (s.compare(0, 2, "::") == 0) s = s.substr(2); return s; };
  static_classes()[norm(base)][norm(cls)] = f;
}
void logf(Level l, const char* f, ...)
{
  sim::NoSim ns;
  world().logs[l]++;
  if (l >= WARN)
  {
    char b[512];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    world().last_error = b;
    if (getenv("SIM_LOG")) sim::ev("log: %s", b);
  }
}
void logs(Level l, const std::string& s) { logf(l, "%s", s.c_str()); }

LoaderHandle* loader_open(const std::string& package, const std::string& base)
{
  sim::point(sim::P_SYNC);
  LoaderHandle* h;
  {
    sim::NoSim ns;
    h = new LoaderHandle;
    h->package = package;
    h->base = base;
    h->id = (int)world().loaders.size();
    world().loaders.push_back(h);
    if (world().on_open) world().on_open(h);
  }
  return h;
}
void loader_close(LoaderHandle* h)
{
  sim::point(sim::P_SYNC);
  sim::NoSim ns;
  h->open = false;
  if (world().on_close) world().on_close(h);
}
std::vector<std::string> loader_classes(LoaderHandle* h)
{
  sim::point(sim::P_SYNC);
  std::vector<std::string> v;
  {
    sim::NoSim ns;
    for (auto& c : world().classes[h->base]) v.push_back(c.first);
    if (world().on_declared) v = world().on_declared(h, v);
  }
  return v;
}
void* loader_create(LoaderHandle* h, const std::string& cls)
{
  sim::point(sim::P_SYNC);
  std::function<void*()> f;
  bool found = false;
  {
    sim::NoSim ns;
    auto& m = world().classes[h->base];
    auto it = m.find(cls);
    if (it != m.end()) { f = it->second; found = true; }
  }
  struct Clear { std::function<void*()>& f; ~Clear() { sim::NoSim ns; f = nullptr; } } clear{f};
  if (!found) throw pluginlib::LibraryLoadException("According to the loaded plugin descriptions the class " + cls + " does not exist");
  void* p;
  if (world().on_create) p = world().on_create(h, cls, f);
  else p = f();
  if (p) { h->live++; h->created++; }
  return p;
}
void loader_instance_deleted(LoaderHandle* h)
{
  h->live--;
}
}

namespace ros
{
const Duration DURATION_MAX(std::numeric_limits<int32_t>::max(), 999999999), DURATION_MIN(std::numeric_limits<int32_t>::min(), 0);
const Time TIME_MAX(std::numeric_limits<uint32_t>::max(), 999999999), TIME_MIN(0, 1);

bool ok() { sim::point(sim::P_SYNC); return simros::world().ok; }
bool isShuttingDown() { sim::point(sim::P_SYNC); return !simros::world().ok; }
void shutdown() { simros::world().ok = false; }
void requestShutdown() { simros::world().ok = false; }

Time Time::now()
{
  sim::point(sim::P_SYNC);
  sim::NoSim ns;
  int64_t t = simros::world().ros_time ? simros::world().ros_time() : sim::wall();
  return Time().fromNSec((uint64_t)t);
}
WallTime WallTime::now() { sim::point(sim::P_SYNC); WallTime t; t.fromNSec((uint64_t)sim::wall()); return t; }
SteadyTime SteadyTime::now() { sim::point(sim::P_SYNC); SteadyTime t; t.fromNSec(sim::now()); return t; }
bool Duration::sleep() const { int64_t n = toNSec(); if (n > 0) sim::sleep_ns((uint64_t)n); return true; }

namespace names
{
bool validate(const std::string& name, std::string& error)
{
  if (name.empty()) return true;
  char c = name[0];
  if (!isalpha(c) && c != '/' && c != '~') { error = "Character [" + std::string(1, c) + "] is not valid as the first character in Graph Resource Name [" + name + "]"; return false; }
  for (size_t i = 1; i < name.size(); ++i)
  {
    c = name[i];
    if (!isalnum(c) && c != '/' && c != '_') { error = "Character [" + std::string(1, c) + "] at element [" + std::to_string(i) + "] is not valid in Graph Resource Name [" + name + "]"; return false; }
  }
  return true;
}
std::string clean(const std::string& n)
{
  std::string r;
  for (char c : n) if (!(c == '/' && !r.empty() && r.back() == '/')) r += c;
  while (r.size() > 1 && r.back() == '/') r.pop_back();
  return r;
}
}

static std::string join(const std::string& a, const std::string& b)
{
  if (b.empty()) return a;
  if (b[0] == '/') return names::clean(b);
  return names::clean(a + "/" + b);
}
NodeHandle::NodeHandle(const std::string& ns)
{
  std::string e;
  if (!names::validate(ns, e)) throw InvalidNameException(e);
  ns_ = ns.empty() ? "/" : names::clean(ns[0] == '/' ? ns : "/" + (ns[0] == '~' ? "sim" + std::string(ns.size() > 1 ? "/" + ns.substr(1) : "") : ns));
}
NodeHandle::NodeHandle(const NodeHandle& p, const std::string& ns)
{
  sim::point(sim::P_SYNC);
  std::string e;
  if (!names::validate(ns, e)) throw InvalidNameException(e);
  ns_ = join(p.ns_, ns);
}
std::string NodeHandle::resolveName(const std::string& n) const
{
  std::string e;
  if (!names::validate(n, e)) throw InvalidNameException(e);
  return join(ns_, n);
}

static bool lookup(const NodeHandle& nh, const std::string& k, XmlRpc::XmlRpcValue& out)
{
  std::string key = nh.resolveName(k);
  sim::point(sim::P_SYNC);
  if (simros::world().param_call) simros::world().param_call(key);
  sim::NoSim ns;
  if (simros::world().on_param && simros::world().on_param(key) == 1) return false;
  auto& P = simros::world().params;
  auto it = P.find(key);
  if (it != P.end()) { out = it->second; return true; }
  // a namespace read as a struct
  std::string pre = key == "/" ? key : key + "/";
  bool any = false;
  for (auto i = P.lower_bound(pre); i != P.end() && i->first.compare(0, pre.size(), pre) == 0; ++i)
  {
    any = true;
    XmlRpc::XmlRpcValue* v = &out;
    std::stringstream ss(i->first.substr(pre.size()));
    std::string part;
    while (std::getline(ss, part, '/')) v = &(*v)[part];
    *v = i->second;
  }
  if (any) return true;
  // a member of a struct parameter
  auto pos = key.rfind('/');
  if (pos != std::string::npos && pos > 0)
  {
    auto i = P.find(key.substr(0, pos));
    if (i != P.end() && i->second.hasMember(key.substr(pos + 1))) { out = i->second[key.substr(pos + 1)]; return true; }
  }
  return false;
}
bool NodeHandle::hasParam(const std::string& k) const { XmlRpc::XmlRpcValue v; return lookup(*this, k, v); }
bool NodeHandle::deleteParam(const std::string& k) const { sim::NoSim ns; return simros::world().params.erase(resolveName(k)) > 0; }
bool NodeHandle::getParam(const std::string& k, std::string& v) const { XmlRpc::XmlRpcValue x; if (!lookup(*this, k, x) || x.getType() != x.TypeString) return false; v = x.str(); return true; }
bool NodeHandle::getParam(const std::string& k, double& v) const
{
  XmlRpc::XmlRpcValue x;
  if (!lookup(*this, k, x)) return false;
  if (x.getType() != x.TypeDouble && x.getType() != x.TypeInt) return false;
  v = x.num();
  return true;
}
bool NodeHandle::getParam(const std::string& k, float& v) const { double d; if (!getParam(k, d)) return false; v = (float)d; return true; }
bool NodeHandle::getParam(const std::string& k, int& v) const
{
  XmlRpc::XmlRpcValue x;
  if (!lookup(*this, k, x) || x.getType() != x.TypeInt) return false;
  v = x.inum();
  return true;
}
bool NodeHandle::getParam(const std::string& k, bool& v) const { XmlRpc::XmlRpcValue x; if (!lookup(*this, k, x) || x.getType() != x.TypeBoolean) return false; v = x.boolean(); return true; }
bool NodeHandle::getParam(const std::string& k, XmlRpc::XmlRpcValue& v) const { return lookup(*this, k, v); }
bool NodeHandle::getParam(const std::string& k, std::vector<std::string>& v) const
{
  XmlRpc::XmlRpcValue x;
  if (!lookup(*this, k, x) || x.getType() != x.TypeArray) return false;
  for (auto& e : x.arr()) if (e.getType() != e.TypeString) return false;
  v.clear();
  for (auto& e : x.arr()) v.push_back(e.str());
  return true;
}
bool NodeHandle::getParam(const std::string& k, std::vector<double>& v) const
{
  XmlRpc::XmlRpcValue x;
  if (!lookup(*this, k, x) || x.getType() != x.TypeArray) return false;
  v.clear();
  for (auto& e : x.arr()) v.push_back(e.num());
  return true;
}
void NodeHandle::setRaw(const std::string& k, const XmlRpc::XmlRpcValue& v) const { sim::NoSim ns; simros::world().params[resolveName(k)] = v; }

ServiceServer NodeHandle::advertiseRaw(const std::string& name, RawService f)
{
  ServiceServer s;
  s.impl_ = std::make_shared<ServiceServer::Impl>();
  sim::NoSim ns;
  s.impl_->name = resolveName(name);
  simros::world().services[s.impl_->name] = f;
  return s;
}
ServiceServer::Impl::~Impl() { sim::NoSim ns; if (simros::g_world) simros::world().services.erase(name); }
}

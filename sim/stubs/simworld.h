// The state of the simulated ROS world (parameters, services, plugins, time, shutdown).
#pragma once
#include "simros.h"
namespace simros
{
struct LoaderHandle
{
  std::string package, base;
  int id = 0;
  bool open = true;
  int live = 0;       // instances created through it and not yet deleted
  int created = 0;
};
struct World
{
  std::map<std::string, XmlRpc::XmlRpcValue> params;
  std::map<std::string, ros::NodeHandle::RawService> services;
  bool ok = true;
  std::function<int64_t()> ros_time;                       // ns; default: wall clock
  std::map<std::string, std::map<std::string, std::function<void*()>>> classes;  // base class -> class -> factory
  std::vector<LoaderHandle*> loaders;
  std::function<void(LoaderHandle*)> on_open, on_close;
  std::function<std::vector<std::string>(LoaderHandle*, std::vector<std::string>)> on_declared;
  std::function<void*(LoaderHandle*, const std::string&, std::function<void*()>)> on_create;
  std::function<void(const std::string&)> param_call;      // a parameter is asked for; may let time pass
  std::function<int(const std::string&)> on_param;         // 1: the parameter cannot be found; may throw
  uint64_t logs[5] = {0, 0, 0, 0, 0};
  std::string last_error;
};
World& world();
void reset_world();
// classes registered statically with PLUGINLIB_EXPORT_CLASS
std::map<std::string, std::map<std::string, std::function<void*()>>>& static_classes();
}

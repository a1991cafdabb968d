// A simulated ROS: time, parameters, services, logging and plugin loading, all owned by the simulator.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <typeinfo>
#include <utility>
#include <vector>

namespace XmlRpc
{
class XmlRpcException : public std::runtime_error
{
public:
  XmlRpcException(const std::string& m, int = -1) : std::runtime_error(m) {}
  std::string getMessage() const { return what(); }
};
class XmlRpcValue
{
public:
  enum Type { TypeInvalid, TypeBoolean, TypeInt, TypeDouble, TypeString, TypeDateTime, TypeBase64, TypeArray, TypeStruct };
  typedef std::map<std::string, XmlRpcValue> ValueStruct;
  typedef ValueStruct::iterator iterator;
  typedef ValueStruct::const_iterator const_iterator;
  XmlRpcValue() {}
  XmlRpcValue(bool b) : t_(TypeBoolean), b_(b) {}
  XmlRpcValue(int i) : t_(TypeInt), i_(i) {}
  XmlRpcValue(double d) : t_(TypeDouble), d_(d) {}
  XmlRpcValue(const std::string& s) : t_(TypeString), s_(s) {}
  XmlRpcValue(const char* s) : t_(TypeString), s_(s) {}
  XmlRpcValue(const std::vector<std::string>& v) : t_(TypeArray) { for (auto& x : v) a_.push_back(XmlRpcValue(x)); }
  Type getType() const { return t_; }
  bool valid() const { return t_ != TypeInvalid; }
  int size() const { return t_ == TypeArray ? (int)a_.size() : t_ == TypeStruct ? (int)m_.size() : t_ == TypeString ? (int)s_.size() : 0; }
  operator bool&() { need(TypeBoolean); return b_; }
  operator int&() { need(TypeInt); return i_; }
  operator double&() { need(TypeDouble); return d_; }
  operator std::string&() { need(TypeString); return s_; }
  XmlRpcValue& operator[](int i) { if (t_ != TypeArray && t_ != TypeInvalid) throw XmlRpcException("type error"); t_ = TypeArray; if (i >= (int)a_.size()) a_.resize(i + 1); return a_[i]; }
  const XmlRpcValue& operator[](int i) const { return a_.at(i); }
  XmlRpcValue& operator[](const std::string& k) { if (t_ != TypeStruct && t_ != TypeInvalid) throw XmlRpcException("type error"); t_ = TypeStruct; return m_[k]; }
  XmlRpcValue& operator[](const char* k) { return (*this)[std::string(k)]; }
  bool hasMember(const std::string& k) const { return t_ == TypeStruct && m_.count(k); }
  iterator begin() { return m_.begin(); }
  iterator end() { return m_.end(); }
  const std::string& str() const { return s_; }
  double num() const { return t_ == TypeDouble ? d_ : i_; }
  int inum() const { return i_; }
  bool boolean() const { return b_; }
  const std::vector<XmlRpcValue>& arr() const { return a_; }

private:
  void need(Type t) { if (t_ != t) throw XmlRpcException("type error"); }
  Type t_ = TypeInvalid;
  bool b_ = false;
  int i_ = 0;
  double d_ = 0;
  std::string s_;
  std::vector<XmlRpcValue> a_;
  ValueStruct m_;
};
}

namespace ros
{
class Exception : public std::runtime_error { public: Exception(const std::string& s) : std::runtime_error(s) {} };
class InvalidNameException : public Exception { public: InvalidNameException(const std::string& s) : Exception(s) {} };
class InvalidNodeNameException : public Exception { public: InvalidNodeNameException(const std::string& n, const std::string& r) : Exception(n + r) {} };
class TimeNotInitializedException : public Exception { public: TimeNotInitializedException() : Exception("time not initialized") {} };

class Duration
{
public:
  int32_t sec = 0, nsec = 0;
  Duration() {}
  Duration(int32_t s, int32_t n) : sec(s), nsec(n) { norm(); }
  explicit Duration(double t) { fromSec(t); }
  Duration& fromSec(double t)
  {
    int64_t s = (int64_t)std::floor(t);
    int64_t n = (int64_t)std::llround((t - s) * 1e9);
    s += n / 1000000000; n %= 1000000000;
    sec = (int32_t)s; nsec = (int32_t)n;
    return *this;
  }
  Duration& fromNSec(int64_t t) { int64_t s = t / 1000000000ll, n = t % 1000000000ll; if (n < 0) { n += 1000000000ll; --s; } sec = (int32_t)s; nsec = (int32_t)n; return *this; }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  int64_t toNSec() const { return (int64_t)sec * 1000000000ll + nsec; }
  bool isZero() const { return !sec && !nsec; }
  bool sleep() const;
  Duration operator+(const Duration& o) const { return Duration().fromNSec(toNSec() + o.toNSec()); }
  Duration operator-(const Duration& o) const { return Duration().fromNSec(toNSec() - o.toNSec()); }
  Duration operator-() const { return Duration().fromNSec(-toNSec()); }
  Duration operator*(double s) const { return Duration(toSec() * s); }
  Duration& operator+=(const Duration& o) { *this = *this + o; return *this; }
  Duration& operator-=(const Duration& o) { *this = *this - o; return *this; }
  bool operator==(const Duration& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Duration& o) const { return toNSec() != o.toNSec(); }
  bool operator<(const Duration& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Duration& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Duration& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Duration& o) const { return toNSec() >= o.toNSec(); }

private:
  void norm() { fromNSec(toNSec()); }
};
class Time
{
public:
  uint32_t sec = 0, nsec = 0;
  Time() {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  explicit Time(double t) { fromSec(t); }
  static Time now();
  static bool isValid() { return true; }
  static bool isSystemTime() { return true; }
  static bool isSimTime() { return false; }
  static void init() {}
  static bool waitForValid() { return true; }
  Time& fromSec(double t) { int64_t s = (int64_t)std::floor(t); int64_t n = (int64_t)std::llround((t - s) * 1e9); s += n / 1000000000; n %= 1000000000; sec = (uint32_t)s; nsec = (uint32_t)n; return *this; }
  Time& fromNSec(uint64_t t) { sec = (uint32_t)(t / 1000000000ull); nsec = (uint32_t)(t % 1000000000ull); return *this; }
  double toSec() const { return (double)sec + 1e-9 * (double)nsec; }
  uint64_t toNSec() const { return (uint64_t)sec * 1000000000ull + nsec; }
  bool isZero() const { return !sec && !nsec; }
  Duration operator-(const Time& o) const { return Duration().fromNSec((int64_t)toNSec() - (int64_t)o.toNSec()); }
  Time operator+(const Duration& d) const { return Time().fromNSec((uint64_t)((int64_t)toNSec() + d.toNSec())); }
  Time operator-(const Duration& d) const { return Time().fromNSec((uint64_t)((int64_t)toNSec() - d.toNSec())); }
  Time& operator+=(const Duration& d) { *this = *this + d; return *this; }
  Time& operator-=(const Duration& d) { *this = *this - d; return *this; }
  bool operator==(const Time& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Time& o) const { return toNSec() != o.toNSec(); }
  bool operator<(const Time& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Time& o) const { return toNSec() > o.toNSec(); }
  bool operator<=(const Time& o) const { return toNSec() <= o.toNSec(); }
  bool operator>=(const Time& o) const { return toNSec() >= o.toNSec(); }
};
inline std::ostream& operator<<(std::ostream& o, const Duration& d) { return o << d.toSec(); }
inline std::ostream& operator<<(std::ostream& o, const Time& d) { return o << d.toSec(); }
class WallDuration : public Duration
{
public:
  WallDuration() {}
  WallDuration(int32_t s, int32_t n) : Duration(s, n) {}
  explicit WallDuration(double t) : Duration(t) {}
  WallDuration(const Duration& d) : Duration(d) {}
};
class WallTime : public Time
{
public:
  WallTime() {}
  WallTime(uint32_t s, uint32_t n) : Time(s, n) {}
  explicit WallTime(double t) : Time(t) {}
  WallTime(const Time& t) : Time(t) {}
  static WallTime now();
  WallDuration operator-(const WallTime& o) const { return WallDuration(Time::operator-(o)); }
  WallTime operator+(const WallDuration& d) const { return WallTime(Time::operator+(d)); }
  WallTime operator-(const WallDuration& d) const { return WallTime(Time::operator-(static_cast<const Duration&>(d))); }
};
class SteadyTime : public Time
{
public:
  SteadyTime() {}
  SteadyTime(uint32_t s, uint32_t n) : Time(s, n) {}
  explicit SteadyTime(double t) : Time(t) {}
  SteadyTime(const Time& t) : Time(t) {}
  static SteadyTime now();
  WallDuration operator-(const SteadyTime& o) const { return WallDuration(Time::operator-(o)); }
  SteadyTime operator+(const WallDuration& d) const { return SteadyTime(Time::operator+(d)); }
};
extern const Duration DURATION_MAX, DURATION_MIN;
extern const Time TIME_MAX, TIME_MIN;

class Rate
{
public:
  explicit Rate(double hz) : d_(1.0 / hz) {}
  explicit Rate(const Duration& d) : d_(d) {}
  bool sleep() { return d_.sleep(); }
  void reset() {}
  Duration cycleTime() const { return d_; }
  Duration expectedCycleTime() const { return d_; }
private:
  Duration d_;
};
typedef Rate WallRate;
struct TimerEvent { Time last_expected, last_real, current_expected, current_real; };
class Timer { public: void start() {} void stop() {} };

bool ok();
bool isShuttingDown();
void shutdown();
void requestShutdown();
inline void init(int&, char**, const std::string&, uint32_t = 0) {}
inline void spinOnce() {}
inline bool isInitialized() { return true; }
inline bool isStarted() { return true; }
namespace this_node { inline const std::string& getName() { static const std::string n = "/sim"; return n; } inline const std::string& getNamespace() { static const std::string n = "/"; return n; } }
namespace names { bool validate(const std::string& name, std::string& error); std::string clean(const std::string& n); }

class ServiceServer
{
public:
  struct Impl { std::string name; ~Impl(); };
  void shutdown() { impl_.reset(); }
  std::string getService() const { return impl_ ? impl_->name : ""; }
  operator void*() const { return impl_ ? (void*)1 : nullptr; }
  std::shared_ptr<Impl> impl_;
};
class Publisher { public: template <class M> void publish(const M&) const {} void shutdown() {} uint32_t getNumSubscribers() const { return 0; } };
class Subscriber { public: void shutdown() {} };

class NodeHandle
{
public:
  NodeHandle(const std::string& ns = std::string());
  NodeHandle(const NodeHandle& parent, const std::string& ns);
  NodeHandle(const NodeHandle&) = default;
  NodeHandle& operator=(const NodeHandle&) = default;
  const std::string& getNamespace() const { return ns_; }
  std::string resolveName(const std::string& n) const;
  bool ok() const { return ros::ok(); }
  void shutdown() {}

  bool hasParam(const std::string& k) const;
  bool deleteParam(const std::string& k) const;
  bool getParam(const std::string& k, std::string& v) const;
  bool getParam(const std::string& k, double& v) const;
  bool getParam(const std::string& k, float& v) const;
  bool getParam(const std::string& k, int& v) const;
  bool getParam(const std::string& k, bool& v) const;
  bool getParam(const std::string& k, XmlRpc::XmlRpcValue& v) const;
  bool getParam(const std::string& k, std::vector<std::string>& v) const;
  bool getParam(const std::string& k, std::vector<double>& v) const;
  template <class T> bool getParamCached(const std::string& k, T& v) const { return getParam(k, v); }
  template <class T> void param(const std::string& k, T& v, const T& d) const { if (!getParam(k, v)) v = d; }
  template <class T> T param(const std::string& k, const T& d) const { T v; return getParam(k, v) ? v : d; }
  template <class T> void setParam(const std::string& k, const T& v) const { setRaw(k, XmlRpc::XmlRpcValue(v)); }
  void setRaw(const std::string& k, const XmlRpc::XmlRpcValue& v) const;
  bool searchParam(const std::string& k, std::string& out) const { out = resolveName(k); return hasParam(k); }

  typedef std::function<bool(void*, void*)> RawService;
  ServiceServer advertiseRaw(const std::string& name, RawService f);
  template <class T, class Req, class Res>
  ServiceServer advertiseService(const std::string& n, bool (T::*f)(Req&, Res&), T* obj)
  { return advertiseRaw(n, [f, obj](void* a, void* b) { return (obj->*f)(*static_cast<Req*>(a), *static_cast<Res*>(b)); }); }
  template <class Req, class Res>
  ServiceServer advertiseService(const std::string& n, bool (*f)(Req&, Res&))
  { return advertiseRaw(n, [f](void* a, void* b) { return f(*static_cast<Req*>(a), *static_cast<Res*>(b)); }); }
  template <class Req, class Res>
  ServiceServer advertiseService(const std::string& n, const std::function<bool(Req&, Res&)>& f)
  { return advertiseRaw(n, [f](void* a, void* b) { return f(*static_cast<Req*>(a), *static_cast<Res*>(b)); }); }
  template <class M> Publisher advertise(const std::string&, uint32_t, bool = false) { return Publisher(); }

private:
  std::string ns_;
};
}

namespace simros
{
enum Level { DEBUG, INFO, WARN, ERROR, FATAL };
void logf(Level l, const char* f, ...) __attribute__((format(printf, 2, 3)));
void logs(Level l, const std::string& s);
}

#define SIMROS_LOG(lvl, ...) do { ::simros::logf(::simros::lvl, __VA_ARGS__); } while (0)
#define SIMROS_LOGS(lvl, args) do { std::stringstream simros_ss__; simros_ss__ << args; ::simros::logs(::simros::lvl, simros_ss__.str()); } while (0)
#define SIMROS_OFF(...) do { if (false) { ::simros::logf(::simros::DEBUG, __VA_ARGS__); } } while (0)
#define SIMROS_OFFS(args) do { if (false) { std::stringstream simros_ss__; simros_ss__ << args; } } while (0)

#define ROS_DEBUG(...) SIMROS_OFF(__VA_ARGS__)
#define ROS_DEBUG_ONCE(...) SIMROS_OFF(__VA_ARGS__)
#define ROS_DEBUG_THROTTLE(p, ...) do { (void)(p); SIMROS_OFF(__VA_ARGS__); } while (0)
#define ROS_DEBUG_DELAYED_THROTTLE(p, ...) do { (void)(p); SIMROS_OFF(__VA_ARGS__); } while (0)
#define ROS_DEBUG_COND(c, ...) do { if (c) SIMROS_OFF(__VA_ARGS__); } while (0)
#define ROS_DEBUG_FILTER(f, ...) do { (void)(f); SIMROS_OFF(__VA_ARGS__); } while (0)
#define ROS_DEBUG_STREAM(a) SIMROS_OFFS(a)
#define ROS_DEBUG_STREAM_ONCE(a) SIMROS_OFFS(a)
#define ROS_DEBUG_STREAM_THROTTLE(p, a) do { (void)(p); SIMROS_OFFS(a); } while (0)
#define ROS_DEBUG_STREAM_DELAYED_THROTTLE(p, a) do { (void)(p); SIMROS_OFFS(a); } while (0)
#define ROS_DEBUG_STREAM_COND(c, a) do { if (c) SIMROS_OFFS(a); } while (0)
#define ROS_DEBUG_STREAM_FILTER(f, a) do { (void)(f); SIMROS_OFFS(a); } while (0)
#define ROS_DEBUG_NAMED(n, ...) do { (void)(n); SIMROS_OFF(__VA_ARGS__); } while (0)
#define ROS_DEBUG_ONCE_NAMED(n, ...) do { (void)(n); SIMROS_OFF(__VA_ARGS__); } while (0)
#define ROS_DEBUG_THROTTLE_NAMED(p, n, ...) do { (void)(n); (void)(p); SIMROS_OFF(__VA_ARGS__); } while (0)
#define ROS_DEBUG_DELAYED_THROTTLE_NAMED(p, n, ...) do { (void)(n); (void)(p); SIMROS_OFF(__VA_ARGS__); } while (0)
#define ROS_DEBUG_COND_NAMED(c, n, ...) do { (void)(n); if (c) SIMROS_OFF(__VA_ARGS__); } while (0)
#define ROS_DEBUG_FILTER_NAMED(f, n, ...) do { (void)(n); (void)(f); SIMROS_OFF(__VA_ARGS__); } while (0)
#define ROS_DEBUG_STREAM_NAMED(n, a) do { (void)(n); SIMROS_OFFS(a); } while (0)
#define ROS_DEBUG_STREAM_ONCE_NAMED(n, a) do { (void)(n); SIMROS_OFFS(a); } while (0)
#define ROS_DEBUG_STREAM_THROTTLE_NAMED(p, n, a) do { (void)(n); (void)(p); SIMROS_OFFS(a); } while (0)
#define ROS_DEBUG_STREAM_DELAYED_THROTTLE_NAMED(p, n, a) do { (void)(n); (void)(p); SIMROS_OFFS(a); } while (0)
#define ROS_DEBUG_STREAM_COND_NAMED(c, n, a) do { (void)(n); if (c) SIMROS_OFFS(a); } while (0)
#define ROS_DEBUG_STREAM_FILTER_NAMED(f, n, a) do { (void)(n); (void)(f); SIMROS_OFFS(a); } while (0)
#define ROS_INFO(...) SIMROS_LOG(INFO, __VA_ARGS__)
#define ROS_INFO_ONCE(...) SIMROS_LOG(INFO, __VA_ARGS__)
#define ROS_INFO_THROTTLE(p, ...) do { (void)(p); SIMROS_LOG(INFO, __VA_ARGS__); } while (0)
#define ROS_INFO_DELAYED_THROTTLE(p, ...) do { (void)(p); SIMROS_LOG(INFO, __VA_ARGS__); } while (0)
#define ROS_INFO_COND(c, ...) do { if (c) SIMROS_LOG(INFO, __VA_ARGS__); } while (0)
#define ROS_INFO_FILTER(f, ...) do { (void)(f); SIMROS_LOG(INFO, __VA_ARGS__); } while (0)
#define ROS_INFO_STREAM(a) SIMROS_LOGS(INFO, a)
#define ROS_INFO_STREAM_ONCE(a) SIMROS_LOGS(INFO, a)
#define ROS_INFO_STREAM_THROTTLE(p, a) do { (void)(p); SIMROS_LOGS(INFO, a); } while (0)
#define ROS_INFO_STREAM_DELAYED_THROTTLE(p, a) do { (void)(p); SIMROS_LOGS(INFO, a); } while (0)
#define ROS_INFO_STREAM_COND(c, a) do { if (c) SIMROS_LOGS(INFO, a); } while (0)
#define ROS_INFO_STREAM_FILTER(f, a) do { (void)(f); SIMROS_LOGS(INFO, a); } while (0)
#define ROS_INFO_NAMED(n, ...) do { (void)(n); SIMROS_LOG(INFO, __VA_ARGS__); } while (0)
#define ROS_INFO_ONCE_NAMED(n, ...) do { (void)(n); SIMROS_LOG(INFO, __VA_ARGS__); } while (0)
#define ROS_INFO_THROTTLE_NAMED(p, n, ...) do { (void)(n); (void)(p); SIMROS_LOG(INFO, __VA_ARGS__); } while (0)
#define ROS_INFO_DELAYED_THROTTLE_NAMED(p, n, ...) do { (void)(n); (void)(p); SIMROS_LOG(INFO, __VA_ARGS__); } while (0)
#define ROS_INFO_COND_NAMED(c, n, ...) do { (void)(n); if (c) SIMROS_LOG(INFO, __VA_ARGS__); } while (0)
#define ROS_INFO_FILTER_NAMED(f, n, ...) do { (void)(n); (void)(f); SIMROS_LOG(INFO, __VA_ARGS__); } while (0)
#define ROS_INFO_STREAM_NAMED(n, a) do { (void)(n); SIMROS_LOGS(INFO, a); } while (0)
#define ROS_INFO_STREAM_ONCE_NAMED(n, a) do { (void)(n); SIMROS_LOGS(INFO, a); } while (0)
#define ROS_INFO_STREAM_THROTTLE_NAMED(p, n, a) do { (void)(n); (void)(p); SIMROS_LOGS(INFO, a); } while (0)
#define ROS_INFO_STREAM_DELAYED_THROTTLE_NAMED(p, n, a) do { (void)(n); (void)(p); SIMROS_LOGS(INFO, a); } while (0)
#define ROS_INFO_STREAM_COND_NAMED(c, n, a) do { (void)(n); if (c) SIMROS_LOGS(INFO, a); } while (0)
#define ROS_INFO_STREAM_FILTER_NAMED(f, n, a) do { (void)(n); (void)(f); SIMROS_LOGS(INFO, a); } while (0)
#define ROS_WARN(...) SIMROS_LOG(WARN, __VA_ARGS__)
#define ROS_WARN_ONCE(...) SIMROS_LOG(WARN, __VA_ARGS__)
#define ROS_WARN_THROTTLE(p, ...) do { (void)(p); SIMROS_LOG(WARN, __VA_ARGS__); } while (0)
#define ROS_WARN_DELAYED_THROTTLE(p, ...) do { (void)(p); SIMROS_LOG(WARN, __VA_ARGS__); } while (0)
#define ROS_WARN_COND(c, ...) do { if (c) SIMROS_LOG(WARN, __VA_ARGS__); } while (0)
#define ROS_WARN_FILTER(f, ...) do { (void)(f); SIMROS_LOG(WARN, __VA_ARGS__); } while (0)
#define ROS_WARN_STREAM(a) SIMROS_LOGS(WARN, a)
#define ROS_WARN_STREAM_ONCE(a) SIMROS_LOGS(WARN, a)
#define ROS_WARN_STREAM_THROTTLE(p, a) do { (void)(p); SIMROS_LOGS(WARN, a); } while (0)
#define ROS_WARN_STREAM_DELAYED_THROTTLE(p, a) do { (void)(p); SIMROS_LOGS(WARN, a); } while (0)
#define ROS_WARN_STREAM_COND(c, a) do { if (c) SIMROS_LOGS(WARN, a); } while (0)
#define ROS_WARN_STREAM_FILTER(f, a) do { (void)(f); SIMROS_LOGS(WARN, a); } while (0)
#define ROS_WARN_NAMED(n, ...) do { (void)(n); SIMROS_LOG(WARN, __VA_ARGS__); } while (0)
#define ROS_WARN_ONCE_NAMED(n, ...) do { (void)(n); SIMROS_LOG(WARN, __VA_ARGS__); } while (0)
#define ROS_WARN_THROTTLE_NAMED(p, n, ...) do { (void)(n); (void)(p); SIMROS_LOG(WARN, __VA_ARGS__); } while (0)
#define ROS_WARN_DELAYED_THROTTLE_NAMED(p, n, ...) do { (void)(n); (void)(p); SIMROS_LOG(WARN, __VA_ARGS__); } while (0)
#define ROS_WARN_COND_NAMED(c, n, ...) do { (void)(n); if (c) SIMROS_LOG(WARN, __VA_ARGS__); } while (0)
#define ROS_WARN_FILTER_NAMED(f, n, ...) do { (void)(n); (void)(f); SIMROS_LOG(WARN, __VA_ARGS__); } while (0)
#define ROS_WARN_STREAM_NAMED(n, a) do { (void)(n); SIMROS_LOGS(WARN, a); } while (0)
#define ROS_WARN_STREAM_ONCE_NAMED(n, a) do { (void)(n); SIMROS_LOGS(WARN, a); } while (0)
#define ROS_WARN_STREAM_THROTTLE_NAMED(p, n, a) do { (void)(n); (void)(p); SIMROS_LOGS(WARN, a); } while (0)
#define ROS_WARN_STREAM_DELAYED_THROTTLE_NAMED(p, n, a) do { (void)(n); (void)(p); SIMROS_LOGS(WARN, a); } while (0)
#define ROS_WARN_STREAM_COND_NAMED(c, n, a) do { (void)(n); if (c) SIMROS_LOGS(WARN, a); } while (0)
#define ROS_WARN_STREAM_FILTER_NAMED(f, n, a) do { (void)(n); (void)(f); SIMROS_LOGS(WARN, a); } while (0)
#define ROS_ERROR(...) SIMROS_LOG(ERROR, __VA_ARGS__)
#define ROS_ERROR_ONCE(...) SIMROS_LOG(ERROR, __VA_ARGS__)
#define ROS_ERROR_THROTTLE(p, ...) do { (void)(p); SIMROS_LOG(ERROR, __VA_ARGS__); } while (0)
#define ROS_ERROR_DELAYED_THROTTLE(p, ...) do { (void)(p); SIMROS_LOG(ERROR, __VA_ARGS__); } while (0)
#define ROS_ERROR_COND(c, ...) do { if (c) SIMROS_LOG(ERROR, __VA_ARGS__); } while (0)
#define ROS_ERROR_FILTER(f, ...) do { (void)(f); SIMROS_LOG(ERROR, __VA_ARGS__); } while (0)
#define ROS_ERROR_STREAM(a) SIMROS_LOGS(ERROR, a)
#define ROS_ERROR_STREAM_ONCE(a) SIMROS_LOGS(ERROR, a)
#define ROS_ERROR_STREAM_THROTTLE(p, a) do { (void)(p); SIMROS_LOGS(ERROR, a); } while (0)
#define ROS_ERROR_STREAM_DELAYED_THROTTLE(p, a) do { (void)(p); SIMROS_LOGS(ERROR, a); } while (0)
#define ROS_ERROR_STREAM_COND(c, a) do { if (c) SIMROS_LOGS(ERROR, a); } while (0)
#define ROS_ERROR_STREAM_FILTER(f, a) do { (void)(f); SIMROS_LOGS(ERROR, a); } while (0)
#define ROS_ERROR_NAMED(n, ...) do { (void)(n); SIMROS_LOG(ERROR, __VA_ARGS__); } while (0)
#define ROS_ERROR_ONCE_NAMED(n, ...) do { (void)(n); SIMROS_LOG(ERROR, __VA_ARGS__); } while (0)
#define ROS_ERROR_THROTTLE_NAMED(p, n, ...) do { (void)(n); (void)(p); SIMROS_LOG(ERROR, __VA_ARGS__); } while (0)
#define ROS_ERROR_DELAYED_THROTTLE_NAMED(p, n, ...) do { (void)(n); (void)(p); SIMROS_LOG(ERROR, __VA_ARGS__); } while (0)
#define ROS_ERROR_COND_NAMED(c, n, ...) do { (void)(n); if (c) SIMROS_LOG(ERROR, __VA_ARGS__); } while (0)
#define ROS_ERROR_FILTER_NAMED(f, n, ...) do { (void)(n); (void)(f); SIMROS_LOG(ERROR, __VA_ARGS__); } while (0)
#define ROS_ERROR_STREAM_NAMED(n, a) do { (void)(n); SIMROS_LOGS(ERROR, a); } while (0)
#define ROS_ERROR_STREAM_ONCE_NAMED(n, a) do { (void)(n); SIMROS_LOGS(ERROR, a); } while (0)
#define ROS_ERROR_STREAM_THROTTLE_NAMED(p, n, a) do { (void)(n); (void)(p); SIMROS_LOGS(ERROR, a); } while (0)
#define ROS_ERROR_STREAM_DELAYED_THROTTLE_NAMED(p, n, a) do { (void)(n); (void)(p); SIMROS_LOGS(ERROR, a); } while (0)
#define ROS_ERROR_STREAM_COND_NAMED(c, n, a) do { (void)(n); if (c) SIMROS_LOGS(ERROR, a); } while (0)
#define ROS_ERROR_STREAM_FILTER_NAMED(f, n, a) do { (void)(n); (void)(f); SIMROS_LOGS(ERROR, a); } while (0)
#define ROS_FATAL(...) SIMROS_LOG(FATAL, __VA_ARGS__)
#define ROS_FATAL_ONCE(...) SIMROS_LOG(FATAL, __VA_ARGS__)
#define ROS_FATAL_THROTTLE(p, ...) do { (void)(p); SIMROS_LOG(FATAL, __VA_ARGS__); } while (0)
#define ROS_FATAL_DELAYED_THROTTLE(p, ...) do { (void)(p); SIMROS_LOG(FATAL, __VA_ARGS__); } while (0)
#define ROS_FATAL_COND(c, ...) do { if (c) SIMROS_LOG(FATAL, __VA_ARGS__); } while (0)
#define ROS_FATAL_FILTER(f, ...) do { (void)(f); SIMROS_LOG(FATAL, __VA_ARGS__); } while (0)
#define ROS_FATAL_STREAM(a) SIMROS_LOGS(FATAL, a)
#define ROS_FATAL_STREAM_ONCE(a) SIMROS_LOGS(FATAL, a)
#define ROS_FATAL_STREAM_THROTTLE(p, a) do { (void)(p); SIMROS_LOGS(FATAL, a); } while (0)
#define ROS_FATAL_STREAM_DELAYED_THROTTLE(p, a) do { (void)(p); SIMROS_LOGS(FATAL, a); } while (0)
#define ROS_FATAL_STREAM_COND(c, a) do { if (c) SIMROS_LOGS(FATAL, a); } while (0)
#define ROS_FATAL_STREAM_FILTER(f, a) do { (void)(f); SIMROS_LOGS(FATAL, a); } while (0)
#define ROS_FATAL_NAMED(n, ...) do { (void)(n); SIMROS_LOG(FATAL, __VA_ARGS__); } while (0)
#define ROS_FATAL_ONCE_NAMED(n, ...) do { (void)(n); SIMROS_LOG(FATAL, __VA_ARGS__); } while (0)
#define ROS_FATAL_THROTTLE_NAMED(p, n, ...) do { (void)(n); (void)(p); SIMROS_LOG(FATAL, __VA_ARGS__); } while (0)
#define ROS_FATAL_DELAYED_THROTTLE_NAMED(p, n, ...) do { (void)(n); (void)(p); SIMROS_LOG(FATAL, __VA_ARGS__); } while (0)
#define ROS_FATAL_COND_NAMED(c, n, ...) do { (void)(n); if (c) SIMROS_LOG(FATAL, __VA_ARGS__); } while (0)
#define ROS_FATAL_FILTER_NAMED(f, n, ...) do { (void)(n); (void)(f); SIMROS_LOG(FATAL, __VA_ARGS__); } while (0)
#define ROS_FATAL_STREAM_NAMED(n, a) do { (void)(n); SIMROS_LOGS(FATAL, a); } while (0)
#define ROS_FATAL_STREAM_ONCE_NAMED(n, a) do { (void)(n); SIMROS_LOGS(FATAL, a); } while (0)
#define ROS_FATAL_STREAM_THROTTLE_NAMED(p, n, a) do { (void)(n); (void)(p); SIMROS_LOGS(FATAL, a); } while (0)
#define ROS_FATAL_STREAM_DELAYED_THROTTLE_NAMED(p, n, a) do { (void)(n); (void)(p); SIMROS_LOGS(FATAL, a); } while (0)
#define ROS_FATAL_STREAM_COND_NAMED(c, n, a) do { (void)(n); if (c) SIMROS_LOGS(FATAL, a); } while (0)
#define ROS_FATAL_STREAM_FILTER_NAMED(f, n, a) do { (void)(n); (void)(f); SIMROS_LOGS(FATAL, a); } while (0)
#define ROS_ASSERT(c) assert(c)
#define ROS_ASSERT_MSG(c, ...) assert(c)
#define ROS_BREAK() assert(false)
#define ROS_DEPRECATED __attribute__((deprecated))
#define ROS_VERSION_MAJOR 1
#define ROS_VERSION_MINOR 16
#define ROS_VERSION_PATCH 0
#define ROS_VERSION_COMBINED(a, b, c) (((a) << 20) | ((b) << 10) | (c))
#define ROS_VERSION ROS_VERSION_COMBINED(1, 16, 0)
#define ROS_VERSION_GE(a1, b1, c1, a2, b2, c2) (ROS_VERSION_COMBINED(a1, b1, c1) >= ROS_VERSION_COMBINED(a2, b2, c2))
#define ROS_VERSION_MINIMUM(a, b, c) ROS_VERSION_GE(ROS_VERSION_MAJOR, ROS_VERSION_MINOR, ROS_VERSION_PATCH, a, b, c)

// Plans, seeds, shrinking and replay, common to every simulated world.
#pragma once
#include <cstdio>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "sim.h"

namespace fw
{
struct Line
{
  std::string kind;
  std::vector<std::pair<std::string, std::string>> kv;
  Line() {}
  explicit Line(const std::string& k) : kind(k) {}
  bool has(const std::string& k) const;
  std::string get(const std::string& k, const std::string& d = "") const;
  long long num(const std::string& k, long long d = 0) const;
  double real(const std::string& k, double d = 0) const;
  std::vector<std::string> list(const std::string& k, char sep = ',') const;
  Line& set(const std::string& k, const std::string& v);
  Line& set(const std::string& k, const char* v) { return set(k, std::string(v)); }
  Line& set(const std::string& k, long long v);
  Line& set(const std::string& k, int v) { return set(k, (long long)v); }
  Line& set(const std::string& k, double v);
  Line& set(const std::string& k, const std::vector<std::string>& v, char sep = ',');
  std::string str() const;
  static Line parse(const std::string& s);
};
std::vector<std::string> split(const std::string& s, char sep);

struct Plan
{
  std::vector<Line> lines;
  Line& add(const std::string& kind) { lines.emplace_back(kind); return lines.back(); }
  const Line* first(const std::string& kind) const;
  std::vector<const Line*> all(const std::string& kind) const;
};

struct World
{
  virtual ~World() {}
  virtual std::vector<std::string> properties() = 0;
  // The plan for a seed. A "sched" line is added by the framework if the world does not add one.
  virtual Plan generate(const std::string& prop, sim::Rng& rng, bool thorough) = 0;
  // Sets up, spawns fibers, calls sim::run_fibers, and runs the final checks. Between begin_run and end_run.
  virtual void run(const Plan& plan) = 0;
  virtual void cleanup() {}
  virtual bool droppable(const Line& l) { return l.kind != "cfg" && l.kind != "sched"; }
  virtual std::vector<Line> simpler(const Line&) { return {}; }
};
int main_(int argc, char** argv, World& w);
}

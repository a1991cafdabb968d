#include "framework.h"
#include <algorithm>
#include <chrono>
#include <csetjmp>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <set>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace fw
{
std::vector<std::string> split(const std::string& s, char sep)
{
  std::vector<std::string> r;
  std::string cur;
  for (char c : s) { if (c == sep) { r.push_back(cur); cur.clear(); } else cur += c; }
  if (!s.empty()) r.push_back(cur);
  return r;
}
bool Line::has(const std::string& k) const { for (auto& p : kv) if (p.first == k) return true; return false; }
std::string Line::get(const std::string& k, const std::string& d) const { for (auto& p : kv) if (p.first == k) return p.second; return d; }
long long Line::num(const std::string& k, long long d) const { for (auto& p : kv) if (p.first == k) return atoll(p.second.c_str()); return d; }
double Line::real(const std::string& k, double d) const { for (auto& p : kv) if (p.first == k) return strtod(p.second.c_str(), nullptr); return d; }
std::vector<std::string> Line::list(const std::string& k, char sep) const { return split(get(k), sep); }
Line& Line::set(const std::string& k, const std::string& v) { for (auto& p : kv) if (p.first == k) { p.second = v; return *this; } kv.emplace_back(k, v); return *this; }
Line& Line::set(const std::string& k, long long v) { return set(k, std::to_string(v)); }
Line& Line::set(const std::string& k, double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return set(k, std::string(b)); }
Line& Line::set(const std::string& k, const std::vector<std::string>& v, char sep)
{
  std::string s;
  for (size_t i = 0; i < v.size(); ++i) s += (i ? std::string(1, sep) : "") + v[i];
  return set(k, s);
}
std::string Line::str() const { std::string s = kind; for (auto& p : kv) s += " " + p.first + "=" + p.second; return s; }
Line Line::parse(const std::string& s)
{
  Line l;
  for (auto& t : split(s, ' '))
  {
    if (t.empty()) continue;
    if (l.kind.empty()) { l.kind = t; continue; }
    auto e = t.find('=');
    l.kv.emplace_back(t.substr(0, e), e == std::string::npos ? "" : t.substr(e + 1));
  }
  return l;
}
const Line* Plan::first(const std::string& kind) const { for (auto& l : lines) if (l.kind == kind) return &l; return nullptr; }
std::vector<const Line*> Plan::all(const std::string& kind) const { std::vector<const Line*> r; for (auto& l : lines) if (l.kind == kind) r.push_back(&l); return r; }

namespace
{
double real_now()
{
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
sigjmp_buf g_jmp;
volatile bool g_jmp_ok = false;
void on_signal(int sig)
{
  const char* n = sig == SIGSEGV ? "segmentation fault" : sig == SIGABRT ? "abort (failed assertion or uncaught exception)" : sig == SIGFPE ? "arithmetic fault" :
                  sig == SIGVTALRM ? "endless loop" : "bus error or illegal instruction";
  if (sim::cur() >= 0)
  {
    sim::g_off = 0;
    sim::fail("*", true, "crash: %s", n);
  }
  if (g_jmp_ok)
  {
    sim::fail("*", false, "crash outside the simulated threads: %s", n);
    siglongjmp(g_jmp, 1);
  }
  signal(sig, SIG_DFL);
  raise(sig);
}
void install()
{
  static char* alt = nullptr;
  if (!alt)
  {
    alt = (char*)mmap(nullptr, 256 * 1024, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = 256 * 1024;
    sigaltstack(&ss, nullptr);
  }
  struct sigaction sa{};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
}
void watchdog(int sec)
{
  struct itimerval it{};
  it.it_value.tv_sec = sec;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

struct Spec
{
  Plan plan;
  std::vector<sim::Decision> dec;
  bool replay = false;
  std::string prop;
  uint64_t seed = 0;
  std::string expect_msg;
  uint64_t expect_hash = 0;
};

sim::RunResult execute(World& w, const Spec& s, bool trace)
{
  sim::SchedConfig c;
  if (const Line* l = s.plan.first("sched"))
  {
    c.seed = (uint64_t)strtoull(l->get("seed", "1").c_str(), nullptr, 10);
    c.p_mem = l->real("pmem", c.p_mem);
    c.p_sync = l->real("psync", c.p_sync);
    c.p_freeze = l->real("pfreeze", c.p_freeze);
    c.max_freeze = l->num("maxfreeze", c.max_freeze);
    c.cap = l->num("cap", c.cap);
  }
  c.replay = s.replay;
  c.decisions = s.dec;
  install();
  watchdog(60);
  sim::begin_run(c, s.prop, trace);
  if (sigsetjmp(g_jmp, 1) == 0)
  {
    g_jmp_ok = true;
    w.run(s.plan);
  }
  g_jmp_ok = false;
  sim::g_off = 0;
  watchdog(0);
  sim::RunResult r = sim::end_run();
  w.cleanup();
  return r;
}

Spec make(World& w, const std::string& prop, uint64_t seed, bool thorough)
{
  Spec s;
  s.prop = prop;
  s.seed = seed;
  sim::Rng rng(seed);
  s.plan = w.generate(prop, rng, thorough);
  if (!s.plan.first("sched"))
  {
    Line& l = s.plan.add("sched");
    l.set("seed", (long long)(rng.next() >> 1));
    static const double pm[] = {0.0, 0.002, 0.01, 0.03, 0.1, 0.3};
    static const double ps[] = {0.01, 0.05, 0.1, 0.2, 0.4, 0.02};
    static const double pf[] = {0.0, 0.1, 0.3, 0.6};
    static const long long mf[] = {20000, 200000, 2000000, 20000000};
    l.set("pmem", pm[rng.below(6)]).set("psync", ps[rng.below(6)]).set("pfreeze", pf[rng.below(4)]).set("maxfreeze", mf[rng.below(4)]);
  }
  return s;
}

void save(const std::string& path, const Spec& s, const sim::RunResult& r, bool with_dec)
{
  FILE* f = fopen(path.c_str(), "w");
  if (!f) { fprintf(stderr, "cannot write %s\n", path.c_str()); _exit(3); }
  fprintf(f, "# replay file: property, plan (workload and faults) and schedule\n");
  fprintf(f, "property %s\nseed %llu\nhash %016llx\nmsg %s\n", s.prop.c_str(), (unsigned long long)s.seed, (unsigned long long)r.hash, r.msg.c_str());
  for (auto& l : s.plan.lines) fprintf(f, "plan %s\n", l.str().c_str());
  if (with_dec)
  {
    fprintf(f, "replay 1\n");
    for (auto& d : r.decisions.empty() && s.replay ? s.dec : r.decisions) fprintf(f, "dec %llu %d %llu\n", (unsigned long long)d.pt, d.target, (unsigned long long)d.freeze);
  }
  fclose(f);
}
Spec load(const std::string& path)
{
  Spec s;
  FILE* f = fopen(path.c_str(), "r");
  if (!f) { fprintf(stderr, "cannot read %s\n", path.c_str()); _exit(3); }
  char* b = nullptr;
  size_t cap = 0;
  ssize_t n;
  while ((n = getline(&b, &cap, f)) > 0)
  {
    std::string l(b, n);
    while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
    if (l.empty() || l[0] == '#') continue;
    auto sp = l.find(' ');
    std::string k = l.substr(0, sp), v = sp == std::string::npos ? "" : l.substr(sp + 1);
    if (k == "property") s.prop = v;
    else if (k == "seed") s.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "hash") s.expect_hash = strtoull(v.c_str(), nullptr, 16);
    else if (k == "msg") s.expect_msg = v;
    else if (k == "plan") s.plan.lines.push_back(Line::parse(v));
    else if (k == "replay") s.replay = true;
    else if (k == "dec")
    {
      sim::Decision d{};
      unsigned long long a = 0, c = 0;
      int t = 0;
      sscanf(v.c_str(), "%llu %d %llu", &a, &t, &c);
      d.pt = a; d.target = t; d.freeze = c;
      s.dec.push_back(d);
    }
  }
  free(b);
  fclose(f);
  return s;
}

bool reproduces(World& w, Spec& s, sim::RunResult& out)
{
  out = execute(w, s, false);
  return out.violated;
}

// Finds a smaller plan and schedule that still violate the same property.
void shrink(World& w, Spec& s, sim::RunResult& r, double seconds)
{
  double t0 = real_now();
  auto timeup = [&] { return real_now() - t0 > seconds; };
  auto try_plan = [&](const Plan& p, int tries) -> bool
  {
    Spec c = s;
    c.plan = p;
    c.replay = false;
    c.dec.clear();
    sim::RunResult rr;
    Line* sl = nullptr;
    for (auto& l : c.plan.lines) if (l.kind == "sched") sl = &l;
    std::string seed0 = sl ? sl->get("seed") : "1";
    // first without any preemption
    {
      Spec z = c;
      z.replay = true;
      if (reproduces(w, z, rr)) { s = z; r = rr; return true; }
    }
    for (int i = 0; i < tries && !timeup(); ++i)
    {
      if (sl && i) sl->set("seed", (long long)(sim::Rng(strtoull(seed0.c_str(), nullptr, 10) + i).next() >> 1));
      if (reproduces(w, c, rr)) { s = c; r = rr; return true; }
    }
    return false;
  };
  bool again = true;
  int tries = 12;
  while (again && !timeup())
  {
    again = false;
    for (size_t i = s.plan.lines.size(); i-- > 0 && !timeup();)
    {
      if (i >= s.plan.lines.size() || !w.droppable(s.plan.lines[i])) continue;
      Plan p = s.plan;
      p.lines.erase(p.lines.begin() + i);
      if (try_plan(p, tries)) again = true;
    }
    for (size_t i = 0; i < s.plan.lines.size() && !timeup(); ++i)
    {
      for (auto& alt : w.simpler(s.plan.lines[i]))
      {
        if (timeup()) break;
        if (alt.str() == s.plan.lines[i].str()) continue;
        Plan p = s.plan;
        p.lines[i] = alt;
        if (try_plan(p, tries)) { again = true; break; }
      }
    }
  }
  // now the schedule
  if (!s.replay)
  {
    Spec c = s;
    c.replay = true;
    c.dec = r.decisions;
    sim::RunResult rr;
    if (reproduces(w, c, rr)) { s = c; r = rr; }
    else return;
  }
  size_t chunk = std::max<size_t>(1, s.dec.size() / 2);
  double t1 = real_now();
  while (!s.dec.empty() && real_now() - t1 < seconds)
  {
    bool any = false;
    for (size_t i = 0; i < s.dec.size() && real_now() - t1 < seconds;)
    {
      Spec c = s;
      size_t e = std::min(s.dec.size(), i + chunk);
      c.dec.erase(c.dec.begin() + i, c.dec.begin() + e);
      sim::RunResult rr;
      if (reproduces(w, c, rr)) { s = c; r = rr; any = true; }
      else i += chunk;
    }
    if (chunk == 1 && !any) break;
    if (!any || chunk > s.dec.size()) chunk = std::max<size_t>(1, chunk / 2);
  }
}

std::string jesc(const std::string& s)
{
  std::string o;
  for (char c : s)
  {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if ((unsigned char)c < 32) o += ' ';
    else o += c;
  }
  return o;
}
}  // namespace

int main_(int argc, char** argv, World& w)
{
  std::string mode = argc > 1 ? argv[1] : "";
  std::map<std::string, std::string> o;
  std::vector<std::string> pos;
  for (int i = 2; i < argc; ++i)
  {
    std::string a = argv[i];
    if (a.compare(0, 2, "--") == 0 && i + 1 < argc) { o[a.substr(2)] = argv[i + 1]; ++i; }
    else pos.push_back(a);
  }
  if (mode == "run")
  {
    std::string prop = o["prop"], out = o["out"];
    uint64_t seed0 = strtoull(o["seed0"].c_str(), nullptr, 10), stride = o.count("stride") ? strtoull(o["stride"].c_str(), nullptr, 10) : 1;
    double tmax = o.count("time") ? atof(o["time"].c_str()) : 10;
    uint64_t nmax = o.count("count") ? strtoull(o["count"].c_str(), nullptr, 10) : ~0ull;
    bool thorough = o["tier"] == "thorough";
    double t0 = real_now();
    std::map<std::string, uint64_t> cnt;
    std::map<std::string, uint64_t> others;
    std::unordered_set<uint64_t> hashes, nt;
    uint64_t runs = 0, points = 0, simns = 0, sw = 0, pre = 0, fr = 0, ended_other = 0;
    std::vector<std::string> samples;
    int rc = 0;
    std::string vio;
    const std::string chk = "chk_" + prop;
    for (uint64_t k = 0; k < nmax && real_now() - t0 < tmax; ++k)
    {
      uint64_t seed = seed0 + k * stride;
      Spec s = make(w, prop, seed, thorough);
      sim::RunResult r = execute(w, s, false);
      ++runs; points += r.points; simns += r.sim_ns; sw += r.switches; pre += r.preemptions; fr += r.freezes;
      for (auto& c : r.counters) cnt[c.first] += c.second;
      hashes.insert(r.order_hash);
      if (r.counters.count(chk)) { if (nt.insert(r.order_hash).second && samples.size() < 3) { std::string t; for (auto& l : s.plan.lines) t += l.str() + "; "; samples.push_back("seed " + std::to_string(seed) + ": " + t.substr(0, 900)); } }
      if (r.other) { ++ended_other; others[r.other_msg.substr(0, 160)]++; if (o.count("others")) fprintf(stderr, "seed %llu other %s\n", (unsigned long long)seed, r.other_msg.c_str()); }
      if (r.violated)
      {
        save(out + ".plan", s, r, true);
        vio = r.msg;
        rc = 1;
        break;
      }
    }
    double dt = real_now() - t0;
    FILE* f = fopen((out + ".json").c_str(), "w");
    fprintf(f, "{\"runs\":%llu,\"seconds\":%.3f,\"points\":%llu,\"sim_seconds\":%.6f,\"switches\":%llu,\"preemptions\":%llu,\"freezes\":%llu,\"ended_other\":%llu,\"violation\":\"%s\",\"counters\":{",
            (unsigned long long)runs, dt, (unsigned long long)points, simns * 1e-9, (unsigned long long)sw, (unsigned long long)pre, (unsigned long long)fr, (unsigned long long)ended_other, jesc(vio).c_str());
    bool first = true;
    for (auto& c : cnt) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", c.first.c_str(), (unsigned long long)c.second); first = false; }
    fprintf(f, "},\"others\":{");
    first = true;
    for (auto& c : others) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto& c : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(c).c_str()); first = false; }
    fprintf(f, "]}\n");
    fclose(f);
    f = fopen((out + ".hashes").c_str(), "wb");
    uint64_t n1 = hashes.size();
    fwrite(&n1, 8, 1, f);
    for (uint64_t h : hashes) fwrite(&h, 8, 1, f);
    for (uint64_t h : nt) fwrite(&h, 8, 1, f);
    fclose(f);
    return rc;
  }
  if (mode == "replay")
  {
    Spec s = load(pos.at(0));
    if (o.count("prop")) s.prop = o["prop"];
    sim::RunResult r = execute(w, s, true);
    if (o["trace"] != "0") for (auto& t : r.trace) printf("%s\n", t.c_str());
    printf("result %s hash %016llx order %016llx points %llu msg %s\n", r.violated ? "VIOLATED" : r.other ? "OTHER" : "HELD", (unsigned long long)r.hash, (unsigned long long)r.order_hash,
           (unsigned long long)r.points, r.violated ? r.msg.c_str() : r.other_msg.c_str());
    return r.violated ? 1 : 0;
  }
  if (mode == "seed")  // run one seed with a trace
  {
    Spec s = make(w, o["prop"], strtoull(o["seed"].c_str(), nullptr, 10), o["tier"] == "thorough");
    sim::RunResult r = execute(w, s, true);
    if (o["trace"] != "0")
    {
      for (auto& l : s.plan.lines) printf("plan %s\n", l.str().c_str());
      for (auto& t : r.trace) printf("%s\n", t.c_str());
    }
    printf("result %s hash %016llx order %016llx points %llu msg %s\n", r.violated ? "VIOLATED" : r.other ? "OTHER" : "HELD", (unsigned long long)r.hash, (unsigned long long)r.order_hash,
           (unsigned long long)r.points, r.violated ? r.msg.c_str() : r.other_msg.c_str());
    return r.violated ? 1 : 0;
  }
  if (mode == "shrink")
  {
    Spec s = load(pos.at(0));
    sim::RunResult r = execute(w, s, false);
    if (!r.violated) { printf("does not reproduce\n"); return 2; }
    shrink(w, s, r, o.count("time") ? atof(o["time"].c_str()) : 30);
    // execute once more so that the recorded hash is that of the exact replay
    s.replay = true;
    if (s.dec.empty()) s.dec = r.decisions;
    sim::RunResult f = execute(w, s, false);
    if (!f.violated) { printf("shrunk plan does not reproduce\n"); return 2; }
    f.decisions.clear();
    save(pos.at(1), s, f, true);
    printf("shrunk to %zu plan lines, %zu scheduling decisions: %s\n", s.plan.lines.size(), s.dec.size(), f.msg.c_str());
    return 0;
  }
  if (mode == "props") { for (auto& p : w.properties()) printf("%s\n", p.c_str()); return 0; }
  fprintf(stderr, "usage: run|replay|seed|shrink|props\n");
  return 3;
}
}

#include "sim.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <pthread.h>
#include <sys/single_threaded.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

extern "C" void* __cxa_get_globals();

extern "C" void sim_switch(void** save_sp, void* new_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

namespace sim
{
int g_off = 0;

namespace
{
constexpr int MAXF = 16;
constexpr size_t STACK = 256 * 1024;
constexpr uint64_t SLICE_CAP = 20000;
constexpr uint64_t TICK = 20;  // ns per scheduling point
constexpr int64_t WALL0 = 1700000000ll * 1000000000ll;

enum State { READY, BLOCKED, SLEEPING, DONE };

struct Fiber
{
  int id = 0;
  std::string name;
  std::function<void()> fn;
  State st = READY;
  bool daemon = false;
  uint64_t wake = 0, frozen = 0;
  const void* on = nullptr;
  bool cond_signaled = false;
  void* sp = nullptr;
  char* stack = nullptr;
  void* eh[2] = {nullptr, nullptr};
  uint32_t vc[MAXF] = {};
  bool rt = false;
  int alloc_fail = -1;
  bool alloc_fired = false;
  uint64_t allocs = 0;
};

struct Mutex { int owner = -1; int depth = 0; int readers = 0; uint32_t vc[MAXF] = {}; };
struct Sync { uint32_t vc[MAXF] = {}; };

Fiber g_f[MAXF];
int g_n = 0;
Fiber* g_cur = nullptr;
void* g_main_sp = nullptr;
void* g_main_eh[2];
bool g_active = false, g_halt = false, g_trace = false;
uint64_t g_now = 0, g_pt = 0, g_slice = 0;
int64_t g_wall_off = 0;
uint64_t g_frozen = 0, g_paused = 0;
uint64_t g_rt_pts = 0;
bool g_race_seen = false;
SchedConfig g_cfg;
Rng g_rng;
size_t g_dec_i = 0;
RunResult g_res;
std::string g_target;
bool g_broad = false;
// faults of the execution itself (memory, deadlock, endless loop): in most worlds they break whatever is being checked
const char* mprops(const char* d) { return g_broad ? "*" : d; }
int g_arena_scope = 0;
std::unordered_map<const void*, Mutex>* g_mx = nullptr;
std::unordered_map<const void*, Sync>* g_sync = nullptr;

// ---- arena ----
char* const ARENA = (char*)0x100000000000ull;
constexpr size_t ARENA_SZ = 512ull << 20;
uint8_t* const ASTATE = (uint8_t*)0x110000000000ull;        // per 8 bytes: 0 none, 1 live, 2 freed
uint64_t* const ASLOT = (uint64_t*)0x120000000000ull;       // 4 per 8 bytes
size_t g_brk = 0;

void map_fixed(void* a, size_t n)
{
  void* r = mmap(a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (r != a) { fprintf(stderr, "sim: cannot map %p\n", a); _exit(3); }
}
void arena_init()
{
  static bool done = false;
  if (done) return;
  done = true;
  map_fixed(ARENA, ARENA_SZ);
  map_fixed(ASTATE, ARENA_SZ / 8);
  map_fixed(ASLOT, ARENA_SZ * 4);
}
bool inA(const void* p) { return (const char*)p >= ARENA && (const char*)p < ARENA + ARENA_SZ; }
size_t cell(const void* p) { return (size_t)((const char*)p - ARENA) >> 3; }

[[noreturn]] void to_main_forever();
void halt_now()
{
  g_halt = true;
  if (g_cur) to_main_forever();
}

uint64_t mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
uint64_t hstr(uint64_t h, const char* s, size_t n)
{
  for (size_t i = 0; i < n; ++i) { h ^= (unsigned char)s[i]; h *= 1099511628211ull; }
  return mix(h, n);
}

void* arena_alloc(size_t n)
{
  size_t need = ((n + 7) & ~size_t(7)) + 16 + ((n & 8) ? 0 : 0);
  need = (need + 15) & ~size_t(15);
  size_t at = g_brk + 16;
  if (at + need > ARENA_SZ) { fprintf(stderr, "sim: arena exhausted\n"); _exit(3); }
  g_brk += need + 16;
  char* p = ARENA + at;
  *(size_t*)(p - 8) = n;
  size_t c0 = cell(p), nc = (n + 7) / 8;
  if (!nc) nc = 1;
  memset(ASTATE + c0, 1, nc);
  // deterministic contents, and a pattern that makes reads of uninitialised members visible
  memset(p, 0xCB, nc * 8);
  return p;
}

void vc_join(uint32_t* a, const uint32_t* b) { for (int i = 0; i < MAXF; ++i) if (b[i] > a[i]) a[i] = b[i]; }

// slot: clk(32) | fiber(8) | mask(8) | flags(8: 1 valid, 2 write, 4 atomic)
uint64_t mkslot(uint32_t clk, int f, unsigned mask, unsigned fl) { return ((uint64_t)clk << 32) | ((uint64_t)f << 16) | (mask << 8) | fl; }

void report_bad_access(const void* p, size_t sz, bool write)
{
  size_t c = cell(p);
  uint8_t s = ASTATE[c];
  NoSim ns;
  if (s == 2)
    fail(mprops("C09,C12,C11"), true, "use after free: %s of %zu bytes of destroyed memory by fiber %s", write ? "write" : "read", sz, g_cur->name.c_str());
  else
    fail(mprops("C09"), true, "heap out-of-bounds %s of %zu bytes by fiber %s", write ? "write" : "read", sz, g_cur->name.c_str());
}

// returns true if the cell is shared with another fiber
bool access_cell(size_t c, unsigned mask, bool write, bool atomic)
{
  uint64_t* s = ASLOT + c * 4;
  Fiber* f = g_cur;
  bool shared = false, stored = false;
  int freei = -1;
  for (int i = 0; i < 4; ++i)
  {
    uint64_t v = s[i];
    if (!(v & 1)) { if (freei < 0) freei = i; continue; }
    int of = (v >> 16) & 0xff;
    unsigned om = (v >> 8) & 0xff;
    if (of == f->id)
    {
      if (om == mask && !!(v & 2) == write && !!(v & 4) == atomic) { s[i] = mkslot(f->vc[f->id], f->id, mask, 1 | (write ? 2 : 0) | (atomic ? 4 : 0)); stored = true; }
      continue;
    }
    shared = true;
    if (!(om & mask)) continue;
    bool ow = v & 2, oa = v & 4;
    if (!write && !ow) continue;
    if (atomic && oa) continue;
    uint32_t oc = v >> 32;
    if (oc > f->vc[of])
    {
      NoSim ns;
      if (target_is("C09") || !g_race_seen) fail(mprops("C09"), false, "data race: %s by fiber %s is not ordered with an earlier %s by fiber %s",
           write ? (atomic ? "atomic write" : "write") : "read", f->name.c_str(), ow ? "write" : "read", g_f[of].name.c_str());
      g_race_seen = true;
    }
  }
  if (!stored)
  {
    int i = freei >= 0 ? freei : (int)((g_pt + c) & 3);
    s[i] = mkslot(f->vc[f->id], f->id, mask, 1 | (write ? 2 : 0) | (atomic ? 4 : 0));
  }
  return shared;
}

void schedule_out(int target, uint64_t freeze);

bool runnable(const Fiber& f) { return f.st == READY && f.frozen <= g_now; }

void preempt_maybe(double p)
{
  int target = -1;
  uint64_t fz = 0;
  if (g_cfg.replay)
  {
    while (g_dec_i < g_cfg.decisions.size() && g_cfg.decisions[g_dec_i].pt < g_pt) ++g_dec_i;
    if (g_dec_i < g_cfg.decisions.size() && g_cfg.decisions[g_dec_i].pt == g_pt)
    {
      const Decision& d = g_cfg.decisions[g_dec_i++];
      if (d.target >= 0 && d.target < g_n && (d.freeze || (d.target != g_cur->id && runnable(g_f[d.target])))) { target = d.target; fz = d.freeze; }
    }
  }
  else if (p > 0 && g_rng.chance(p))
  {
    int cand[MAXF], n = 0;
    for (int i = 0; i < g_n; ++i) if (i != g_cur->id && runnable(g_f[i])) cand[n++] = i;
    bool sleepers = false;
    for (int i = 0; i < g_n; ++i) if (i != g_cur->id && (g_f[i].st == SLEEPING || (g_f[i].st == READY && g_f[i].frozen > g_now))) sleepers = true;
    if (g_rng.chance(g_cfg.p_freeze) && (n || sleepers) && g_frozen < g_cfg.freeze_budget)
    {
      // log-uniform freeze
      double lg = g_rng.uniform(0, 1);
      double mx = (double)g_cfg.max_freeze;
      fz = (uint64_t)(1000.0 * __builtin_exp2(lg * __builtin_log2(mx / 1000.0)));
    }
    if (n) target = cand[g_rng.below(n)];
    else if (fz) target = g_cur->id;  // nobody else runnable: just freeze
    if (target >= 0)
    {
      NoSim ns;
      g_res.decisions.push_back({g_pt, target, fz});
    }
  }
  if (target < 0 && ++g_slice > SLICE_CAP)
  {
    for (int k = 1; k < g_n; ++k)
    {
      int i = (g_cur->id + k) % g_n;
      if (runnable(g_f[i])) { target = i; break; }
    }
    g_slice = 0;
  }
  if (target >= 0)
  {
    ++g_res.preemptions;
    if (fz) { ++g_res.freezes; g_cur->frozen = g_now + fz; g_frozen += fz; }
    schedule_out(target, fz);
  }
}

int g_next_target = -1;

void switch_to_main()
{
  Fiber* f = g_cur;
  void** eh = (void**)__cxa_get_globals();
  f->eh[0] = eh[0]; f->eh[1] = eh[1];
  eh[0] = g_main_eh[0]; eh[1] = g_main_eh[1];
  int off = g_off;
  g_cur = nullptr;
  sim_switch(&f->sp, g_main_sp);
  g_off = off;
  if (g_halt) { /* never resumed when halted */ }
}
void to_main_forever()
{
  switch_to_main();
  abort();
}
void schedule_out(int target, uint64_t)
{
  g_next_target = target;
  switch_to_main();
}
void block_here()  // state already set
{
  g_next_target = -1;
  switch_to_main();
}

void entry();
void (*g_entry_ptr)() = entry;
void entry()
{
  Fiber* f = g_cur;
  try { f->fn(); }
  catch (const std::exception& e)
  {
    NoSim ns;
    fail("*", true, "exception escaped from fiber %s: %s", f->name.c_str(), e.what());
  }
  catch (...)
  {
    NoSim ns;
    fail("*", true, "exception escaped from fiber %s", f->name.c_str());
  }
  f->st = DONE;
  to_main_forever();
}

void run_fiber(Fiber* f)
{
  void** eh = (void**)__cxa_get_globals();
  g_main_eh[0] = eh[0]; g_main_eh[1] = eh[1];
  eh[0] = f->eh[0]; eh[1] = f->eh[1];
  g_cur = f;
  g_slice = 0;
  ++g_res.switches;
  int off = g_off;
  g_off = 0;
  sim_switch(&g_main_sp, f->sp);
  g_off = off;
}

Mutex& mx(const void* m) { NoSim ns; return (*g_mx)[m]; }

void rt_check(const char* what)
{
  if (g_cur->rt)
  {
    NoSim ns;
    fail("C10", false, "the realtime update %s", what);
  }
}

void acquire_vc(const uint32_t* v) { vc_join(g_cur->vc, v); }
void release_vc(uint32_t* v) { vc_join(v, g_cur->vc); g_cur->vc[g_cur->id]++; }

void lock_impl(pthread_mutex_t* m, bool rec)
{
  rt_check("acquires a lock");
  point(P_SYNC);
  for (;;)
  {
    Mutex& M = mx(m);
    if (M.owner < 0 && M.readers == 0) { M.owner = g_cur->id; M.depth = 1; acquire_vc(M.vc); return; }
    if (M.owner == g_cur->id)
    {
      if (rec) { ++M.depth; return; }
      NoSim ns;
      fail(mprops("C15"), true, "fiber %s deadlocks: it locks a mutex it already holds", g_cur->name.c_str());
    }
    g_cur->st = BLOCKED;
    g_cur->on = m;
    block_here();
  }
}
void wake_on(const void* m)
{
  for (int i = 0; i < g_n; ++i)
    if (g_f[i].st == BLOCKED && g_f[i].on == m) { g_f[i].st = READY; g_f[i].on = nullptr; }
}
int unlock_impl(pthread_mutex_t* m)
{
  {
    Mutex& M = mx(m);
    if (M.owner != g_cur->id) return EPERM;
    if (--M.depth == 0) { release_vc(M.vc); M.owner = -1; wake_on(m); }
  }
  point(P_SYNC);
  return 0;
}
bool is_rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }

uint64_t abs_to_mono(clockid_t c, const struct timespec* ts)
{
  int64_t t = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
  if (c == CLOCK_REALTIME) t -= (WALL0 + g_wall_off);
  return t < 0 ? 0 : (uint64_t)t;
}
}  // namespace

// ------------------------------------------------------------------------------------------------ public
int cur() { return g_cur ? g_cur->id : -1; }
bool halted() { return g_halt; }
uint64_t now() { return g_now; }
int64_t wall() { return WALL0 + g_wall_off + (int64_t)g_now; }
void wall_jump(int64_t d) { g_wall_off += d; }
void set_rt_section(bool on) { if (g_cur) { g_cur->rt = on; if (on) g_rt_pts = 0; } }
void arm_alloc_fail(int k) { if (g_cur) { g_cur->alloc_fail = k > 0 ? k : -1; g_cur->alloc_fired = false; } }
bool alloc_fail_fired() { bool r = g_cur && g_cur->alloc_fired; if (g_cur) { g_cur->alloc_fired = false; g_cur->alloc_fail = -1; } return r; }
uint64_t alloc_count() { return g_cur ? g_cur->allocs : 0; }
bool in_arena(const void* p) { return inA(p); }
void sync_all() { if (g_cur) for (int i = 0; i < g_n; ++i) vc_join(g_cur->vc, g_f[i].vc); }
uint64_t frozen_total() { return g_frozen + g_paused; }
void pause_all(uint64_t d) { g_now += d; g_paused += d; }
ArenaScope::ArenaScope() { ++g_arena_scope; }
ArenaScope::~ArenaScope() { --g_arena_scope; }

void point(PointKind k)
{
  if (!g_cur || g_off) return;
  ++g_pt;
  g_now += TICK;
  if (g_cur->rt && ++g_rt_pts > 50000)
  {
    NoSim ns;
    fail("C10", true, "the realtime update does not complete: it waits for something");
    return;
  }
  if (g_pt > g_cfg.cap)
  {
    NoSim ns;
    fail(mprops("C15"), true, "no end in sight after %llu scheduling points (livelock?)", (unsigned long long)g_pt);
    return;
  }
  preempt_maybe(k == P_SYNC ? g_cfg.p_sync : g_cfg.p_mem);
}

static void mem_access(const void* p, size_t sz, bool write, bool atomic)
{
  if (!g_cur || g_off || !inA(p)) return;
  bool shared = false;
  const char* a = (const char*)p;
  size_t left = sz;
  while (left)
  {
    size_t c = cell(a);
    unsigned o = (uintptr_t)a & 7;
    size_t n = 8 - o < left ? 8 - o : left;
    if (ASTATE[c] != 1) report_bad_access(a, sz, write);
    unsigned mask = (((1u << n) - 1) << o) & 0xff;
    shared |= access_cell(c, mask, write, atomic);
    a += n;
    left -= n;
  }
  if (shared)
  {
    // preemption before the access would be equivalent to after the previous one
    point(atomic ? P_SYNC : P_MEM);
  }
}

void sleep_ns(uint64_t d)
{
  if (!g_cur) return;
  rt_check("sleeps");
  ++g_pt;
  g_now += TICK;
  if (g_pt > g_cfg.cap) { NoSim ns; fail(mprops("C15"), true, "no end in sight after %llu scheduling points", (unsigned long long)g_pt); }
  g_cur->st = SLEEPING;
  g_cur->wake = g_now + d;
  block_here();
}

void begin_run(const SchedConfig& cfg, const std::string& target_prop, bool keep_trace)
{
  arena_init();
  if (g_brk)
  {
    memset(ASTATE, 0, g_brk / 8 + 64);
    memset(ASLOT, 0, (g_brk / 8 + 64) * 32);
  }
  g_brk = 0;
  g_cfg = cfg;
  g_rng = Rng(cfg.seed);
  g_dec_i = 0;
  g_res = RunResult();
  g_target = target_prop;
  g_trace = keep_trace;
  g_halt = false;
  g_active = true;
  g_now = 1000000000ull;
  g_wall_off = 0;
  g_frozen = g_paused = 0;
  g_race_seen = false;
  __libc_single_threaded = 0;
  g_pt = 0;
  g_slice = 0;
  g_n = 0;
  g_cur = nullptr;
  g_off = 0;
  if (!g_mx) { g_mx = new std::unordered_map<const void*, Mutex>(); g_sync = new std::unordered_map<const void*, Sync>(); }
  g_mx->clear();
  g_sync->clear();
}

int spawn(const std::string& name, std::function<void()> fn, bool daemon)
{
  NoSim ns;
  if (g_n >= MAXF) { fprintf(stderr, "sim: too many fibers\n"); _exit(3); }
  Fiber& f = g_f[g_n];
  char* st = f.stack;
  f = Fiber();
  f.stack = st;
  f.id = g_n++;
  f.name = name;
  f.fn = std::move(fn);
  f.daemon = daemon;
  if (!f.stack)
  {
    char* m = (char*)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(m, 4096, PROT_NONE);
    f.stack = m;
  }
  uintptr_t top = (uintptr_t)(f.stack + 4096 + STACK) & ~(uintptr_t)15;
  void** sp = (void**)top;
  *--sp = nullptr;
  *--sp = (void*)g_entry_ptr;
  for (int i = 0; i < 6; ++i) *--sp = nullptr;
  f.sp = sp;
  if (g_cur) { vc_join(f.vc, g_cur->vc); g_cur->vc[g_cur->id]++; }
  f.vc[f.id] = 1;
  return f.id;
}

void run_fibers()
{
  int last = 0;
  while (!g_halt)
  {
    bool live = false;
    for (int i = 0; i < g_n; ++i) if (g_f[i].st != DONE && !g_f[i].daemon) live = true;
    if (!live) break;
    for (int i = 0; i < g_n; ++i) if (g_f[i].st == SLEEPING && g_f[i].wake <= g_now) g_f[i].st = READY;
    int cand[MAXF], n = 0;
    for (int i = 0; i < g_n; ++i) if (runnable(g_f[i])) cand[n++] = i;
    if (!n)
    {
      uint64_t t = ~0ull;
      for (int i = 0; i < g_n; ++i)
      {
        if (g_f[i].st == SLEEPING && g_f[i].wake < t) t = g_f[i].wake;
        if (g_f[i].st == READY && g_f[i].frozen < t) t = g_f[i].frozen;
      }
      if (t == ~0ull)
      {
        std::string who;
        for (int i = 0; i < g_n; ++i) if (g_f[i].st == BLOCKED) who += g_f[i].name + " ";
        fail(mprops("C15"), true, "deadlock: all remaining threads are blocked for ever: %s", who.c_str());
        break;
      }
      g_now = t;
      continue;
    }
    int pick = -1;
    if (g_next_target >= 0 && g_next_target < g_n && runnable(g_f[g_next_target])) pick = g_next_target;
    bool forced = pick < 0;
    g_next_target = -1;
    if (forced)
    {
      ++g_pt;
      int def = cand[0];
      for (int k = 1; k <= g_n; ++k) { int i = (last + k) % g_n; if (runnable(g_f[i])) { def = i; break; } }
      pick = def;
      if (n > 1)
      {
        if (g_cfg.replay)
        {
          while (g_dec_i < g_cfg.decisions.size() && g_cfg.decisions[g_dec_i].pt < g_pt) ++g_dec_i;
          if (g_dec_i < g_cfg.decisions.size() && g_cfg.decisions[g_dec_i].pt == g_pt)
          {
            int t = g_cfg.decisions[g_dec_i++].target;
            if (t >= 0 && t < g_n && runnable(g_f[t])) pick = t;
          }
        }
        else
        {
          pick = cand[g_rng.below(n)];
          if (pick != def) g_res.decisions.push_back({g_pt, pick, 0});
        }
      }
    }
    last = pick;
    run_fiber(&g_f[pick]);
  }
}

RunResult end_run()
{
  g_active = false;
  g_res.points = g_pt;
  g_res.sim_ns = g_now - 1000000000ull;
  g_res.hash = mix(mix(g_res.hash, g_pt), g_now);
  // drop callables (they may own memory)
  for (int i = 0; i < g_n; ++i) g_f[i].fn = nullptr;
  RunResult r;
  std::swap(r, g_res);
  return r;
}

std::string fmt(const char* f, ...)
{
  char b[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

void ev(const char* f, ...)
{
  NoSim ns;
  char b[1024];
  va_list ap;
  va_start(ap, f);
  int n = vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  int who = g_cur ? g_cur->id : 99;
  g_res.order_hash = hstr(mix(g_res.order_hash, who), b, n);
  g_res.hash = mix(hstr(mix(g_res.hash, who), b, n), g_now);
  if (g_trace)
  {
    char h[96];
    snprintf(h, sizeof h, "%10.6f #%llu %-8s ", (g_now - 1000000000ull) * 1e-9, (unsigned long long)g_pt, g_cur ? g_cur->name.c_str() : "main");
    g_res.trace.push_back(std::string(h) + b);
  }
}
void count(const std::string& name, uint64_t n) { NoSim ns; g_res.counters[name] += n; }

void own_faults() { g_broad = true; }
const std::string& target() { return g_target; }
bool target_is(const char* p) { return g_target == p; }

static bool listed(const char* props)
{
  if (props[0] == '*') return true;
  const char* p = strstr(props, g_target.c_str());
  return p && !g_target.empty();
}

void fail(const char* props, bool fatal, const char* f, ...)
{
  std::string m;
  bool mine;
  {
    NoSim ns;
    char b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    m = b;
    mine = listed(props);
    ev("!! [%s] %s", props, b);
    if (mine)
    {
      if (!g_res.violated) { g_res.violated = true; g_res.msg = m; }
    }
    else
    {
      if (!g_res.other) g_res.other_msg = std::string(props) + ": " + m;
      g_res.other = true;
    }
  }
  if (mine || fatal) halt_now();
}
void note_other(const std::string& msg)
{
  {
    NoSim ns;
    g_res.other = true;
    g_res.other_msg = msg;
  }
  halt_now();
}
void (*on_code_sleep)() = nullptr;
void code_sleeps() { if (on_code_sleep) { NoSim ns; on_code_sleep(); } }
}  // namespace sim

using namespace sim;

// ------------------------------------------------------------------------------------------------ heap
static inline bool to_arena() { return g_active && g_off == 0 && (g_cur || g_arena_scope); }

static void* sim_new(size_t n, bool nothrow)
{
  if (to_arena())
  {
    if (g_cur)
    {
      rt_check("allocates heap memory");
      g_cur->allocs++;
      if (g_cur->alloc_fail > 0 && --g_cur->alloc_fail == 0)
      {
        g_cur->alloc_fail = -1;
        g_cur->alloc_fired = true;
        count("fault_alloc");
        ev("alloc failure injected");
        if (nothrow) return nullptr;
        throw std::bad_alloc();
      }
    }
    return arena_alloc(n);
  }
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
static void sim_delete(void* p)
{
  if (!p) return;
  if (!inA(p)) { free(p); return; }
  if (!g_active) return;  // late teardown after the run
  size_t c = cell(p);
  if (ASTATE[c] != 1)
  {
    NoSim ns;
    fail(mprops("C09,C12,C11"), true, "double free or free of an invalid pointer by fiber %s", g_cur ? g_cur->name.c_str() : "main");
    return;
  }
  size_t n = *(size_t*)((char*)p - 8);
  size_t nc = (n + 7) / 8;
  if (!nc) nc = 1;
  if (g_cur && g_off == 0)
  {
    rt_check("frees heap memory");
    for (size_t i = 0; i < nc; ++i) access_cell(c + i, 0xff, true, false);
  }
  memset(ASTATE + c, 2, nc);
}
void* operator new(size_t n) { return sim_new(n, false); }
void* operator new[](size_t n) { return sim_new(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_new(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_new(n, true); }
void* operator new(size_t n, std::align_val_t) { return sim_new(n, false); }
void* operator new[](size_t n, std::align_val_t) { return sim_new(n, false); }
void operator delete(void* p) noexcept { sim_delete(p); }
void operator delete[](void* p) noexcept { sim_delete(p); }
void operator delete(void* p, size_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t) noexcept { sim_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_delete(p); }

// ------------------------------------------------------------------------------------------------ libc interposition
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { if (!g_cur || g_off) return 0; lock_impl(m, is_rec(m)); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!g_cur || g_off) return 0; return unlock_impl(m); }
int pthread_mutex_trylock(pthread_mutex_t* m)
{
  if (!g_cur || g_off) return 0;
  point(P_SYNC);
  Mutex& M = mx(m);
  if (M.owner < 0 && M.readers == 0) { M.owner = g_cur->id; M.depth = 1; acquire_vc(M.vc); return 0; }
  if (M.owner == g_cur->id && is_rec(m)) { ++M.depth; return 0; }
  return EBUSY;
}
static int timed_lock(pthread_mutex_t* m, uint64_t dl)
{
  rt_check("acquires a lock");
  for (;;)
  {
    int r = pthread_mutex_trylock(m);
    if (r == 0) return 0;
    if (g_now >= dl) return ETIMEDOUT;
    uint64_t d = dl - g_now;
    sleep_ns(d < 50000 ? d : 50000);
  }
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { if (!g_cur || g_off) return 0; return timed_lock(m, abs_to_mono(CLOCK_REALTIME, ts)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { if (!g_cur || g_off) return 0; return timed_lock(m, abs_to_mono(c, ts)); }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
  memset(m, 0, sizeof *m);
  if (a) { int t = 0; pthread_mutexattr_gettype(a, &t); m->__data.__kind = t; }
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) { if (g_active && g_mx) { NoSim ns; g_mx->erase(m); } return 0; }

int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
  if (!g_cur || g_off) return 0;
  rt_check("acquires a lock");
  point(P_SYNC);
  for (;;)
  {
    Mutex& M = mx(m);
    if (M.owner < 0) { ++M.readers; acquire_vc(M.vc); return 0; }
    g_cur->st = BLOCKED; g_cur->on = m; block_here();
  }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
  if (!g_cur || g_off) return 0;
  rt_check("acquires a lock");
  point(P_SYNC);
  for (;;)
  {
    Mutex& M = mx(m);
    if (M.owner < 0 && M.readers == 0) { M.owner = g_cur->id; M.depth = 1; acquire_vc(M.vc); return 0; }
    g_cur->st = BLOCKED; g_cur->on = m; block_here();
  }
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!g_cur || g_off) return 0; Mutex& M = mx(m); if (M.owner < 0) { ++M.readers; acquire_vc(M.vc); return 0; } return EBUSY; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!g_cur || g_off) return 0; Mutex& M = mx(m); if (M.owner < 0 && !M.readers) { M.owner = g_cur->id; M.depth = 1; acquire_vc(M.vc); return 0; } return EBUSY; }
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
  if (!g_cur || g_off) return 0;
  {
    Mutex& M = mx(m);
    if (M.owner == g_cur->id) { M.owner = -1; M.depth = 0; } else if (M.readers > 0) --M.readers;
    release_vc(M.vc);
    wake_on(m);
  }
  point(P_SYNC);
  return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t dl)
{
  if (!g_cur || g_off) return 0;
  rt_check("waits on a condition variable");
  Mutex* M = &mx(m);
  int depth = M->depth;
  release_vc(M->vc);
  M->owner = -1; M->depth = 0;
  wake_on(m);
  int rc = 0;
  g_cur->on = c;
  g_cur->cond_signaled = false;
  if (dl == ~0ull) { g_cur->st = BLOCKED; block_here(); }
  else
  {
    g_cur->st = SLEEPING; g_cur->wake = dl; block_here();
    if (!g_cur->cond_signaled) rc = ETIMEDOUT;
  }
  g_cur->on = nullptr;
  { NoSim ns; auto it = g_sync->find(c); if (it != g_sync->end()) acquire_vc(it->second.vc); }
  lock_impl(m, true);
  mx(m).depth = depth ? depth : 1;
  return rc;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, ~0ull); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return cond_wait(c, m, abs_to_mono(CLOCK_REALTIME, ts)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { return cond_wait(c, m, abs_to_mono(k, ts)); }
static int cond_wake(pthread_cond_t* c, bool all)
{
  if (!g_cur || g_off) return 0;
  { NoSim ns; release_vc((*g_sync)[c].vc); }
  int w[MAXF], n = 0;
  for (int i = 0; i < g_n; ++i) if (g_f[i].on == c && (g_f[i].st == BLOCKED || g_f[i].st == SLEEPING)) w[n++] = i;
  for (int i = 0; i < n; ++i) { g_f[w[i]].st = READY; g_f[w[i]].on = nullptr; g_f[w[i]].cond_signaled = true; if (!all) break; }
  point(P_SYNC);
  return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { return cond_wake(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) { return cond_wake(c, true); }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }

// Code under test that starts its own threads gets fibers.
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
  if (!g_cur) { fprintf(stderr, "sim: thread creation outside a simulation\n"); _exit(3); }
  NoSim ns;
  int id = spawn(fmt("thread%d", g_n), [fn, arg]() { fn(arg); }, true);
  *t = (pthread_t)(id + 1);
  return 0;
}
int pthread_join(pthread_t t, void** r)
{
  if (r) *r = nullptr;
  if (!g_cur) return 0;
  int id = (int)t - 1;
  while (id >= 0 && id < g_n && g_f[id].st != DONE) sleep_ns(10000);
  if (id >= 0 && id < g_n) vc_join(g_cur->vc, g_f[id].vc);
  return 0;
}
int pthread_detach(pthread_t) { return 0; }

int sched_yield()
{
  if (g_cur && !g_off)
  {
    rt_check("yields the processor");
    ++g_pt;
    g_now += 1000;
    if (g_pt > g_cfg.cap) { NoSim ns; fail(mprops("C15"), true, "no end in sight (busy loop)"); }
    g_next_target = -1;
    switch_to_main();
  }
  return 0;
}
int nanosleep(const struct timespec* r, struct timespec*)
{
  if (g_cur && !g_off) { code_sleeps(); sleep_ns((uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec); return 0; }
  return (int)syscall(SYS_nanosleep, r, nullptr);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* r, struct timespec*)
{
  if (g_cur && !g_off)
  {
    code_sleeps();
    if (fl & TIMER_ABSTIME) { uint64_t t = abs_to_mono(c, r); if (t > g_now) sleep_ns(t - g_now); else point(P_SYNC); }
    else sleep_ns((uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec);
    return 0;
  }
  return (int)syscall(SYS_clock_nanosleep, c, fl, r, nullptr);
}
int usleep(useconds_t u) { if (g_cur && !g_off) { code_sleeps(); sleep_ns((uint64_t)u * 1000); return 0; } struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, nullptr); }
unsigned sleep(unsigned s) { if (g_cur && !g_off) { code_sleeps(); sleep_ns((uint64_t)s * 1000000000ull); return 0; } struct timespec t = {(time_t)s, 0}; return (unsigned)syscall(SYS_nanosleep, &t, nullptr); }

int clock_gettime(clockid_t c, struct timespec* ts) noexcept
{
  if (g_cur || g_active)
  {
    if (g_cur && !g_off) point(P_SYNC);
    int64_t t = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? sim::wall() : (int64_t)g_now;
    ts->tv_sec = t / 1000000000ll;
    ts->tv_nsec = t % 1000000000ll;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, c, ts);
}
int gettimeofday(struct timeval* tv, void*) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t* t) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }

// function-local statics: initialisation is made indivisible
int __cxa_guard_acquire(uint64_t* g)
{
  if (*(volatile uint8_t*)g) return 0;
  ++g_off;
  return 1;
}
void __cxa_guard_release(uint64_t* g) { *(volatile uint8_t*)g = 1; --g_off; }
void __cxa_guard_abort(uint64_t*) { --g_off; }

// ------------------------------------------------------------------------------------------------ instrumentation runtime
#define R(n) \
  void __tsan_read##n(void* p) { sim::mem_access(p, n, false, false); } \
  void __tsan_write##n(void* p) { sim::mem_access(p, n, true, false); } \
  void __tsan_unaligned_read##n(void* p) { sim::mem_access(p, n, false, false); } \
  void __tsan_unaligned_write##n(void* p) { sim::mem_access(p, n, true, false); } \
  void __tsan_volatile_read##n(void* p) { sim::mem_access(p, n, false, false); } \
  void __tsan_volatile_write##n(void* p) { sim::mem_access(p, n, true, false); } \
  void __tsan_read_write##n(void* p) { sim::mem_access(p, n, false, false); sim::mem_access(p, n, true, false); } \
  void __tsan_unaligned_read_write##n(void* p) { sim::mem_access(p, n, false, false); sim::mem_access(p, n, true, false); }
R(1) R(2) R(4) R(8) R(16)
#undef R
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void** p, void*) { sim::mem_access(p, 8, true, false); }
void __tsan_vptr_read(void** p) { sim::mem_access(p, 8, false, false); }
void __tsan_read_range(void* p, size_t n) { if (n) sim::mem_access(p, n, false, false); }
void __tsan_write_range(void* p, size_t n) { if (n) sim::mem_access(p, n, true, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { sim::mem_access(s, n, false, false); sim::mem_access(d, n, true, false); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { sim::mem_access(s, n, false, false); sim::mem_access(d, n, true, false); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (n) sim::mem_access(d, n, true, false); return memset(d, c, n); }

enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
static void at_pre(const volatile void* p, size_t n, bool write) { sim::mem_access((const void*)p, n, write, true); if (g_cur && !g_off && !inA((const void*)p)) point(P_SYNC); }
static void at_acq(const volatile void* p, int mo)
{
  if (!g_cur || g_off || mo == MO_RELAXED || mo == MO_RELEASE) return;
  NoSim ns;
  auto it = g_sync->find((const void*)p);
  if (it != g_sync->end()) acquire_vc(it->second.vc);
}
static void at_rel(const volatile void* p, int mo, bool rmw)
{
  if (!g_cur || g_off) return;
  NoSim ns;
  Sync& s = (*g_sync)[(const void*)p];
  if (mo == MO_RELEASE || mo == MO_ACQ_REL || mo == MO_SEQ_CST)
  {
    if (!rmw) memset(s.vc, 0, sizeof s.vc);
    release_vc(s.vc);
  }
  else if (!rmw)
    memset(s.vc, 0, sizeof s.vc);  // a relaxed store breaks the release sequence
}
#define A(T, n) \
  T __tsan_atomic##n##_load(const volatile T* a, int mo) { at_pre(a, sizeof(T), false); at_acq(a, mo); return *a; } \
  void __tsan_atomic##n##_store(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true); at_rel(a, mo, false); *a = v; } \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true); at_acq(a, mo); at_rel(a, mo, true); T o = *a; *a = v; return o; } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true); at_acq(a, mo); at_rel(a, mo, true); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true); at_acq(a, mo); at_rel(a, mo, true); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true); at_acq(a, mo); at_rel(a, mo, true); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true); at_acq(a, mo); at_rel(a, mo, true); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), true); at_acq(a, mo); at_rel(a, mo, true); T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) \
  { at_pre(a, sizeof(T), true); T o = *a; if (o == *e) { at_acq(a, mo); at_rel(a, mo, true); *a = v; return 1; } at_acq(a, fmo); *e = o; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return __tsan_atomic##n##_compare_exchange_strong(a, e, v, mo, fmo); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { __tsan_atomic##n##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
A(uint8_t, 8) A(uint16_t, 16) A(uint32_t, 32) A(uint64_t, 64)
#undef A
void __tsan_atomic_thread_fence(int) { point(P_SYNC); if (g_cur && !g_off) { NoSim ns; Sync& s = (*g_sync)[(const void*)1]; acquire_vc(s.vc); release_vc(s.vc); } }
void __tsan_atomic_signal_fence(int) {}
}

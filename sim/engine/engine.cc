// Core of the simulator: fibers, the seeded scheduler, simulated time, fault
// decisions, the event log and the verdict.
#include "engine.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" void vsim_switch(void** save, void* load);
asm(R"(
.text
.globl vsim_switch
.type vsim_switch,@function
vsim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vsim_switch,.-vsim_switch
)");

namespace sim {

Result* g_res;
Config g_cfg;
int g_cur = -1;
int g_n = 0;
uint64_t g_now = 0;

namespace {

struct EhGlobals { void* caught; unsigned int uncaught; };

struct Rank {
  void* sp = nullptr;
  EhGlobals eh{};
  bool finished = false, hot = true, workload_done = false;
  std::function<bool()> pred;
  char const* what = "";
  uint64_t stall_until = 0;
  uint64_t idle = 0;
  uint64_t hot_since = 0;
  int prio = 0;
  double skew = 0, drift = 0;
  uint64_t jump = 0;
};
Rank R[kMaxRanks];
void* g_main_sp;
EhGlobals g_main_eh;
std::vector<vsim_entry_fn> g_entries;

struct Wake { uint64_t t, seq; int rank; };
struct WakeGt { bool operator()(Wake const& a, Wake const& b) const {
  return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
std::priority_queue<Wake, std::vector<Wake>, WakeGt> g_wakes;
uint64_t g_wseq = 0;
uint64_t g_ctr[VF_COUNT];
bool g_quiesced = false;
uint64_t g_quiet_rounds = 0;
uint64_t g_evseq = 0;
uint64_t g_idle_limit = 16;
int g_policy = 0;
double g_preempt_p = 0;
uint64_t g_run_mask = 0;
std::map<std::string, void*> g_shared;
FILE* g_log = nullptr;

bool calmNow() {
  auto s = g_res->steps;
  if (g_quiesced or s >= g_cfg.horizon) return true;
  for (auto& r : g_cfg.calm) if (s >= r.first and s < r.second) return true;
  return false;
}

} // namespace

uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
uint64_t hashStr(char const* s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull;
  return h;
}

bool enabled(int kind) { return ((g_run_mask >> kind) & 1) and not calmNow(); }
static uint64_t draw(int kind) {
  return mix(mix(g_cfg.seed, 0xFA017 + kind + 0x1000u * (unsigned)g_life), g_ctr[kind]++);
}
bool chance(int kind, double p) {
  if (not((g_run_mask >> kind) & 1)) return false;
  bool hit = (double)(draw(kind) >> 11) * 0x1.0p-53 < p;
  if (calmNow()) return false;
  if (hit) fired(kind);
  return hit;
}
uint64_t pick(int kind, uint64_t n) {
  if (n == 0 or not((g_run_mask >> kind) & 1)) return 0;
  auto d = draw(kind);
  return calmNow() ? 0 : d % n;
}
double rate(int kind) {
  return (double)(mix(mix(g_cfg.seed, 0x4A7E), kind) >> 11) * 0x1.0p-53;
}

// --- event log -----------------------------------------------------------------
void ev(char const* kind, uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
  g_evseq++;
  g_res->events++;
  uint64_t h = g_res->hash;
  h = mix(h, hashStr(kind));
  h = mix(h, a ^ (uint64_t)(g_cur + 1) << 48);
  h = mix(h, b);
  h = mix(h, c);
  h = mix(h, d);
  h = mix(h, g_now);
  g_res->hash = h;
  if (g_log) {
    fprintf(g_log, "%lu t=%lu r%d %s %lu %lu %lu %lu\n", g_evseq, g_now, g_cur, kind, a, b, c, d);
  }
}
void orderEv(uint64_t a, uint64_t b, uint64_t c) {
  g_res->order_hash = mix(mix(mix(g_res->order_hash, a), b), c);
}

// --- verdicts --------------------------------------------------------------------
static void putResult(int outcome, std::string const& cls, std::string const& msg) {
  g_res->outcome = outcome;
  snprintf(g_res->cls, sizeof(g_res->cls), "%s", cls.c_str());
  snprintf(g_res->msg, sizeof(g_res->msg), "%s", msg.c_str());
  g_res->now = g_now;
  if (g_log) {
    fprintf(g_log, "END %d %s: %s\n", outcome, cls.c_str(), msg.c_str());
    fflush(g_log);
  }
}
static void (*g_describe)(char*, uint64_t) = nullptr;
void fail(std::string const& cls, std::string const& msg_in) {
  auto msg = msg_in;
  if (g_describe and (cls == "hang" or cls == "liveness" or cls == "deadlock")) {
    static char b[900];
    b[0] = 0;
    g_describe(b, sizeof b);
    msg = msg.substr(0, 1000) + " | " + b;
  }
  ev("FAIL", hashStr(cls.c_str()));
  putResult(2, cls, msg);
  _exit(1);
}
int g_life = 0, g_crashes = 0;
void crashNow() {
  fired(VF_CRASH);
  ev("crash");
  if (g_log) fflush(g_log);
  _exit(kCrashed);
}
void engineError(std::string const& msg) {
  putResult(3, "engine", msg);
  _exit(2);
}

// --- scheduling --------------------------------------------------------------------
void wakeAt(uint64_t t, int rank) { g_wakes.push(Wake{t, g_wseq++, rank}); }
void wake(int rank) {
  if (rank < 0 or rank >= g_n) return;
  R[rank].hot = true;
  R[rank].idle = 0;
}
void progress() {
  g_quiet_rounds = 0;
  if (g_cur >= 0) R[g_cur].idle = 0;
}

static EhGlobals* eh() { return reinterpret_cast<EhGlobals*>(__cxxabiv1::__cxa_get_globals()); }

static void toScheduler() {
  int me = g_cur;
  R[me].eh = *eh();
  *eh() = g_main_eh;
  g_cur = -1;
  vsim_switch(&R[me].sp, g_main_sp);
  // resumed
}
static void toRank(int r) {
  g_main_eh = *eh();
  *eh() = R[r].eh;
  g_cur = r;
  g_res->switches++;
  vsim_switch(&g_main_sp, R[r].sp);
}

void step(bool success) {
  g_res->steps++;
  g_now += 100;
  auto& me = R[g_cur];
  if (success) {
    me.idle = 0;
    g_quiet_rounds = 0;
  } else {
    me.idle++;
  }
  if (g_res->steps == g_cfg.soft_steps) g_quiesced = true;
  if (g_res->steps >= g_cfg.hard_steps) {
    fail("liveness", "no completion within the step bound after all faults stopped; " + mpiStateDump());
  }
  if (chance(VF_STALL, 0.00002 + 0.0006 * rate(VF_STALL))) {
    me.stall_until = g_now + 1000 + pick(VF_STALL, 1u << (8 + pick(VF_STALL, 15)));
    wakeAt(me.stall_until, g_cur);
    ev("stall", me.stall_until);
    toScheduler();
    return;
  }
  if (chance(VF_CLOCK, 0.00005)) {
    me.jump += pick(VF_CLOCK, 1ull << (10 + pick(VF_CLOCK, 30)));
    ev("clockjump", me.jump);
  }
  if (chance(VF_PREEMPT, g_preempt_p)) { toScheduler(); return; }
  // a fair default: nobody runs forever without yielding
  if (me.idle >= g_idle_limit) { me.hot = false; toScheduler(); return; }
  if (g_res->steps - me.hot_since > 400) { toScheduler(); return; }
}

void block(std::function<bool()> pred, char const* what) {
  auto& me = R[g_cur];
  g_res->steps++;
  g_now += 100;
  if (pred()) return;
  me.pred = pred;
  me.what = what;
  me.hot = false;
  toScheduler();
}

double clockOf(int rank) {
  auto& r = R[rank];
  double t = (double)g_now * 1e-9;
  return 1000.0 + t * (1.0 + r.drift) + r.skew + (double)r.jump * 1e-9;
}

static void fiberMain() {
  int me = g_cur;
  g_entries[me](me, g_n, g_cfg.workload.c_str());
  ev("rank-finished");
  R[me].finished = true;
  progress();
  toScheduler();
  abort();
}

static std::string rankStates() {
  std::string s;
  for (int i = 0; i < g_n; i++) {
    char b[128];
    snprintf(b, sizeof(b), "[rank %d: %s%s%s] ", i,
      R[i].finished ? "finished" : R[i].pred ? "blocked in " : "polling",
      R[i].pred ? R[i].what : "", R[i].workload_done ? ", workload done" : "");
    s += b;
  }
  return s;
}

void runAll(std::vector<vsim_entry_fn> const& entries) {
  g_entries = entries;
  auto const seed = g_cfg.seed;
  // swarm: a random subset of the fault kinds, with random rates
  uint64_t want = mix(seed, 0x5A4A);
  uint64_t want2 = mix(seed, 0x5A4B);
  uint64_t style = mix(seed, 0x5A4C) % 8;
  uint64_t m = style == 0 ? 0 : style <= 3 ? want & want2 : want;   // few or many kinds
  // runtime-option randomisation and wildcard choice are cheap: on more often
  if (mix(seed, 0x5A4D) % 4) m |= 1ull << VF_CONFIG;
  g_run_mask = m & g_cfg.mask & ((1ull << VF_COUNT) - 1);
  g_res->mask = g_run_mask;
  g_policy = (int)(mix(seed, 0x9011) % 3);
  if (not((g_run_mask >> VF_PREEMPT) & 1)) g_policy = 0;
  {
    auto x = rate(VF_PREEMPT);
    g_preempt_p = x < 0.4 ? 0.01 : x < 0.8 ? 0.1 : 0.5;
  }
  g_idle_limit = 12 + (((g_run_mask >> VF_PREEMPT) & 1) ? mix(seed, 0x1D1E) % 24 : 4);
  if (g_cfg.verbose) g_log = fopen("events.log", g_life ? "a" : "w");
  ev("seed", seed, g_run_mask, g_n);
  for (auto& r : R) r.hot_since = g_res->steps;

  std::size_t const kStack = 2u << 20;
  for (int i = 0; i < g_n; i++) {
    char* s = (char*)mmap(nullptr, kStack + 4096, PROT_READ | PROT_WRITE,
      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (s == MAP_FAILED) engineError("mmap of a fiber stack failed");
    mprotect(s, 4096, PROT_NONE);
    auto top = (uintptr_t)(s + kStack + 4096) & ~uintptr_t(15);
    void** p = (void**)top;
    *--p = nullptr;                 // keeps rsp%16==8 at entry
    *--p = (void*)&fiberMain;
    for (int k = 0; k < 6; k++) *--p = nullptr;
    R[i].sp = p;
    if ((g_run_mask >> VF_CLOCK) & 1) {
      R[i].skew = (double)(mix(seed, 0xC10C + i) % 1000000) * 1e-4;
      R[i].drift = ((double)(mix(seed, 0xD21F + i) % 2001) - 1000) * 1e-5;
      fired(VF_CLOCK);
    }
    R[i].prio = i;
  }
  if ((g_run_mask >> VF_PRIO) & 1) {
    for (int i = 0; i < g_n; i++) R[i].prio = (int)(mix(seed, 0x9210 + i) >> 40);
  }

  int rr = 0;
  uint64_t prio_epoch = 0;
  for (;;) {
    while (not g_wakes.empty() and g_wakes.top().t <= g_now) {
      auto w = g_wakes.top();
      g_wakes.pop();
      if (w.rank < 0) { for (int i = 0; i < g_n; i++) wake(i); } else wake(w.rank);
    }
    int cand[kMaxRanks], nc = 0, unfinished = 0, nonblocked = 0;
    for (int i = 0; i < g_n; i++) {
      auto& r = R[i];
      if (r.finished) continue;
      unfinished++;
      if (not r.pred) nonblocked++;
      if (r.stall_until > g_now and not calmNow()) continue;
      if (not r.hot) continue;
      if (r.pred) {
        if (not r.pred()) { r.hot = false; continue; }
        cand[nc++] = i;
      } else {
        cand[nc++] = i;
      }
    }
    if (unfinished == 0) break;
    if (nc == 0) {
      if (not g_wakes.empty()) {
        g_now = g_wakes.top().t > g_now ? g_wakes.top().t : g_now;
        continue;
      }
      bool any_stalled = false;
      for (int i = 0; i < g_n; i++) {
        if (not R[i].finished and R[i].stall_until > g_now) { R[i].stall_until = 0; any_stalled = true; R[i].hot = true; }
      }
      if (any_stalled) continue;
      g_quiet_rounds++;
      if (nonblocked == 0) {
        bool any = false;
        for (int i = 0; i < g_n; i++) if (not R[i].finished and R[i].pred and R[i].pred()) { R[i].hot = true; any = true; }
        if (not any) fail("deadlock", "every node is blocked: " + rankStates() + mpiStateDump());
        continue;
      }
      if (g_quiet_rounds > 400) {
        fail("hang", "nothing in flight, no node makes progress: " + rankStates() + mpiStateDump());
      }
      uint64_t dt = 1000ull << (g_quiet_rounds < 20 ? g_quiet_rounds : 20);
      g_now += dt;
      for (int i = 0; i < g_n; i++) wake(i);
      continue;
    }
    int c;
    if (enabled(VF_PRIO)) {
      // strict priorities, re-drawn now and then
      auto e = g_res->steps / 4096;
      if (e != prio_epoch) {
        prio_epoch = e;
        int a = (int)pick(VF_PRIO, g_n);
        R[a].prio = (int)(mix(seed, 0x9999 + e) >> 40);
        fired(VF_PRIO);
      }
      c = cand[0];
      for (int k = 1; k < nc; k++) if (R[cand[k]].prio > R[c].prio) c = cand[k];
    } else if (g_policy != 0 and nc > 1 and not calmNow()) {
      c = cand[pick(VF_PREEMPT, nc)];
    } else {
      c = cand[0];
      for (int k = 0; k < nc; k++) if (cand[k] >= rr) { c = cand[k]; break; }
    }
    rr = (c + 1) % g_n;
    R[c].pred = nullptr;
    R[c].hot_since = g_res->steps;
    g_res->hash = mix(g_res->hash, (uint64_t)c + 77);
    if (g_log) fprintf(g_log, "-- run r%d t=%lu step=%lu\n", c, g_now, g_res->steps);
    toRank(c);
  }
  mpiFinalCheck();
  if (g_res->done_ranks != g_n) {
    fail("incomplete", "a node finished without completing its workload");
  }
  ev("all-finished");
  putResult(1, "ok", "");
}

} // namespace sim

// --- C interface -------------------------------------------------------------------
using namespace sim;
extern "C" {

int vsim_rank(void) { return g_cur; }
int vsim_size(void) { return g_n; }
uint64_t vsim_now(void) { return g_now; }
uint64_t vsim_seq(void) { return ++g_evseq; }
void vsim_advance(uint64_t ns) { g_now += ns; progress(); step(true); }
void vsim_yield(void) { step(false); }
void vsim_touch(void) { progress(); }

uint64_t vsim_hash(char const* name, uint64_t idx) {
  return mix(mix(g_cfg.seed, hashStr(name)), idx);
}
int64_t vsim_param(char const* name, int64_t lo, int64_t hi) {
  int64_t v;
  auto it = g_cfg.params.find(name);
  if (it != g_cfg.params.end()) {
    v = it->second < lo ? lo : it->second > hi ? hi : it->second;
  } else {
    v = lo + (int64_t)(mix(mix(g_cfg.seed, 0xBA2A), hashStr(name)) % (uint64_t)(hi - lo + 1));
  }
  for (int i = 0; i < g_res->nparams; i++) {
    if (strcmp(g_res->params[i].name, name) == 0) return v;
  }
  if (g_res->nparams < 64) {
    auto& p = g_res->params[g_res->nparams++];
    snprintf(p.name, sizeof p.name, "%s", name);
    p.lo = lo; p.hi = hi; p.v = v;
  }
  return v;
}
int vsim_op_on(uint64_t i) {
  if (i + 1 > g_res->nops) g_res->nops = i + 1;
  for (auto& r : g_cfg.drop_ops) if (i >= r.first and i < r.second) return 0;
  return 1;
}

void vsim_fail(char const* cls, char const* fmt, ...) {
  char b[1800];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof(b), fmt, ap);
  va_end(ap);
  fail(cls, b);
}
void vsim_log(char const* fmt, ...) {
  char b[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof(b), fmt, ap);
  va_end(ap);
  ev("log", hashStr(b));
  if (sim::g_log) fprintf(sim::g_log, "   %s\n", b);
}
void vsim_probe(char const* name) {
  for (int i = 0; i < g_res->nprobes; i++) {
    if (strcmp(g_res->probes[i].name, name) == 0) { g_res->probes[i].n++; return; }
  }
  if (g_res->nprobes >= kMaxProbes) return;
  auto& p = g_res->probes[g_res->nprobes++];
  snprintf(p.name, sizeof(p.name), "%s", name);
  p.n = 1;
}
void vsim_pass(void) {
  ev("PASS");
  putResult(1, "ok", "");
  _exit(0);
}
void vsim_done(void) {
  if (g_cur >= 0 and not R[g_cur].workload_done) {
    R[g_cur].workload_done = true;
    g_res->done_ranks++;
    ev("workload-done");
  }
}
void* vsim_shared(char const* key, void* (*make)(void)) {
  auto& p = g_shared[key];
  if (p == nullptr) p = make();
  return p;
}
uint64_t vsim_fault_mask(void) { return g_run_mask; }
void vsim_quiesce(void) { g_quiesced = true; }
void vsim_describe(void (*fn)(char*, uint64_t)) { sim::g_describe = fn; }
void vsim_fire(int k) { fired(k); }

} // extern "C"

#ifndef VSIM_ENGINE_H
#define VSIM_ENGINE_H
#include "vsim.h"
#include <cstddef>
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <queue>
#include <string>
#include <vector>

namespace sim {

constexpr int kMaxRanks = 16;
constexpr int kMaxProbes = 192;

struct Result {           // lives in memory shared with the worker process
  int outcome;            // 0 running/crashed, 1 ok, 2 violation, 3 engine error
  char cls[80];
  char msg[2000];
  uint64_t hash;          // hash of the whole event log
  uint64_t order_hash;    // hash of the delivery order only
  uint64_t steps, now, msgs, bytes, switches, colls, rma, events;
  uint64_t fired[VF_COUNT];
  uint64_t mask;
  int nprobes;
  struct { char name[56]; uint64_t n; } probes[kMaxProbes];
  int nranks, done_ranks;
  uint64_t nops;            // one past the largest generated operation index
  int nparams;
  struct { char name[40]; int64_t lo, hi, v; } params[64];
};
extern Result* g_res;

inline constexpr int kCrashed = 77;     // exit status of a life that ended by a crash
extern int g_life, g_crashes;
[[noreturn]] void crashNow();

struct Config {
  uint64_t seed = 1;
  std::string workload;
  uint64_t mask = ~0ull;                                 // fault kinds allowed
  uint64_t horizon = ~0ull;                              // no faults from this step on
  std::vector<std::pair<uint64_t, uint64_t>> calm;       // fault-free step ranges
  std::vector<std::pair<uint64_t, uint64_t>> drop_ops;   // dropped op index ranges
  std::map<std::string, int64_t> params;                 // overridden parameters
  uint64_t soft_steps = 400000, hard_steps = 1400000;
  bool verbose = false;
  int tier = 0;
};
extern Config g_cfg;

uint64_t mix(uint64_t a, uint64_t b);
uint64_t hashStr(char const* s);

// --- fault decisions
bool enabled(int kind);                     // enabled in this run and not calm now
bool chance(int kind, double p);            // counts as fired when true
uint64_t pick(int kind, uint64_t n);        // uniform in [0,n), 0 when calm
inline void fired(int kind) { g_res->fired[kind]++; }
double rate(int kind);                      // per-run rate factor in [0,1)

// --- scheduler
extern int g_cur;                           // current rank, -1 in the scheduler
extern int g_n;
extern uint64_t g_now;
void wakeAt(uint64_t t, int rank);
void wake(int rank);
void progress();                            // something observable happened
void step(bool success);                    // yield point after an MPI call
void block(std::function<bool()> pred, char const* what);
double clockOf(int rank);
[[noreturn]] void fail(std::string const& cls, std::string const& msg);
[[noreturn]] void engineError(std::string const& msg);
void ev(char const* kind, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0);
void orderEv(uint64_t a, uint64_t b, uint64_t c);
void runAll(std::vector<vsim_entry_fn> const& entries);

// --- mpi layer
void mpiInit(int n);
void mpiFinalCheck();
std::string mpiStateDump();
void diskInit();

} // namespace sim
#endif

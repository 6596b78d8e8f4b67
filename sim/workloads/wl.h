// Common parts of all workloads: runtime start-up with randomised options,
// oracle memory shared by the simulated nodes, deterministic choices.
#ifndef WL_H
#define WL_H
#include "vsim.h"
#include <vt/transport.h>
#include <cstdio>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace wl {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  Rng(char const* name, uint64_t idx) : s(vsim_hash(name, idx)) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); }
  bool chance(int percent) { return (int)(next() % 100) < percent; }
};

template <class T>
T& shared(char const* key) {
  return *static_cast<T*>(vsim_shared(key, []() -> void* { return new T(); }));
}

inline bool on(int kind) { return (vsim_fault_mask() >> kind) & 1; }

// Checksummed contents of a given size.
inline uint8_t patByte(uint64_t key, std::size_t i) {
  uint64_t z = (key ^ (i >> 3)) * 0x9E3779B97F4A7C15ull;
  z ^= z >> 29;
  z *= 0xBF58476D1CE4E5B9ull;
  return (uint8_t)(z >> (8 * (i & 7)));
}
inline void fill(uint8_t* p, std::size_t n, uint64_t key) {
  for (std::size_t i = 0; i < n; i++) p[i] = patByte(key, i);
}
inline bool matches(uint8_t const* p, std::size_t n, uint64_t key) {
  for (std::size_t i = 0; i < n; i++) if (p[i] != patByte(key, i)) return false;
  return true;
}

enum { kNoTermCfg = 1, kNoSplit = 2, kNoUlt = 4 };

// Runtime options of this run: the same on every node.
inline std::vector<std::string> options(unsigned flags, std::vector<std::string> extra) {
  std::vector<std::string> a = {
    "sim", "--vt_no_SIGINT", "--vt_no_SIGSEGV", "--vt_no_SIGBUS", "--vt_no_terminate", "--vt_quiet", "--vt_no_color", "--vt_no_stack"
  };
  if (on(VF_CONFIG)) {
    vsim_fire(VF_CONFIG);
    Rng g("options", 0);
    auto t = g.range(0, 3);
    if (not(flags & kNoTermCfg)) {
      if (t == 1) a.push_back("--vt_term_rooted_use_ds");
      if (t == 2) a.push_back("--vt_term_rooted_use_wave");
    }
    if (g.chance(30)) a.push_back("--vt_no_detect_hang");
    auto s = g.range(0, 5);
    auto sz = (int64_t[]){1024, 2048, 3000, 8192}[g.range(0, 3)];
    if (s <= 2 and not(flags & kNoSplit)) a.push_back("--vt_max_mpi_send_size=" + std::to_string(sz));
    if (g.chance(30)) a.push_back("--vt_sched_num_progress=" + std::to_string(g.range(1, 5)));
    if (g.chance(30)) a.push_back("--vt_sched_progress_han=" + std::to_string(g.range(0, 4)));
    if (g.chance(10)) a.push_back("--vt_sched_progress_sec=0.0001");
    if (g.chance(20)) a.push_back("--vt_hang_freq=" + std::to_string(g.range(1, 2000)));
    if (g.chance(25) and not(flags & kNoUlt)) a.push_back("--vt_ult_disable");
  }
  for (auto& x : extra) a.push_back(x);
  return a;
}

inline void init(unsigned flags = 0, std::vector<std::string> extra = {}) {
  static std::deque<std::vector<char>> store;   // lives as long as the process
  static std::vector<char*> argv;
  argv.clear();
  for (auto& s : options(flags, extra)) {
    store.emplace_back(s.begin(), s.end());
    store.back().push_back(0);
    argv.push_back(store.back().data());
  }
  static int argc;
  argc = (int)argv.size();
  argv.push_back(nullptr);
  static char** pv;
  pv = argv.data();
  vt::initialize(argc, pv);
}

inline int me() { return vsim_rank(); }
inline int nn() { return vsim_size(); }

template <class Pred>
void pumpUntil(Pred p) {
  vt::theSched()->runSchedulerWhile([&] { return not p(); });
}

// All simulated nodes reach this point before any continues, without using any
// vt facility (the nodes keep their schedulers running meanwhile).
struct Meet { int arrived = 0; };
inline void meet(char const* key) {
  auto& m = shared<Meet>(key);
  m.arrived++;
  vsim_touch();
  pumpUntil([&] { return m.arrived >= nn(); });
}

} // namespace wl

#define WL_ENTRY extern "C" __attribute__((visibility("default"))) \
  void vsim_rank_entry(int, int, char const* mode_c)
#endif

// System services seen by the simulated nodes: clocks, sleeping, randomness.
#include "engine.h"
#include <cstring>
#include <random>
#include <string>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>
using namespace sim;

static uint64_t nowNs() { g_now += 20; return (uint64_t)(clockOf(g_cur) * 1e9) + 1700000000ull * 1000000000ull; }

extern "C" {
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (g_cur < 0) return (int)syscall(SYS_clock_gettime, c, ts);
  auto t = nowNs();
  ts->tv_sec = (time_t)(t / 1000000000ull);
  ts->tv_nsec = (long)(t % 1000000000ull);
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  if (g_cur < 0) { tv->tv_sec = 0; tv->tv_usec = 0; return 0; }
  auto t = nowNs();
  tv->tv_sec = (time_t)(t / 1000000000ull);
  tv->tv_usec = (long)(t % 1000000000ull / 1000);
  return 0;
}
time_t time(time_t* out) {
  time_t t = 1700000000;
  if (g_cur >= 0) t = (time_t)(nowNs() / 1000000000ull);
  if (out) *out = t;
  return t;
}
clock_t clock(void) { return g_cur >= 0 ? (clock_t)(nowNs() / 1000 % 1000000000000ull) : 0; }
static int sleepNs(uint64_t ns) {
  if (g_cur < 0) return 0;
  uint64_t until = g_now + ns;
  wakeAt(until, g_cur);
  block([until] { return g_now >= until; }, "sleep");
  return 0;
}
int nanosleep(struct timespec const* r, struct timespec*) { return sleepNs((uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec); }
int clock_nanosleep(clockid_t, int flags, struct timespec const* r, struct timespec*) {
  if (flags) return 0;
  return sleepNs((uint64_t)r->tv_sec * 1000000000ull + r->tv_nsec);
}
int usleep(useconds_t u) { return sleepNs((uint64_t)u * 1000); }
unsigned sleep(unsigned s) { sleepNs((uint64_t)s * 1000000000ull); return 0; }
int gethostname(char* s, size_t n) { strncpy(s, "simhost", n); return 0; }
pid_t getpid(void) { return 4000 + (g_cur < 0 ? 999 : g_cur); }
}

// std::random_device draws from the run's seed
static uint64_t g_rd = 0;
namespace std {
void random_device::_M_init(std::string const&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() {
  return (unsigned)(mix(mix(g_cfg.seed, 0x5EEDull), g_rd++) >> 32);
}
}

// Interface between the simulation engine (the vsim executable) and the code
// that runs on the simulated ranks (the rank library, one copy per rank).
#ifndef VSIM_H
#define VSIM_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

// --- identity and time
int vsim_rank(void);                 // current rank, -1 outside a rank
int vsim_size(void);
uint64_t vsim_now(void);             // simulated nanoseconds
uint64_t vsim_seq(void);             // global event sequence number
void vsim_advance(uint64_t ns);      // model local computation (also a yield point)
void vsim_yield(void);               // plain yield point
void vsim_touch(void);               // the calling rank just made progress

// --- choices.  All are pure functions of (seed, name, index): the same on all
// ranks and independent of the schedule.
uint64_t vsim_hash(char const* name, uint64_t idx);
// a named parameter in [lo,hi]; a replay file can override it
int64_t vsim_param(char const* name, int64_t lo, int64_t hi);
// is generated operation `idx` kept (minimiser can drop it)?
int vsim_op_on(uint64_t idx);

// --- verdicts and history
void vsim_fail(char const* cls, char const* fmt, ...)
  __attribute__((noreturn, format(printf, 2, 3)));
void vsim_log(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
void vsim_probe(char const* name);   // "this was reached", counted per run
// the run ends here, and it is fine that it does
void vsim_pass(void) __attribute__((noreturn));
void vsim_done(void);                // this rank's workload ran to completion

// --- shared oracle memory: one slot per key, created by make() on first use
void* vsim_shared(char const* key, void* (*make)(void));

// requests of the calling node (except receives) that MPI still works on
int vsim_mpi_open(void);
// tells the calling node of its own MPI activity from now on (null: no more)
enum { VMPI_SEND, VMPI_POST, VMPI_RECV, VMPI_TEST_RECV, VMPI_TEST_SEND, VMPI_PROBE };
typedef void (*vsim_mpi_observer)(int kind, int comm, int tag, void const* buf, uint64_t n);
void vsim_mpi_observe(vsim_mpi_observer fn);

// --- disk fault switches (see engine/disk.cc)
enum {
  VDISK_SLOW = 1,    // short transfers and interrupted calls, which programs must handle
  VDISK_WRITE = 2,   // writes fail: full or broken disk
  VDISK_READ = 4,    // reads fail
  VDISK_OPEN = 8     // files cannot be opened
};
void vsim_disk_faults(int bits);
int vsim_disk_fault_count(void);

// --- lives.  A rank library may export `int vsim_lives(char const* workload)`:
// the job is then started that many times, one after the other, on the same
// disk.  A life ends when it completes, by vsim_pass, or by a crash.
int vsim_life(void);
int vsim_crashed(void);              // lives that ended by a crash so far
// memory that survives all lives, zeroed at first (plain data only)
void* vsim_journal(uint64_t n);
// the job dies after that many further disk operations, if crashes are enabled
// (a write that it dies in is torn); 0: it does not
void vsim_crash_at(uint64_t disk_ops);

// --- faults a workload asks for: enabled kinds of this run (bit mask)
uint64_t vsim_fault_mask(void);
// stop injecting faults and use the fair default schedule from now on
void vsim_quiesce(void);
// describes the oracle's state; appended to hang and liveness reports
void vsim_describe(void (*fn)(char* buf, uint64_t n));
void vsim_fire(int kind);             // count a fault the workload injected itself

// the entry point each rank library exports
typedef void (*vsim_entry_fn)(int rank, int size, char const* workload);
#ifdef __cplusplus
}
#endif

enum {
  VF_JITTER = 0,   // random message latency
  VF_TAIL,         // heavy-tailed message latency
  VF_LINK,         // one-directional slow links
  VF_PARTITION,    // a node is cut off for a while, then healed
  VF_STALL,        // a node stops being scheduled for a while
  VF_PREEMPT,      // preemption at any MPI call
  VF_PRIO,         // strict random priorities between nodes
  VF_SYNCSEND,     // sends complete only once matched (rendezvous)
  VF_LATECOPY,     // the network reads send buffers as late as it may
  VF_SLOWDONE,     // slow completion of sends, receives and collectives
  VF_SPURIOUS,     // probe/test report "not yet" although ready
  VF_ANYSRC,       // wildcard probes pick any source
  VF_CLOCK,        // clock skew, drift and forward jumps
  VF_RMA,          // RMA operations delayed and reordered until flushed
  VF_CONFIG,       // randomised runtime options
  VF_DISK,         // disk errors: EIO, ENOSPC, short writes
  VF_CRASH,        // the whole job dies; only the disk survives
  VF_COUNT
};
#endif

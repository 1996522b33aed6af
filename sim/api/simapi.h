// API offered by the simulator to harness code (and used by the driver).
#ifndef SIMAPI_H
#define SIMAPI_H
#include <cstddef>
#include <cstdint>
extern "C" {
/// world rank of the running fiber, number of ranks in this epoch, epoch number
int sim_rank();
int sim_nranks();
int sim_epoch();
uint64_t sim_seed();
/// plan parameters of this run: "eN.key" is looked up before "key"
long sim_param(const char *key, long def);
const char *sim_param_s(const char *key, const char *def);
/// report a violation and end the run.  cls: short stable class, no spaces
void sim_violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
/// one line in the trace
void sim_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/// add to a named counter
void sim_count(const char *name, long n);
/// a measure of distinct states: value enters a set
void sim_state(uint64_t h);
/// every rank that records the same key must record the same bytes
void sim_agree(const char *key, const void *data, size_t n);
/// bytes which survive from one epoch to the next (the omniscient observer's memory)
void sim_put(const char *key, const void *data, size_t n);
long sim_get(const char *key, void *data, size_t max);
/// number of simulator events so far in this epoch
long sim_events();
/// a scheduling point
void sim_yield();
/// number of I/O system calls of the given kind done so far by simulated ranks in this epoch
long sim_io_calls();
/// while off, no I/O fault or crash is injected (default on)
void sim_faults(int on);
/// scratch directory of this run (absolute)
const char *sim_dir();
/// stdout text of a rank so far
const char *sim_stdout(int rank);
void sim_advance_clock(long long ns);
long long sim_clock_ns();
/// the wall clock (not the monotonic one) jumps on all ranks
void sim_realtime_jump(long long ns);
/// stop signals delivered to a rank so far in this epoch
long sim_signals(int rank);
/// the group this rank belongs to (default 0), and the number of its messages and collectives which
/// involved ranks of another group
void sim_group(int g);
long sim_crossings();
/// report unordered accesses of the threads of this rank (default: on)
void sim_races(int on);
/// bytes and blocks which the program of this rank holds on the heap, and allocations made so far
long sim_heap_bytes(void);
long sim_heap_blocks(void);
long sim_heap_calls(void);
/// has an injected allocation failure happened (also for harness_post)
int sim_alloc_failed(void);
/// the program of this rank is through: from now on it may end with success
void sim_finished(void);
/// how the last epoch ended (for harness_post): 0 all ranks finalized and returned,
/// 1 job ended by exit/abort of a rank, 2 injected crash, 3 all ranks left with exit() after finalize
int sim_outcome();
int sim_exit_code(int rank);
/// true when rank has ended (returned or exited) -- valid in harness_post
}
#endif

// lattesim runtime: the seam between LattE's object code and the operating system.
// Everything LattE can observe that is not a pure function of its input (files, child
// processes, clocks, random numbers, process ids, allocation failures, signals, and -- with
// several simulated processes -- who runs next) is decided here, from a plan handed over by
// the driver.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

enum FaultKind {
  F_CRASH, F_TORN, F_EIO, F_ENOSPC, F_SHORT, F_EMFILE, F_EACCES,
  T_FAIL, T_KILLED, T_NOTFOUND, T_FORKFAIL, T_TRUNC_OK, T_TRUNC_FAIL, T_NORUN_OK,
  F_SIGNAL, F_CLOCK, F_ALLOC, F_NKINDS
};
extern const char *fault_names[F_NKINDS];

struct Fault { long op; int kind; long param; };

struct Plan {
  std::string prog;
  std::vector<std::string> args;
  std::string cwd;                 // directory inside the world
  std::string stdin_text;
  std::string rng_mode = "uniform";
  uint64_t rng_seed = 1;
  long rng_prefix = 0;             // number of adversarial draws before the generator turns fair
  std::vector<long> rng_list;      // explicit draws, used first
  std::vector<Fault> faults;       // by operation index
  long alloc_fail = -1;            // n-th operator new fails
  long alloc_sticky = 0;           // ... and the following ones too
  int pid = 4242;
  std::string host = "simhost";
  long clock_base_ms = 1000000;
  long clock_step_us = 1000;
  long disk_free = -1;             // bytes left on the simulated disk, -1: unlimited
  int cpu_limit = 10;
  long max_ops = 200000;
};

// Lives in shared memory so that it survives the simulated process.
struct Shared {
  volatile long ops, draws, allocs, clock_us;
  volatile long disk_free;
  volatile long fired[F_NKINDS];
  volatile long n_open, n_read, n_write, n_close, n_rename, n_unlink, n_mkdir, n_system;
  volatile long escapes;
  volatile long ops_exceeded;
  volatile long log_len, log_drop;
  volatile uint64_t cov_edges;
  char log[1 << 20];
};

extern thread_local int dummy_tls;
void child_setup(const Plan &p, Shared *sh, const std::string &world, int sched_fd);
typedef int (*main_fn)(int, char **);
main_fn find_program(const std::string &name);
int run_program(const std::string &name, const std::vector<std::string> &args);
extern bool active;
}

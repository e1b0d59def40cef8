/* Shared between the simulation shim (C) and the orchestrator (Rust: src/shim.rs mirrors this). */
#ifndef SWCSIM_H
#define SWCSIM_H
#include <stdint.h>

#define SWC_MAGIC 0x53574353494d3031ULL
#define MAX_DEV 32768

struct dev { uint64_t step; uint32_t thread; uint32_t pad; };

/* Control block in a shared file mapping; survives a kill of the simulated process. */
struct shm {
	/* written by the orchestrator before start */
	uint64_t magic;
	uint64_t sched_seed;     /* seed of the scheduler's own choices (search mode) */
	uint64_t hash_seed;      /* what getrandom() returns */
	uint32_t preempt_pm;     /* per-mille probability of deviating from the default choice */
	uint32_t replay;         /* 1: no random choices, only dev_in */
	uint32_t n_dev_in;
	uint32_t watch_stdout;   /* ask before each write to fd 1 */
	uint32_t watch_stat;     /* ask before each look at a path of the simulated disk */
	uint32_t pad;
	uint64_t start_now;      /* simulated time at start */
	uint64_t max_steps;      /* livelock bound */
	int64_t  real_skew;      /* added to the wall clock only; may change at any time */
	char     watch[512];     /* directory that holds the simulated disk */
	char     sockdir[256];   /* where "TCP" listeners live as unix sockets */
	/* written by the shim */
	uint64_t now;
	uint64_t steps;          /* scheduling decisions */
	uint64_t switches;
	uint64_t sched_hash;     /* hash of (step, thread) of all decisions with a real choice */
	uint64_t choice_points;  /* decisions with more than one runnable thread */
	uint64_t clock_reads, futex_waits, futex_wakes, epoll_blocks, threads, spurious;
	uint32_t n_dev_out;
	uint32_t listening;      /* number of listen() calls so far */
	struct dev dev_in[MAX_DEV];
	struct dev dev_out[MAX_DEV];
};

enum { /* messages shim -> orchestrator */
	M_HELLO = 1, M_IDLE, M_SPAWN_BEGIN, M_SPAWN_EXEC, M_SPAWN_DONE, M_SPAWN_RET,
	M_OPEN, M_OPENDIR, M_READEND, M_WRITE, M_LIVELOCK, M_STAT, M_EXEC_OTHER
};

struct msg { uint32_t type, len; uint64_t now; uint32_t tid, epoch, conn, pad; uint64_t a, b; };
struct reply { int32_t code; uint32_t len; uint64_t a, b, c, d; };
/* replies:
   IDLE:        a = new simulated time, b = no need to ask again before this time
   SPAWN_BEGIN: a = operation id, b = delay before execution
   SPAWN_EXEC:  code 0 = run with payload (u32 n_env, u32 n_argv, strings; n_argv 0 = original argv)
                code >0 = fail with this errno;   a = delay after execution
   OPEN:        code >0 errno;  a = chunk (0 = all), b = fail offset + 1 (0 = none), c = errno for it, d = EINTR every n reads (0 = none)
   OPENDIR:     code >0 errno;  a = permutation seed (0 = as is), b = fail index + 1, c = errno
   WRITE:       code >0 errno;  a = bytes to write
   STAT:        code >0 errno
*/
#endif

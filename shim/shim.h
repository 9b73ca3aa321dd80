/* Shared-memory protocol between the simulator (Rust) and the shim (C).
 * One region per fork server.  Exactly one side owns the region at a time. */
#ifndef C8SIM_SHIM_H
#define C8SIM_SHIM_H
#include <stdint.h>

#define C8SIM_DATA_MAX (1u << 20)
#define C8SIM_PATH_MAX 4096
#define C8SIM_ARGS_MAX 65536

enum { ST_IDLE = 0, ST_RUN = 1, ST_REQ = 2, ST_EXIT = 3, ST_START = 4, ST_READY = 5 };

struct c8sim_region {
  volatile uint32_t state;       /* futex word */
  uint32_t pid;                  /* child pid (real), for the watchdog only */
  /* request */
  uint32_t op;
  uint32_t path1_len;
  uint32_t path2_len;
  uint32_t data_len;
  int64_t  a[6];
  /* response */
  int64_t  ret;
  int32_t  err;
  int32_t  die;                  /* 1: SIGKILL yourself instead of returning */
  int64_t  r[8];
  /* exit */
  int32_t  wstatus;
  uint32_t alloc_count;          /* allocations made after main started */
  uint32_t alloc_fired;          /* injected allocation failures */
  uint32_t unhandled;            /* calls the simulator refused */
  /* start command */
  uint32_t alloc_fail_at;        /* 0: never; otherwise 1-based ordinal */
  uint32_t alloc_fail_len;       /* how many consecutive allocations fail (0 = 1) */
  uint32_t heap_shift;           /* bytes to leak before main: moves the heap */
  uint32_t argc;
  uint32_t envc;
  uint32_t args_len;
  uint32_t cpu_limit;
  uint32_t stack_kb;
  uint32_t cpus;                 /* processors the process believes it has */
  char     args[C8SIM_ARGS_MAX];
  char     path1[C8SIM_PATH_MAX];
  char     path2[C8SIM_PATH_MAX];
  uint8_t  data[C8SIM_DATA_MAX];
};

enum {
  OP_OPEN = 1, OP_CLOSE, OP_READ, OP_PREAD, OP_WRITE, OP_PWRITE, OP_LSEEK,
  OP_FSTAT, OP_STAT, OP_LSTAT, OP_ACCESS, OP_RENAME, OP_UNLINK, OP_RMDIR,
  OP_MKDIR, OP_LINK, OP_SYMLINK, OP_READLINK, OP_FTRUNCATE, OP_TRUNCATE,
  OP_FSYNC, OP_CHMOD, OP_DUP, OP_GETCWD, OP_CHDIR, OP_GETRANDOM, OP_CLOCK,
  OP_SLEEP, OP_GETPID, OP_GETENV, OP_REALPATH, OP_UID, OP_DUP2, OP_REFUSED,
  OP_OPENDIR, OP_READDIR, OP_HOSTNAME, OP_YIELD, OP_ISATTY, OP_TOUCH, OP_FLOCK,
  OP_UMASK, OP_SCHED
};
#endif

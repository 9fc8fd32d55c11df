// The simulated world around the real interpreter: terminal, disk, clock, random source, allocator, signals, shell.
// Everything the interpreter calls in libc that is a source of nondeterminism or failure comes here instead.
#pragma once
#include <set>
#include "model.h"

// Kinds of injected faults.
enum FaultKind { F_NONE, F_INT, F_INT_READ, F_KILL, F_OPEN_FAIL, F_WRITE_FAIL, F_CLOSE_FAIL, F_READ_FAIL, F_SHORT_READ, F_MALLOC_ONCE, F_MALLOC_ALL, F_STDIN_ERR, F_CLOCK, F_EOF, F_COUNT };
extern const char* const fault_names[F_COUNT];

enum { ONCE = 1000 }; // added to the errno of a write failure: only one write fails, later ones succeed

struct Fault { int kind = F_NONE; long a = 0, b = 0; }; // a: step, byte count, allocation number or seconds; b: errno or variant

struct EnvCfg {
  bool tty = false;
  int chunk = 0;      // 0 whole lines, else at most this many bytes per read
  bool group = false; // several lines may arrive in one read
  int inbuf = 4096, outbuf = 4096;
  int max_open = 16;
  int filebuf = 4096; // buffer of a file stream: what is beyond it reaches the disk before the file is closed
  std::string tz = "UTC";
  int reuse = 0;      // memory released last is given out first
};

enum EndHow { HOW_EXIT, HOW_KILL, HOW_HANG };

struct World {
  // durable
  std::map<std::string, std::string> disk;
  long clock = 0;
  uint64_t life = 0;
  // per life
  EnvCfg env;
  LifeCfg cfg;
  uint64_t steps = 0, op_steps = 0;     // basic blocks executed: the simulated step clock
  uint64_t allocs = 0, op_allocs = 0;
  std::map<void*, size_t> live;         // blocks held by the interpreter
  uint64_t rand_seed = 1, rand_n = 0, sys_n = 0;
  int open_files = 0, max_open_seen = 0;
  Text seen;            // standard output that has become visible since the last look, with marks for system commands
  std::string seen_err; // standard error
  bool trapped = false, ignoring = false, restart = true;
  uint64_t untrap_step = 0;
  // current fault
  Fault fault;
  bool fired = false;
  uint64_t fire_step = 0;
  size_t fire_out = 0;  // output produced (visible or buffered) when it fired
  bool int_eintr = false;
  uint64_t hang_at = 0;
  uint64_t again_at = 0; // step of a second CTRL-C
  uint64_t auto_int = 0; // step of an automatic interrupt in programs of unknown length (0: none)
  bool oom_all = false;
  uint64_t fired_count[F_COUNT] = {};
  uint64_t n_reads = 0, n_system = 0, n_fopen = 0, n_time = 0, n_rand = 0;
  uint64_t file_first = 0, file_last = 0; // steps of operations on files
  bool io_fired = false;

  void arm(const Fault& f);   // start of an operation
  void rearm();
};
extern World W;

// Run the interpreter's main() for one life. on_read supplies standard input; returns how it ended, with exit status.
struct LifeEnd { EndHow how; int status; };
LifeEnd run_life(const std::vector<std::string>& args);
void world_init();   // once per process: remember the interpreter's initial globals
size_t out_produced();
bool world_interrupt(); // CTRL-C now, if the interpreter would catch it

// supplied by the runner
size_t runner_read(char* buf, size_t size); // next bytes of standard input; 0 at end; (size_t)-1 error
[[noreturn]] void runner_crash(const char* what);
[[noreturn]] void runner_violation(const char* verdict, const char* what);

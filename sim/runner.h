// One simulated execution: a scenario (files, lives, operations, faults) run against the real interpreter,
// with the reference model beside it.
#pragma once
#include "world.h"

struct Op {
  int id = 0;
  bool ans = false;      // an answer to INPUT or to a page, otherwise a command line
  std::string text;      // without newline
  long dt = 0;           // the clock moves this many seconds before it arrives
  Fault fault;
  bool loops = false;    // never ends by itself: carries its own interrupt
};

struct Life {
  LifeCfg cfg;
  EnvCfg env;
  Fault start_fault;     // during start up or a batch run
  std::vector<Op> ops;
};

struct Scenario {
  std::string property;
  uint64_t seed = 0;
  bool raw = false;      // arbitrary bytes: no model, only crashes, hangs and exit status
  bool handles = false, leaks = false; // also check for open files at every wait, unreleased memory at the end
  long clock = 0;
  std::map<std::string, std::string> files;
  std::vector<Life> lives;

  std::string save() const;
  bool load(const std::string& text, std::string& error);
};

struct Meas { int life, op; uint64_t steps, allocs; int wait; uint64_t reads, file_first, file_last; /* steps of the first and last operation on a file */ };

struct Result {
  bool finished = false;          // the child wrote its result
  std::string verdict;            // empty: no violation. DIVERGE, CRASH, HANG, EXIT, HANDLE_LEAK, LEAK
  std::string message;
  std::string abandoned;          // comparison given up for this reason
  uint64_t hash = 0;              // of the event log
  uint64_t steps = 0, allocs = 0, reads = 0, systems = 0, opens = 0, times = 0, rands = 0;
  long sim_seconds = 0;
  uint64_t fired[F_COUNT] = {};
  Stats st;
  unsigned max_cands = 1, ops_done = 0, lives_done = 0, waits = 0;
  std::vector<Meas> meas;
  std::vector<uint64_t> states;   // model states at waits
  std::vector<std::string> trace; // what happened, for the replay file
  std::string pack() const;
  void unpack(const std::string&);
};

// Execute in this process (which must be a fresh child); never returns.
[[noreturn]] void execute_child(const Scenario&, int result_fd, bool want_trace);

// Execute in a new child process and collect the result.
Result execute(const Scenario&, bool want_trace = false, double timeout = 20);

std::string esc(const std::string&);
bool unesc(const std::string&, std::string&);

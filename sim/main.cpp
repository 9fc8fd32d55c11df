// Driver: search over seeds, shrinking, replay, evidence.
#include "gen.h"
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <poll.h>
#include <sstream>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <functional>

extern "C" const char* __asan_default_options() { return "exitcode=77:detect_leaks=0:max_malloc_fill_size=1048576:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16:max_allocation_size_mb=2048"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0"; }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec; }

static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }

// ---------------------------------------------------------------- one seed

struct Outcome {
  uint64_t seed = 0;
  Result dry, run;
  bool second = false;       // there was a second execution, with faults
  std::string violating;     // scenario text
};

static Outcome try_seed(const std::string& prop, uint64_t seed, bool thorough, bool want_text = false) {
  Outcome o;
  o.seed = seed;
  Scenario s = generate(prop, seed, thorough);
  // the first execution has no faults apart from interrupts of endless loops; it also measures
  Scenario d = s;
  if (!s.raw) for (auto& l : d.lives) l.env.group = false;
  o.dry = execute(d);
  if (!o.dry.verdict.empty()) { o.violating = d.save(); return o; }
  if (s.raw) { if (want_text) o.violating = d.save(); return o; }
  std::string before = d.save();
  place_faults(s, o.dry, seed);
  if (s.save() == before) { if (want_text) o.violating = before; return o; }
  o.second = true;
  o.run = execute(s);
  if (!o.run.verdict.empty() || want_text) o.violating = s.save();
  return o;
}

// ---------------------------------------------------------------- shrinking

static double shrink_deadline;
static unsigned shrink_tries;

static bool same_failure(const Scenario& s, const std::string& verdict) {
  if (now() > shrink_deadline) return false;
  shrink_tries++;
  Result r = execute(s, false, 10);
  return r.verdict == verdict;
}

static size_t size_of(const Scenario& s) { return s.save().size(); }

static Scenario shrink(Scenario s, const std::string& v) {
  auto attempt = [&](Scenario t) { if (same_failure(t, v)) { s = t; return true; } return false; };
  bool progress = true;
  while (progress && now() < shrink_deadline) {
    size_t before = size_of(s);
    // lives
    for (size_t i = s.lives.size(); i-- > 0 && s.lives.size() > 1; ) { Scenario t = s; t.lives.erase(t.lives.begin() + (long) i); attempt(t); }
    // operations, in ever smaller pieces
    for (size_t li = 0; li < s.lives.size(); li++) {
      for (size_t piece = std::max<size_t>(1, s.lives[li].ops.size() / 2); ; piece /= 2) {
        for (size_t i = 0; i < s.lives[li].ops.size(); ) {
          Scenario t = s;
          auto& ops = t.lives[li].ops;
          ops.erase(ops.begin() + (long) i, ops.begin() + (long) std::min(i + piece, ops.size()));
          if (!attempt(t)) i += piece;
          if (now() > shrink_deadline) return s;
        }
        if (piece <= 1) break;
      }
    }
    // files
    std::vector<std::string> names;
    for (auto& f : s.files) names.push_back(f.first);
    for (auto& n : names) {
      Scenario t = s;
      t.files.erase(n);
      if (attempt(t)) continue;
      // lines of the file
      bool again = true;
      while (again && now() < shrink_deadline) {
        again = false;
        std::vector<std::string> lines;
        std::string cur;
        for (char c : s.files[n]) { cur += c; if (c == '\n') { lines.push_back(cur); cur.clear(); } }
        if (!cur.empty()) lines.push_back(cur);
        for (size_t i = 0; i < lines.size() && lines.size() > 1; i++) {
          std::string x;
          for (size_t k = 0; k < lines.size(); k++) if (k != i) x += lines[k];
          Scenario u = s;
          u.files[n] = x;
          if (attempt(u)) { again = true; break; }
        }
      }
    }
    // faults, clock and environment
    for (size_t li = 0; li < s.lives.size(); li++) {
      auto set = [&](std::function<void(Life&)> f) { Scenario t = s; f(t.lives[li]); if (t.save() != s.save()) attempt(t); };
      set([](Life& l) { l.start_fault = Fault(); });
      set([](Life& l) { l.env.chunk = 0; });
      set([](Life& l) { l.env.group = false; });
      set([](Life& l) { l.env.tty = false; });
      set([](Life& l) { l.env.inbuf = 4096; });
      set([](Life& l) { l.env.outbuf = 4096; });
      set([](Life& l) { l.env.filebuf = 4096; });
      set([](Life& l) { l.env.max_open = 16; });
      set([](Life& l) { l.env.reuse = 0; });
      set([](Life& l) { l.env.tz = "UTC"; });
      set([](Life& l) { l.cfg.quiet = true; });
      set([](Life& l) { l.cfg.trace = false; });
      set([](Life& l) { l.cfg.keywords = false; });
      set([](Life& l) { l.cfg.randomize = false; });
      set([](Life& l) { l.cfg.report_mem = false; });
      set([](Life& l) { l.cfg.mode_run = false; });
      set([](Life& l) { l.cfg.trace_for = false; });
      set([](Life& l) { l.cfg.trace_log = false; });
      set([](Life& l) { l.cfg.rand_mode = 0; });
      set([](Life& l) { l.cfg.sys_mode = 0; });
      set([](Life& l) { l.cfg.sys_delay = 0; });
      for (size_t i = 0; i < s.lives[li].ops.size(); i++) {
        auto op = [&](std::function<void(Op&)> f) { Scenario t = s; f(t.lives[li].ops[i]); if (t.save() != s.save()) return attempt(t); return false; };
        op([](Op& o) { o.fault = Fault(); });
        op([](Op& o) { o.dt = 0; });
        if (s.lives[li].ops[i].fault.kind != F_NONE) for (long part = s.lives[li].ops[i].fault.a / 2; part > 0; part /= 2)
          op([&](Op& o) { if (o.fault.a > part) o.fault.a -= part; });
        // statements
        for (int k = 0; k < 6; k++) {
          std::string text = s.lives[li].ops[i].text;
          size_t c = text.rfind(':');
          if (c == std::string::npos || !op([&](Op& o) { o.text = text.substr(0, c); })) break;
        }
        for (int k = 0; k < 6; k++) {
          std::string text = s.lives[li].ops[i].text;
          size_t c = text.find(':'), b = text.find_first_not_of("0123456789 ");
          if (c == std::string::npos || b == std::string::npos || b > c || !op([&](Op& o) { o.text = text.substr(0, b) + text.substr(c + 1); })) break;
        }
        if (now() > shrink_deadline) return s;
      }
    }
    progress = size_of(s) < before;
  }
  return s;
}

// ---------------------------------------------------------------- replay

static int replay(const std::string& file, bool verbose) {
  Scenario s;
  std::string err, text = slurp(file);
  if (!s.load(text, err)) { printf("cannot read replay file: %s\n", err.c_str()); return 2; }
  std::string want;
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) if (line.compare(0, 7, "expect ") == 0) want = line.substr(7);
  Result r = execute(s, true, 60);
  if (verbose) for (auto& t : r.trace) printf("  %s\n", t.c_str());
  if (!r.abandoned.empty()) printf("abandoned: %s\n", r.abandoned.c_str());
  if (r.verdict.empty()) { printf("no violation, hash %016lx\n", (unsigned long) r.hash); return 0; }
  char h[32];
  snprintf(h, sizeof h, "%016lx", (unsigned long) r.hash);
  std::string got = r.verdict + " " + h;
  printf("%s: %s\n", r.verdict.c_str(), r.message.c_str());
  if (!want.empty()) printf("reproduced %s\n", want == got ? "exactly" : ("with a difference: expected " + want + ", got " + got).c_str());
  printf("VIOLATION property=%s replay=%s\n", s.property.c_str(), file.c_str());
  return 1;
}

// ---------------------------------------------------------------- search

struct Message { char kind; std::string body; };

static void send(int fd, const std::string& s) {
  uint32_t n = (uint32_t) s.size();
  std::string o((char*) &n, 4);
  o += s;
  size_t p = 0;
  while (p < o.size()) { ssize_t k = write(fd, o.data() + p, o.size() - p); if (k <= 0) _exit(1); p += (size_t) k; }
}

static std::string json(const std::string& s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char) c;
  }
  return o + "\"";
}

struct Totals {
  uint64_t seeds = 0, runs = 0, steps = 0, sim_seconds = 0, waits = 0, ops = 0, lives = 0, reads = 0, opens = 0, systems = 0, times = 0, rands = 0, allocs = 0, faulted_runs = 0, abandoned = 0, max_cands = 0;
  uint64_t fired[F_COUNT] = {};
  Stats st;
  std::unordered_set<uint64_t> nontrivial, states;
  std::map<std::string, uint64_t> reasons;
};

static void account(Totals& t, const Result& r) {
  t.runs++;
  t.steps += r.steps; t.sim_seconds += (uint64_t) labs(r.sim_seconds); t.waits += r.waits; t.ops += r.ops_done; t.lives += r.lives_done; t.reads += r.reads; t.opens += r.opens; t.systems += r.systems;
  t.times += r.times; t.rands += r.rands; t.allocs += r.allocs;
  uint64_t f = 0;
  for (int i = 0; i < F_COUNT; i++) { t.fired[i] += r.fired[i]; f += r.fired[i]; }
  if (f) t.faulted_runs++;
  if (!r.abandoned.empty()) { t.abandoned++; t.reasons[r.abandoned]++; }
  if (r.max_cands > t.max_cands) t.max_cands = r.max_cands;
  if (r.abandoned.empty() && r.waits >= 3 && (f || r.st.run || r.st.imm || r.st.edit || r.st.load || !r.states.empty())) t.nontrivial.insert(r.hash);
  for (uint64_t s : r.states) if (t.states.size() < 4000000) t.states.insert(s);
  const unsigned* a = (const unsigned*) &r.st; unsigned* b = (unsigned*) &t.st;
  for (size_t i = 0; i < sizeof(Stats) / sizeof(unsigned); i++) b[i] += a[i];
}

int main(int argc, char** argv) {
  // fixed addresses, so that an execution repeats exactly
  int pers = personality(0xffffffff);
  if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("LBSIM_ASLR")) {
    setenv("LBSIM_ASLR", "tried", 1);
    if (personality((unsigned long) pers | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  std::vector<std::string> a(argv + 1, argv + argc);
  if (a.size() >= 2 && a[0] == "replay") return replay(a[1], a.size() > 2);
  if (a.size() >= 2 && a[0] == "shrink") {
    Scenario s; std::string e;
    if (!s.load(slurp(a[1]), e)) { printf("cannot read: %s\n", e.c_str()); return 2; }
    Result r = execute(s, false, 40);
    if (r.verdict.empty()) { printf("no violation\n"); return 0; }
    shrink_deadline = now() + 60;
    s = shrink(s, r.verdict);
    r = execute(s, true, 40);
    printf("%s# %s %s\n", s.save().c_str(), r.verdict.c_str(), show(r.message, 2000).c_str());
    for (auto& t : r.trace) printf("# %s\n", show(t, 2000).c_str());
    return 1;
  }
  if (a.size() >= 3 && a[0] == "gen") {
    Outcome o = try_seed(a[1], strtoull(a[2].c_str(), NULL, 10), false, true);
    printf("%s# dry: %s %s; run: %s %s\n", o.violating.c_str(), o.dry.verdict.c_str(), o.dry.abandoned.c_str(), o.run.verdict.c_str(), o.run.abandoned.c_str());
    return 0;
  }
  if (a.size() >= 4 && a[0] == "hashes") { // lbsim hashes PROPERTY FIRST COUNT: for checking that executions repeat
    uint64_t first = strtoull(a[2].c_str(), NULL, 10), n = strtoull(a[3].c_str(), NULL, 10);
    for (uint64_t i = 0; i < n; i++) { Outcome o = try_seed(a[1], first + i, false); printf("%lu %016lx %016lx %s\n", (unsigned long) (first + i), (unsigned long) o.dry.hash, (unsigned long) o.run.hash, (o.dry.verdict + o.run.verdict).c_str()); }
    return 0;
  }
  if (a.size() < 2 || a[0] != "check" || !known_property(a[1])) { fprintf(stderr, "usage: lbsim check PROPERTY [tier=quick] [seed=1] [time=25] [jobs=8] [runs=N] [evidence=FILE] [replays=DIR] [known=FILE]\n       lbsim replay FILE [v]\n"); return 2; }
  std::string prop = a[1], tier = "quick", evidence, replays = ".", known, level = "exploration";
  uint64_t seed = 1, max_runs = ~0ull;
  double limit = 25;
  int jobs = 8;
  bool keep_going = false;
  for (size_t i = 2; i < a.size(); i++) {
    size_t e = a[i].find('=');
    std::string k = a[i].substr(0, e), v = e == std::string::npos ? "" : a[i].substr(e + 1);
    if (k == "tier") tier = v; else if (k == "seed") seed = strtoull(v.c_str(), NULL, 10); else if (k == "time") limit = atof(v.c_str()); else if (k == "jobs") jobs = atoi(v.c_str());
    else if (k == "runs") max_runs = strtoull(v.c_str(), NULL, 10); else if (k == "evidence") evidence = v; else if (k == "replays") replays = v; else if (k == "known") known = v; else if (k == "all") keep_going = true;
  }
  double t0 = now();
  bool thorough = tier == "thorough";

  std::vector<std::string> known_match;
  if (!known.empty()) {
    std::ifstream f(known);
    std::string line;
    while (std::getline(f, line)) {
      std::string key = "known: property=" + prop + " match=";
      if (line.compare(0, key.size(), key) == 0) {
        size_t bar = line.find(" | ", key.size());
        known_match.push_back(line.substr(key.size(), bar == std::string::npos ? bar : bar - key.size()));
        printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), bar == std::string::npos ? known_match.back().c_str() : line.substr(bar + 3).c_str());
      }
    }
  }

  std::vector<pid_t> pids;
  std::vector<struct pollfd> fds;
  std::vector<std::string> buf;
  for (int j = 0; j < jobs; j++) {
    int p[2];
    if (pipe(p) != 0) return 2;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]);
      for (auto& f : fds) close(f.fd);
      for (uint64_t i = (uint64_t) j; i < max_runs && now() - t0 < limit; i += (uint64_t) jobs) {
        uint64_t s = seed * 1000003 + i;
        Outcome o = try_seed(prop, s, thorough, i < 40);
        bool bad = !o.dry.verdict.empty() || !o.run.verdict.empty();
        std::string m;
        auto put = [&](const std::string& x) { uint64_t n = x.size(); m.append((char*) &n, 8); m += x; };
        m.append((char*) &s, 8);
        m += bad ? 'V' : 'R';
        m += o.second ? '2' : '1';
        o.dry.trace.clear(); o.run.trace.clear();
        o.dry.meas.clear(); o.run.meas.clear();
        put(o.dry.pack());
        put(o.second ? o.run.pack() : "");
        put(o.violating);
        send(p[1], m);
      }
      _exit(0);
    }
    close(p[1]);
    pids.push_back(pid);
    fds.push_back({ p[0], POLLIN, 0 });
    buf.push_back("");
  }

  Totals tot;
  std::string bad_scenario, bad_verdict, bad_message;
  uint64_t bad_seed = 0;
  std::vector<std::string> samples;
  size_t open_fds = fds.size();
  unsigned n_bad = 0;
  std::map<std::string, int> irreproducible;
  while (open_fds > 0 && (bad_scenario.empty() || keep_going)) {
    int k = poll(fds.data(), fds.size(), 1000);
    if (k < 0) break;
    for (size_t i = 0; i < fds.size(); i++) {
      if (fds[i].fd < 0 || !(fds[i].revents & (POLLIN | POLLHUP))) continue;
      char b[65536];
      ssize_t n = read(fds[i].fd, b, sizeof b);
      if (n <= 0) { close(fds[i].fd); fds[i].fd = -1; open_fds--; continue; }
      buf[i].append(b, (size_t) n);
      for (;;) {
        if (buf[i].size() < 4) break;
        uint32_t len;
        memcpy(&len, buf[i].data(), 4);
        if (buf[i].size() < 4 + len) break;
        std::string m = buf[i].substr(4, len);
        buf[i].erase(0, 4 + len);
        uint64_t s;
        memcpy(&s, m.data(), 8);
        bool bad = m[8] == 'V', second = m[9] == '2';
        size_t p = 10;
        auto get = [&]() { uint64_t l; memcpy(&l, &m[p], 8); p += 8; std::string x = m.substr(p, l); p += l; return x; };
        Result dry, run;
        dry.unpack(get());
        std::string r2 = get();
        if (second) run.unpack(r2);
        std::string text = get();
        tot.seeds++;
        account(tot, dry);
        if (second) account(tot, run);
        const Result& r = dry.verdict.empty() ? run : dry;
        if (bad) {
          bool skip = false;
          for (auto& km : known_match) if (r.message.find(km) != std::string::npos) skip = true;
          if (skip) continue;
          n_bad++;
          if (keep_going) { printf("seed %lu %s %s\n", (unsigned long) s, r.verdict.c_str(), r.message.substr(0, 1500).c_str()); continue; }
          // it must repeat
          Scenario sc; std::string e;
          if (!sc.load(text, e)) { fprintf(stderr, "the scenario cannot be read back: %s\n", e.c_str()); return 3; }
          Result again = execute(sc, false, 40), third = execute(sc, false, 40);
          if (again.verdict != r.verdict || again.hash != third.hash) { irreproducible[r.verdict + " seed " + std::to_string(s)]++; continue; }
          if (bad_scenario.empty()) { bad_scenario = text; bad_verdict = r.verdict; bad_message = r.message; bad_seed = s; }
        }
        else if (samples.size() < 3 && !text.empty() && text.size() < 4000 && (second ? run : dry).abandoned.empty()) samples.push_back(text);
      }
    }
  }
  double searched = now() - t0;
  int lost = 0;
  for (auto pid : pids) {
    int ws = 0;
    if (!bad_scenario.empty()) kill(pid, SIGKILL);
    waitpid(pid, &ws, 0);
    if (bad_scenario.empty() && ws != 0) lost++;
  }
  if (lost) fprintf(stderr, "%d of %d workers failed\n", lost, jobs);

  std::string replay_file;
  if (!bad_scenario.empty()) {
    Scenario s; std::string e;
    s.load(bad_scenario, e);
    shrink_deadline = now() + (thorough ? 90 : 25);
    Scenario small = shrink(s, bad_verdict);
    Result r = execute(small, true, 40), r2 = execute(small, true, 40);
    if (r.verdict != bad_verdict || r.hash != r2.hash) { small = s; r = execute(small, true, 40); }
    replay_file = replays + "/" + prop + "-" + std::to_string(bad_seed) + ".replay";
    std::ofstream f(replay_file);
    char h[32];
    snprintf(h, sizeof h, "%016lx", (unsigned long) r.hash);
    f << "# violation of " << prop << ", seed " << bad_seed << ", minimised in " << shrink_tries << " executions\n";
    std::istringstream msg(r.message);
    std::string line;
    while (std::getline(msg, line)) f << "# " << line << "\n";
    f << "expect " << r.verdict << " " << h << "\n" << small.save() << "# trace\n";
    for (auto& t : r.trace) { std::istringstream in(t); while (std::getline(in, line)) f << "#   " << line << "\n"; }
    f.close();
    printf("%s: %s\n", r.verdict.c_str(), r.message.c_str());
  }
  for (auto& x : irreproducible) printf("note: a violation that did not repeat was discarded: %s\n", x.first.c_str());

  if (!evidence.empty()) {
    std::ofstream f(evidence);
    f << "{\n \"property\": " << json(prop) << ",\n \"tier\": " << json(tier) << ",\n \"seed\": " << seed << ",\n \"level\": " << json(level) << ",\n \"wall_s\": " << now() - t0 << ",\n \"violations\": " << (bad_scenario.empty() ? 0 : 1) << ",\n";
    f << " \"coverage\": {\n";
    f << "  \"evaluations\": " << tot.runs << ",\n  \"distinct_nontrivial\": " << tot.nontrivial.size() << ",\n";
    f << "  \"rule\": " << json("A case is one simulated execution of the whole interpreter generated from a seed by the profile of this property: a history of commands, program lines, answers, files and lives, an environment (terminal or pipe, read sizes, buffer sizes, time zone, clock, random source, shell results) and, in the second execution of a seed, faults placed at steps, bytes or allocations measured in the first. Non-trivial: not abandoned, at least three waits of the interpreter compared, and at least one edit, file operation or run of code. Distinct: the hash of the complete event log (every wait with its step count, all output, every fault, the final disk) differs from every other.") << ",\n";
    f << "  \"seeds\": " << tot.seeds << ",\n  \"runs_per_hour\": " << (uint64_t)((double) tot.runs / searched * 3600) << ",\n  \"seeds_per_hour\": " << (uint64_t)((double) tot.seeds / searched * 3600) << ",\n";
    f << "  \"simulated_basic_blocks\": " << tot.steps << ",\n  \"simulated_clock_seconds_moved\": " << tot.sim_seconds << ",\n  \"lives\": " << tot.lives << ",\n  \"operations_delivered\": " << tot.ops << ",\n  \"waits_compared\": " << tot.waits << ",\n";
    f << "  \"distinct_states\": " << tot.states.size() << ",\n  \"state_measure\": \"hash of the reference model's complete session state (program, variables, control stacks, positions, stopped state) and the kind of fault that fired, at each wait\",\n";
    f << "  \"runs_with_faults\": " << tot.faulted_runs << ",\n  \"faults_fired\": {";
    bool first = true;
    for (int i = 1; i < F_COUNT; i++) { f << (first ? "" : ", ") << json(fault_names[i]) << ": " << tot.fired[i]; first = false; }
    f << "},\n  \"environment_calls\": {\"reads_of_standard_input\": " << tot.reads << ", \"file_opens\": " << tot.opens << ", \"system_commands\": " << tot.systems << ", \"clock_reads\": " << tot.times << ", \"random_numbers\": " << tot.rands << ", \"allocations\": " << tot.allocs << "},\n";
    f << "  \"behaviours\": {\"program_runs\": " << tot.st.run << ", \"immediate_runs\": " << tot.st.imm << ", \"run_time_errors\": " << tot.st.rterr << ", \"syntax_errors\": " << tot.st.synerr << ", \"stops\": " << tot.st.stop << ", \"breaks\": " << tot.st.brk
      << ", \"conts\": " << tot.st.cont << ", \"saves\": " << tot.st.save << ", \"loads\": " << tot.st.load << ", \"inputs\": " << tot.st.input << ", \"repeated_inputs\": " << tot.st.redo << ", \"overlong_lines\": " << tot.st.toolong << ", \"edits\": " << tot.st.edit << ", \"renums\": " << tot.st.renum
      << ", \"refusals\": " << tot.st.refused << ", \"listings\": " << tot.st.listed << ", \"function_calls\": " << tot.st.fncall << ", \"gosubs\": " << tot.st.gosub << ", \"loop_steps\": " << tot.st.loops << ", \"data_items_read\": " << tot.st.data << ", \"statements\": " << tot.st.atoms << "},\n";
    f << "  \"workers\": " << jobs << ", \"workers_lost\": " << lost << ",\n";
    f << "  \"candidate_states_max\": " << tot.max_cands << ",\n  \"abandoned\": {";
    first = true;
    for (auto& x : tot.reasons) { f << (first ? "" : ", ") << json(x.first) << ": " << x.second; first = false; }
    f << "},\n  \"real_components\": \"all of System, Monitor, Basic and Shared, compiled from the working tree with address and undefined-behaviour sanitizers and basic-block callbacks, and the C library's formatted I/O and buffering\",\n";
    f << "  \"simulated_components\": \"terminal or pipe, files and disk, SIGINT, clock and time zone, rand/srand, system(), the allocator's failures, process exit and death\",\n";
    f << "  \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) f << (i ? ",\n   " : "\n   ") << json(samples[i]);
    f << "\n  ]\n },\n \"assumptions\": [\"the reference model states the language and command rules correctly\", \"interrupts are delivered between basic blocks of the interpreter, not inside the C library\", \"files are atomic key-value objects of one directory\"]\n}\n";
  }
  printf("%s: %lu seeds, %lu executions, %lu distinct, %lu states, %lu with faults, %lu abandoned, %.1f s\n", prop.c_str(), (unsigned long) tot.seeds, (unsigned long) tot.runs, (unsigned long) tot.nontrivial.size(), (unsigned long) tot.states.size(), (unsigned long) tot.faulted_runs, (unsigned long) tot.abandoned, now() - t0);
  if (keep_going) { printf("%u violations\n", n_bad); return n_bad != 0; }
  if (tot.runs == 0 && bad_scenario.empty()) { fprintf(stderr, "nothing was executed\n"); return 3; }
  if (!bad_scenario.empty()) {
    printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay_file.c_str());
    return 1;
  }
  return 0;
}

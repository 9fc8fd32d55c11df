#include "runner.h"
#include "parser.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <poll.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

// ---------------------------------------------------------------- text form of a scenario

std::string esc(const std::string& s) {
  std::string o;
  char b[8];
  for (unsigned char c : s) {
    if (c == '\\') o += "\\\\";
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    else o += (char) c;
  }
  return o;
}

bool unesc(const std::string& s, std::string& o) {
  o.clear();
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\\') { o += s[i]; continue; }
    if (++i >= s.size()) return false;
    if (s[i] == '\\') o += '\\';
    else if (s[i] == 'n') o += '\n';
    else if (s[i] == 'x' && i + 2 < s.size()) { o += (char) strtol(s.substr(i + 1, 2).c_str(), NULL, 16); i += 2; }
    else return false;
  }
  return true;
}

static std::string fault_text(const Fault& f) {
  return std::string(fault_names[f.kind]) + ":" + std::to_string(f.a) + ":" + std::to_string(f.b);
}

static bool fault_parse(const std::string& s, Fault& f) {
  size_t a = s.find(':'), b = s.find(':', a == std::string::npos ? a : a + 1);
  if (a == std::string::npos || b == std::string::npos) return false;
  for (int k = 0; k < F_COUNT; k++) if (s.substr(0, a) == fault_names[k]) {
    f.kind = k; f.a = atol(s.c_str() + a + 1); f.b = atol(s.c_str() + b + 1);
    return true;
  }
  return false;
}

std::string Scenario::save() const {
  std::ostringstream o;
  o << "property " << property << "\nseed " << seed << "\nflags " << raw << " " << handles << " " << leaks << "\nclock " << clock << "\n";
  for (auto& f : files) o << "file " << esc(f.first) << "\ndata " << esc(f.second) << "\n";
  for (auto& l : lives) {
    o << "life " << l.cfg.quiet << " " << l.cfg.trace << " " << l.cfg.keywords << " " << l.cfg.randomize << " " << l.cfg.report_mem << " " << l.cfg.mode_run
      << " " << l.cfg.batch << " " << l.cfg.env_seed << " " << l.cfg.rand_mode << " " << l.cfg.sys_mode << " " << l.cfg.sys_delay
      << " " << l.env.tty << " " << l.env.chunk << " " << l.env.group << " " << l.env.inbuf << " " << l.env.outbuf << " " << l.env.max_open
      << " " << l.env.filebuf << " " << l.env.tz << " " << l.env.reuse << " " << fault_text(l.start_fault) << "\n";
    if (l.cfg.trace_for || l.cfg.trace_log || l.cfg.mode) o << "options " << l.cfg.trace_for << " " << l.cfg.trace_log << " " << l.cfg.mode << "\n";
    if (l.cfg.batch) o << "program " << esc(l.cfg.file) << "\n";
    for (auto& p : l.ops) o << (p.ans ? "ans " : "cmd ") << p.id << " " << p.dt << " " << p.loops << " " << fault_text(p.fault) << " |" << esc(p.text) << "\n";
  }
  return o.str();
}

bool Scenario::load(const std::string& text, std::string& error) {
  std::istringstream in(text);
  std::string line, file;
  *this = Scenario();
  int n = 0;
  while (std::getline(in, line)) {
    n++;
    if (line.empty() || line[0] == '#') continue;
    size_t sp = line.find(' ');
    std::string key = line.substr(0, sp), rest = sp == std::string::npos ? "" : line.substr(sp + 1);
    bool ok = true;
    std::istringstream r(rest);
    if (key == "property") property = rest;
    else if (key == "seed") r >> seed;
    else if (key == "flags") r >> raw >> handles >> leaks;
    else if (key == "clock") r >> clock;
    else if (key == "file") ok = unesc(rest, file);
    else if (key == "data") ok = unesc(rest, files[file]);
    else if (key == "life") {
      Life l;
      std::string f;
      r >> l.cfg.quiet >> l.cfg.trace >> l.cfg.keywords >> l.cfg.randomize >> l.cfg.report_mem >> l.cfg.mode_run >> l.cfg.batch >> l.cfg.env_seed
        >> l.cfg.rand_mode >> l.cfg.sys_mode >> l.cfg.sys_delay >> l.env.tty >> l.env.chunk >> l.env.group >> l.env.inbuf >> l.env.outbuf >> l.env.max_open >> l.env.filebuf >> l.env.tz >> l.env.reuse >> f;
      ok = !r.fail() && fault_parse(f, l.start_fault);
      lives.push_back(l);
    }
    else if (key == "options") { ok = !lives.empty(); if (ok) r >> lives.back().cfg.trace_for >> lives.back().cfg.trace_log >> lives.back().cfg.mode; }
    else if (key == "program") ok = !lives.empty() && unesc(rest, lives.back().cfg.file);
    else if (key == "cmd" || key == "ans") {
      Op p;
      std::string f;
      r >> p.id >> p.dt >> p.loops >> f;
      p.ans = key == "ans";
      size_t bar = rest.find('|');
      ok = !r.fail() && !lives.empty() && bar != std::string::npos && fault_parse(f, p.fault) && unesc(rest.substr(bar + 1), p.text);
      if (ok) lives.back().ops.push_back(p);
    }
    else if (key == "expect") ;
    else ok = false;
    if (!ok) { error = "line " + std::to_string(n) + ": " + line; return false; }
  }
  return true;
}

// ---------------------------------------------------------------- results

static void put(std::string& o, const std::string& s) { uint64_t n = s.size(); o.append((char*) &n, 8); o += s; }
static void putn(std::string& o, uint64_t v) { o.append((char*) &v, 8); }
struct In { const std::string& s; size_t p = 0;
  uint64_t n() { uint64_t v = 0; if (p + 8 <= s.size()) memcpy(&v, &s[p], 8); p += 8; return v; }
  std::string t() { size_t k = n(); if (p + k > s.size()) return ""; std::string r = s.substr(p, k); p += k; return r; } };

std::string Result::pack() const {
  std::string o;
  put(o, verdict); put(o, message); put(o, abandoned);
  for (uint64_t v : { hash, steps, allocs, reads, systems, opens, times, rands, (uint64_t) sim_seconds }) putn(o, v);
  for (uint64_t v : fired) putn(o, v);
  o.append((char*) &st, sizeof st);
  putn(o, max_cands); putn(o, ops_done); putn(o, lives_done); putn(o, waits);
  putn(o, meas.size());
  for (auto& m : meas) { putn(o, (uint64_t) m.life); putn(o, (uint64_t) m.op); putn(o, m.steps); putn(o, m.allocs); putn(o, (uint64_t) m.wait); putn(o, m.reads); putn(o, m.file_first); putn(o, m.file_last); }
  putn(o, states.size());
  for (uint64_t s : states) putn(o, s);
  putn(o, trace.size());
  for (auto& t : trace) put(o, t);
  return o;
}

void Result::unpack(const std::string& s) {
  In i{ s };
  verdict = i.t(); message = i.t(); abandoned = i.t();
  hash = i.n(); steps = i.n(); allocs = i.n(); reads = i.n(); systems = i.n(); opens = i.n(); times = i.n(); rands = i.n(); sim_seconds = (long) i.n();
  for (auto& v : fired) v = i.n();
  memcpy(&st, &s[i.p], sizeof st); i.p += sizeof st;
  max_cands = (unsigned) i.n(); ops_done = (unsigned) i.n(); lives_done = (unsigned) i.n(); waits = (unsigned) i.n();
  for (size_t k = i.n(); k > 0; k--) { Meas m; m.life = (int) i.n(); m.op = (int) i.n(); m.steps = i.n(); m.allocs = i.n(); m.wait = (int) i.n(); m.reads = i.n(); m.file_first = i.n(); m.file_last = i.n(); meas.push_back(m); }
  for (size_t k = i.n(); k > 0; k--) states.push_back(i.n());
  for (size_t k = i.n(); k > 0; k--) trace.push_back(i.t());
  finished = true;
}

// ---------------------------------------------------------------- the execution

struct Cand { Model m; bool latched = false; };

static const Scenario* sc;
static size_t life_no, op_no;
static std::vector<Cand> cands;
static std::string queue;           // bytes typed but not yet read
static bool end_of_input;
static bool int_done;               // the interrupt that fired in this operation is accounted for
static const Op* current;           // operation in progress (NULL: start up)
static bool meas_open; static uint64_t meas_steps, meas_allocs, meas_reads;
static unsigned default_answers, reads_after_end;
static Result res;
static Hash log_hash;
static volatile int* simulating;    // shared with the parent: set while the simulator's own code runs, not the interpreter
static int out_fd;
static bool tracing;
static std::string why;             // reason for the latest rejected candidate
static Stats stats_before;

static const uint64_t CAP = 1500000;
static uint64_t work;               // how much the model was asked to do: a budget that does not depend on the clock
static const uint64_t MAX_WORK = 400000;

static void event(const std::string& s) {
  log_hash.str(s);
  if (tracing) res.trace.push_back(s);
}

static std::set<std::string> stray; // temporary files that a death in the middle of SAVE may have left behind

static std::string disk_diff(const std::map<std::string, std::string>& want, const std::map<std::string, std::string>& got) {
  for (auto& f : want) {
    auto g = got.find(f.first);
    if (g == got.end()) return "file \"" + show(f.first) + "\" is missing, expected " + show(f.second, 300);
    if (g->second != f.second) return "file \"" + show(f.first) + "\" contains [" + show(g->second, 600) + "], expected [" + show(f.second, 600) + "]";
  }
  for (auto& g : got) if (!want.count(g.first) && !stray.count(g.first)) return "unexpected file \"" + show(g.first) + "\"";
  return "";
}

static void finish_meas() {
  if (!meas_open) return;
  meas_open = false;
  Meas m;
  m.life = (int) life_no; m.op = current ? current->id : 0;
  m.steps = W.steps - meas_steps; m.allocs = W.allocs - meas_allocs; m.reads = W.n_reads - meas_reads;
  m.file_first = W.file_first ? W.file_first - meas_steps : 0; m.file_last = W.file_first ? W.file_last - meas_steps : 0;
  m.wait = sc->raw || cands.empty() ? 0 : cands[0].m.wait;
  res.meas.push_back(m);
}

[[noreturn]] static void send_result() {
  res.hash = log_hash.h;
  res.steps = W.steps; res.allocs = W.allocs; res.reads = W.n_reads; res.systems = W.n_system; res.opens = W.n_fopen; res.times = W.n_time; res.rands = W.n_rand;
  res.sim_seconds = W.clock - sc->clock;
  for (int i = 0; i < F_COUNT; i++) res.fired[i] = W.fired_count[i];
  if (!cands.empty()) res.st = cands[0].m.st;
  std::string o = res.pack();
  uint64_t n = o.size();
  std::string all((char*) &n, 8);
  all += o;
  size_t p = 0;
  while (p < all.size()) {
    ssize_t k = write(out_fd, all.data() + p, all.size() - p);
    if (k <= 0) break;
    p += (size_t) k;
  }
  _exit(0);
}

static std::string where() {
  std::string s = "life " + std::to_string(life_no + 1);
  if (current) s += std::string(", after ") + (current->ans ? "answer" : "command") + " #" + std::to_string(current->id) + " [" + show(current->text, 300) + "]";
  else s += ", at start";
  if (W.fired) s += ", " + std::string(fault_names[W.fault.kind]) + " at step " + std::to_string(W.fire_step - W.op_steps) + " of it";
  return s;
}

[[noreturn]] static void violation(const std::string& verdict, const std::string& message) {
  res.verdict = verdict;
  res.message = where() + ": " + message;
  event("VIOLATION " + verdict + " " + message);
  send_result();
}

[[noreturn]] static void abandon(const std::string& reason) {
  res.abandoned = reason;
  event("ABANDON " + reason);
  send_result();
}

[[noreturn]] void runner_crash(const char* what) { violation("CRASH", what); }
[[noreturn]] void runner_violation(const char* verdict, const char* what) { violation(verdict, what); }

// Does what was seen fit this candidate? If so, take it as consumed.
static bool fits(Cand& c, bool exiting, int status) {
  Model& m = c.m;
  if (m.giveup) abandon("model gave up");
  if (exiting) {
    if (m.wait != EXITED) { why = "the interpreter ended the session with status " + std::to_string(status) + ", expected to wait for " + wait_name(m.wait); return false; }
  }
  else if (m.wait == EXITED) { why = "the interpreter waits for more input, expected the session to end"; return false; }
  size_t low = exiting ? m.out.size() : std::min(m.flushed, m.out.size());
  size_t k = m.out.size();
  bool ok = false;
  for (;; k--) {
    if (matches(k == m.out.size() ? m.out : m.out.substr(0, k), W.seen)) { ok = true; break; }
    if (k == low) break;
  }
  if (!ok) {
    size_t i = 0;
    while (i < m.out.size() && i < W.seen.size() && m.out[i] == W.seen[i]) i++;
    size_t from = i > 200 ? i - 200 : 0;
    why = "output is [" + std::string(from ? "..." : "") + show(W.seen.substr(from), 900) + "], expected [" + (from ? "..." : "") + show(m.out.substr(std::min(from, m.out.size())), 900) + "]";
    return false;
  }
  Text e = text_of(W.seen_err);
  if (m.cfg.trace_log && (m.err.empty() || m.err[0] != W_ANY)) m.err.insert(m.err.begin(), W_ANY); // from before the last wait
  if (!matches(m.err, e)) { why = "error output is [" + show(e, 900) + "], expected [" + show(m.err, 900) + "]"; return false; }
  for (auto& t : m.tainted) {
    auto f = W.disk.find(t.first);
    if (f == W.disk.end()) m.disk.erase(t.first); else m.disk[t.first] = f->second;
  }
  m.tainted.clear();
  if (m.disk != W.disk && !(why = disk_diff(m.disk, W.disk)).empty()) return false;
  if (exiting && m.exit_status != status) { why = "exit status is " + std::to_string(status) + ", expected " + std::to_string(m.exit_status); return false; }
  m.out.erase(0, k);
  m.err.clear();
  m.flushed = 0;
  return true;
}

static void put_cand(std::vector<Cand>& to, Cand&& c, size_t most = 3000) {
  if (to.size() > most) abandon("too many candidate states");
  to.push_back(std::move(c));
}

// Carry on to the next wait; honour a pending interrupt at the first boundary.
static uint64_t last_wait_steps = 0;

// No more atoms than this can have been executed since the last wait: each takes the interpreter several basic blocks.
static uint64_t most_atoms() { return (W.steps - std::min(W.steps, std::min(last_wait_steps, W.op_steps))) / 3 + 200; }

static bool run_on(Cand& c) {
  Model& m = c.m;
  if (c.latched) {
    while (m.wait != RUNNING) {
      if (m.giveup) return true;
      if (m.idle()) {
        if (m.wait == WAIT_CMD || m.wait == EXITED) c.latched = false; // ended in an error
        return true;
      }
      if (m.wait == WAIT_CMD || m.wait == EXITED) { c.latched = false; break; }
    }
    if (c.latched) {
      c.latched = false;
      if (m.listing) m.break_list(); else m.do_break();
    }
  }
  return m.pump(std::min(CAP, most_atoms()));
}

static bool has_wild(const Text& t) { for (auto c : t) if (c >= 0x200) return true; return false; }

// An interrupt fired somewhere since the last wait, when L characters had been produced: every boundary it can have
// taken effect at gives a candidate.
static void explore(const Cand& c, std::vector<Cand>& to, bool exiting, int status) {
  why = "no point at which the interrupt can have taken effect";
  size_t L = W.fire_out;
  Model x = c.m;
  std::set<uint64_t> seen_states;
  // where the expected text ends in the text seen; unknown (wild) after wildcards of unknown extent
  bool wild = false, differs = false;
  size_t pi = 0, pj = 0;
  auto place = [&]() {
    if (x.out.size() < pi) wild = true;
    for (; !wild && !differs && pi < x.out.size(); pi++) {
      char16_t ch = x.out[pi];
      if (ch == W_ANY || ch == W_SOME) wild = true;
      else if (ch == W_SOMENL) while (pj < W.seen.size() && W.seen[pj] < 256 && W.seen[pj] != '\n') pj++;
      else if (pj < W.seen.size() && W.seen[pj] != ch) differs = true;
      else pj++;
    }
    return wild ? x.out.size() : pj;
  };
  size_t prev = place();
  uint64_t atoms = 0;
  uint64_t most = most_atoms();
  std::set<std::pair<uint64_t, size_t>> loop_states;
  auto add_cand = [&](Model&& y, bool latched) {
    Cand n;
    n.m = std::move(y);
    n.latched = latched;
    work += 1 + n.m.out.size() / 400;
    if (work > MAX_WORK) abandon("too much to explore");
    if (!latched && !n.m.pump(CAP)) abandon("model ran too long after an interrupt");
    if (n.m.giveup) abandon("model gave up");
    Hash h;
    h.u64(n.m.hash());
    h.text(n.m.out);
    h.u64(latched);
    if (seen_states.insert(h.h).second && fits(n, exiting, status)) put_cand(to, std::move(n));
  };
  for (;;) {
    if (x.giveup) abandon("model gave up");
    if (x.to_load) { x.step(); continue; }
    if (x.wait == RUNNING) {
      size_t b = place();
      if (differs) {
        why = "no point at which the interrupt can have taken effect: output is [" + show(W.seen, 900) + "], expected [" + show(x.out, 900) + "...";
        break;
      }
      bool allowed = wild || (prev <= L && L <= b);
      if (allowed) {
        Model y = x;
        if (y.listing) y.break_list(); else y.do_break();
        add_cand(std::move(y), false);
        if (!x.listing && x.next_is_stop() && (wild || L == b)) {
          Model z = x;
          z.do_break(true);
          add_cand(std::move(z), false);
        }
      }
      bool pad = !x.listing && x.next_is_pad();
      if (pad && (wild || L >= b)) {
        // SPC or TAB may stop padding early
        Model full = x;
        full.step();
        size_t total = full.out.size() - x.out.size();
        if (full.giveup) { total = 1u << 30; full.giveup = false; } // very many
        if (full.wait == RUNNING && (wild || L <= b + total)) {
          // with text of unknown length before, the spaces there are tell
          size_t sp = 0, own = 0;
          while (sp < L && sp < W.seen.size() && W.seen[L - 1 - sp] == ' ') sp++;
          while (own < x.out.size() && x.out[x.out.size() - 1 - own] == ' ') own++;
          for (long d = -2; d <= 4; d++) {
            long k = (wild ? (long) sp - (long) own : (long) (L - b)) + d;
            if (k < 0 || k >= (long) total) continue;
            Model z = x;
            z.pad_limit = (int) k;
            z.step();
            if (z.wait == RUNNING) { z.do_break(); add_cand(std::move(z), false); }
          }
          // a new line first in TAB
          if (total > 0 && full.out[x.out.size()] == '\n') for (long d = -3; d <= 4; d++) {
            long k = (wild ? (long) sp : (long) (L - b) - 1) + d;
            if (k < 0 || k >= (long) total) continue;
            Model z = x;
            z.pad_limit = (int) k;
            z.step();
            if (z.wait == RUNNING) { z.do_break(); add_cand(std::move(z), false); }
          }
        }
      }
      if (!wild && b > L) break; // it must have taken effect by now
      if (b > W.seen.size()) break; // already more than was seen
      if (++atoms > most) break;
      if (atoms > 300000) abandon("too far to explore");
      if (atoms % 64 == 0 && !loop_states.insert({ x.hash(), x.out.size() }).second) break; // round in a circle
      prev = b;
      x.step();
      if (x.giveup && pad) break; // it would have printed more than was seen
    }
    else {
      bool was_running = x.wait != WAIT_CMD;
      if (x.wait == WAIT_INPUT || x.wait == WAIT_INPUT_DISCARD || x.wait == WAIT_PAGE || x.wait == WAIT_CMD || x.wait == EXITED || x.wait == WAIT_CMD_DISCARD) {
        bool over = x.end_kind == END_ERROR || x.end_kind == END_NOTRUN || x.end_kind == END_LIST || x.end_kind == END_NONE;
        if (x.wait == WAIT_CMD || x.wait == EXITED) {
          size_t had = x.inbuf.size();
          bool more = x.wait == EXITED || x.idle();
          if (more) {
            // finished before the interrupt could take effect
            uint64_t late = W.untrap_step >= W.fire_step ? W.untrap_step - W.fire_step : 0;
            if (over || late <= 3000) add_cand(Model(x), false);
            break;
          }
          (void) had;
          prev = place();
          continue;
        }
        if (x.idle()) {
          // waiting: it takes effect when the input is complete
          if (wild || L >= prev) add_cand(Model(x), true);
          break;
        }
        (void) was_running;
        prev = std::min(prev, place());
      }
    }
  }
}

static std::string save_target(const Op* op) {
  if (!op || op->ans) return "";
  size_t i = 0;
  const std::string& s = op->text;
  while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) i++;
  if (strncasecmp(s.c_str() + i, "SAVE", 4) != 0) return "";
  size_t a = s.find('"', i);
  if (a == std::string::npos) return "";
  size_t b = s.find('"', a + 1);
  return s.substr(a + 1, b == std::string::npos ? b : b - a - 1);
}

// The process died or gave up: every file but the one being saved must be as it was.
// If keep, a file that was saved before must not have been lost either: it has its old or its complete new content.
static void check_disk_after_death(const char* what, bool keep) {
  std::string target = save_target(current);
  for (auto& c : cands) {
    for (const std::string& t : { target }) if (!t.empty()) {
      auto f = W.disk.find(t);
      if (keep && c.m.disk.count(t) && !c.m.tainted.count(t)) {
        Cand n = c;
        if (run_on(n) && !n.m.giveup && n.m.disk.count(t) && f != W.disk.end() && f->second == n.m.disk[t]) c.m.disk[t] = f->second;
      }
      else if (f == W.disk.end()) c.m.disk.erase(t); else c.m.disk[t] = f->second;
      // a temporary file may be left behind, but no file that was there may be touched
      for (auto& g : W.disk) if (!c.m.disk.count(g.first)) stray.insert(g.first);
    }
    for (auto& t : c.m.tainted) { auto f = W.disk.find(t.first); if (f == W.disk.end()) c.m.disk.erase(t.first); else c.m.disk[t.first] = f->second; }
    c.m.tainted.clear();
    why = disk_diff(c.m.disk, W.disk);
    if (why.empty()) return;
  }
  violation("DIVERGE", std::string("after ") + what + ", " + why);
}

static bool oom() { return W.oom_all || (W.fired && (W.fault.kind == F_MALLOC_ONCE || W.fault.kind == F_MALLOC_ALL)); }

static bool prefix_of_expected(const Text& seen) {
  for (auto& c : cands) {
    Model m = c.m;
    for (uint64_t i = 0; i < CAP && m.wait != EXITED && !m.giveup && m.out.size() < seen.size(); i++)
      if (m.wait == RUNNING) m.step(); else if (m.idle()) break;
    if (m.giveup || has_wild(m.out)) return true;
    if (m.out.size() >= seen.size() && m.out.compare(0, seen.size(), seen) == 0) return true;
    why = "output is [" + show(seen, 900) + "], expected to begin [" + show(m.out, 900) + "]";
  }
  return false;
}

static void resolve(bool exiting, int status) {
  std::vector<Cand> next;
  bool intr = W.fired && W.fault.kind == F_INT && !int_done;
  bool io = W.io_fired;
  W.io_fired = false;

  if (oom() && exiting && status != 0) {
    if (W.seen_err.empty()) violation("EXIT", "memory ran out and the interpreter exited without saying so");
    if (!prefix_of_expected(W.seen)) violation("DIVERGE", "before running out of memory, " + why);
    check_disk_after_death("running out of memory", true);
    event("out of memory, exit " + std::to_string(status));
    return;
  }
  bool err_seen = !W.seen_err.empty();

  for (auto& c : cands) {
    if (c.m.giveup) abandon("model gave up");
    if (io) {
      for (int k = 0; k < 2; k++) {
        Cand n = c;
        n.m.io_fail = k == 1;
        if (!run_on(n)) { if (most_atoms() < CAP) { why = "the program should still be running"; continue; } abandon("model ran too long"); }
        if (k == 1 && n.m.io_fail) continue; // no file operation took place
        n.m.io_fail = false;
        if (fits(n, exiting, status)) put_cand(next, std::move(n));
      }
    }
    else if (intr && !c.latched) {
      std::vector<Cand> v;
      explore(c, v, exiting, status);
      for (auto& n : v) put_cand(next, std::move(n));
    }
    else {
      if (!run_on(c)) {
        if (exiting || most_atoms() < CAP) { why = "the program should still be running"; continue; }
        abandon("model ran too long");
      }
      if (fits(c, exiting, status)) put_cand(next, std::move(c));
    }
  }
  if (intr) int_done = true;
  log_hash.u64(W.steps);
  for (auto c : W.seen) log_hash.u64(c);
  log_hash.str(W.seen_err);
  if (tracing) {
    std::string t = "step " + std::to_string(W.steps) + (exiting ? " exit " + std::to_string(status) : " wait") + " out [" + show(W.seen, 400) + "]";
    if (!W.seen_err.empty()) t += " err [" + show(W.seen_err, 300) + "]";
    if (W.fired) t += std::string(" fault ") + fault_names[W.fault.kind] + " fired at step " + std::to_string(W.fire_step);
    res.trace.push_back(t);
  }
  if (next.empty()) {
    if (oom() && err_seen) abandon("carried on after an error when memory ran out");
    if (exiting && !cands.empty() && why.compare(0, 30, "the interpreter ended the sess") == 0) violation("EXIT", why + "; error output [" + show(W.seen_err, 300) + "]");
    violation("DIVERGE", why);
  }
  if (next.size() > 1) {
    std::set<uint64_t> seen;
    std::vector<Cand> uniq;
    for (auto& c : next) {
      Hash h;
      h.u64(c.m.hash()); h.u64(c.latched);
      h.text(c.m.out);
      if (seen.insert(h.h).second) uniq.push_back(std::move(c));
    }
    next = std::move(uniq);
  }
  cands = std::move(next);
  if (cands.size() > res.max_cands) res.max_cands = (unsigned) cands.size();
  res.waits++;
  if (res.states.size() < 400) {
    Hash h;
    h.u64(cands[0].m.hash());
    h.u64(W.fired ? (uint64_t) W.fault.kind : 0);
    res.states.push_back(h.h);
  }
  W.seen.clear();
  W.seen_err.clear();
  last_wait_steps = W.steps;
  if (sc->handles && !exiting && W.open_files) violation("HANDLE_LEAK", std::to_string(W.open_files) + " file(s) still open while waiting for input");
}

static void all_models(const std::string& bytes) { for (auto& c : cands) c.m.feed(bytes); }

static size_t deliver(char* buf, size_t n) {
  const EnvCfg& e = sc->lives[life_no].env;
  size_t k = queue.size();
  if (e.chunk) {
    size_t c = 1 + mix64(sc->seed * 31 + W.n_reads) % (uint64_t) e.chunk;
    if (k > c) k = c;
  }
  if (k > n) k = n;
  std::string s = queue.substr(0, k);
  queue.erase(0, k);
  memcpy(buf, s.data(), k);
  if (!sc->raw) all_models(s);
  return k;
}

static void move_clock(long dt) {
  if (!dt) return;
  W.clock += dt;
  W.fired_count[F_CLOCK]++;
  for (auto& c : cands) c.m.clock += dt;
  event("clock moves " + std::to_string(dt));
}

static void begin_op(const Op* op, const Fault& f) {
  current = op;
  W.arm(f);
  int_done = false;
  meas_open = true;
  W.file_first = W.file_last = 0;
  meas_steps = W.steps; meas_allocs = W.allocs; meas_reads = W.n_reads;
}

static long error_life = -1; // the latest life with a read error on standard input

static size_t end_input() {
  end_of_input = true;
  if (++reads_after_end > 200) violation("HANG", "keeps reading after the end of input");
  for (auto& c : cands) c.m.eof = true;
  return 0;
}

// After arbitrary input, a break and NEW must give back an interpreter that works.
static bool raw_ended, raw_bye; // the end of input was given; BYE was among the text given
static unsigned raw_phase;
static const struct { const char *line, *expect; } probes[] = {
  { "", NULL }, { "NEW", NULL },
  { "PRINT 6*7;\"ok\"", "42 ok" },
  { "10 FOR I=1 TO 3:A$=A$+STR$(I):NEXT I", NULL },
  { "20 DIM Q(3):Q(2)=I:GOSUB 40:END", NULL },
  { "30 PRINT \"never\"", NULL },
  { "40 DEF FNZ(X)=X*2:READ V:PRINT \"<\";A$;Q(2);FNZ(Q(2));V;\">\":RETURN", NULL },
  { "50 DATA 77", NULL },
  { "30", NULL },
  { "LIST", "10 FOR I=1 TO 3:A$=A$+STR$(I):NEXT I\n20 DIM Q(3):Q(2)=I:GOSUB 40:END\n40 DEF FNZ(X)=X*2:READ V:PRINT \"<\";A$;Q(2);FNZ(Q(2));V;\">\":RETURN\n50 DATA 77\n" },
  { "RUN", "<123 3  6  77 >" },
};

static void note_raw(int kind) { W.fired_count[kind]++; }

static std::string squeezed(const std::string& s) {
  std::string t;
  for (char c : s) if (!isspace((unsigned char) c)) t += (char) toupper((unsigned char) c);
  return t;
}

static size_t raw_recovery(char* buf, size_t n) {
  const size_t count = sizeof probes / sizeof *probes;
  W.arm(Fault());
  W.auto_int = 200000;
  W.rearm();
  if (raw_phase == count) { raw_phase++; return end_input(); }
  if (raw_phase > count) return end_input();
  if (raw_phase == 0) world_interrupt(); // if a program is waiting for an answer
  queue = std::string(probes[raw_phase].line) + "\n";
  event("recovery line " + std::to_string(raw_phase));
  raw_phase++;
  return deliver(buf, n);
}

static void check_recovery(const Text& seen) {
  if (raw_phase < 1 || raw_phase > sizeof probes / sizeof *probes) return;
  const char* e = probes[raw_phase - 1].expect;
  const LifeCfg& c = sc->lives[life_no].cfg;
  if (!e || ((c.trace || c.trace_for) && !strcmp(probes[raw_phase - 1].line, "RUN"))) return;
  std::string s;
  for (auto ch : seen) s += ch < 256 ? (char) ch : '?';
  if (s.find(e) == std::string::npos)
    violation("DIVERGE", std::string("after a break and NEW, ") + probes[raw_phase - 1].line + " gives [" + esc(s) + "], expected [" + esc(e) + "]");
}

static size_t raw_read(char* buf, size_t n) {
  const Life& l = sc->lives[life_no];
  if (!queue.empty()) return deliver(buf, n);
  finish_meas();
  log_hash.u64(W.steps);
  for (auto c : W.seen) log_hash.u64(c);
  log_hash.str(W.seen_err);
  if (tracing) res.trace.push_back("step " + std::to_string(W.steps) + " wait out [" + show(W.seen, 400) + "] err [" + show(W.seen_err, 300) + "]");
  check_recovery(W.seen);
  W.seen.clear();
  W.seen_err.clear();
  res.waits++;
  Hash h;
  h.u64(W.steps - W.op_steps);
  h.u64(current ? (uint64_t) current->id : 0);
  if (res.states.size() < 400) res.states.push_back(h.h);
  if (sc->handles && !l.cfg.batch && W.open_files) violation("HANDLE_LEAK", std::to_string(W.open_files) + " file(s) still open while waiting for input");
  if (op_no >= l.ops.size()) {
    current = NULL;
    if (l.cfg.batch || raw_ended || W.oom_all) { W.arm(Fault()); W.auto_int = 200000; return end_input(); }
    return raw_recovery(buf, n);
  }
  const Op& op = l.ops[op_no++];
  res.ops_done++;
  move_clock(op.dt);
  begin_op(&op, op.fault);
  W.auto_int = 200000;
  W.rearm();
  if (op.fault.kind == F_STDIN_ERR) {
    note_raw(F_STDIN_ERR);
    W.int_eintr = false;
    raw_ended = true;
    op_no = l.ops.size();
    event("read error on standard input");
    return (size_t) -1;
  }
  if (op.fault.kind == F_INT_READ && world_interrupt()) event("interrupt while waiting");
  if (squeezed(op.text).find("BYE") != std::string::npos) raw_bye = true;
  queue = op.text + "\n";
  event("line #" + std::to_string(op.id));
  if (op.fault.kind == F_EOF) { raw_ended = true; queue = op.text; op_no = l.ops.size(); if (queue.empty()) return end_input(); }
  return deliver(buf, n);
}

static size_t read_input(char* buf, size_t n) {
  if (sc->raw) return raw_read(buf, n);
  const Life& l = sc->lives[life_no];
  resolve(false, 0);
  WaitKind wait = cands[0].m.wait;
  if (!W.trapped && cands.size() == 1 && (wait == WAIT_INPUT || wait == WAIT_PAGE))
    violation("EXIT", std::string("CTRL-C while waiting for ") + wait_name(wait) + " would end the session: it is not caught");
  if (!queue.empty()) return deliver(buf, n);
  finish_meas();
  if (end_of_input || wait == WAIT_CMD_DISCARD || wait == WAIT_INPUT_DISCARD) return end_input();

  const Op* op = NULL;
  static Op fallback;
  if (wait == WAIT_CMD) {
    while (op_no < l.ops.size() && l.ops[op_no].ans) op_no++;
    if (op_no < l.ops.size()) op = &l.ops[op_no++];
    default_answers = 0;
  }
  else {
    if (op_no < l.ops.size() && l.ops[op_no].ans) op = &l.ops[op_no++];
    else if (default_answers < 40) {
      fallback = Op();
      fallback.ans = true;
      unsigned k = default_answers++ % 4;
      fallback.text = wait == WAIT_PAGE ? "" : "1";
      if (wait == WAIT_INPUT) while (k--) fallback.text += ",1";
      op = &fallback;
    }
  }
  if (!op) {
    if (tracing) res.trace.push_back("end of input");
    current = NULL;
    W.arm(Fault());
    int_done = false;
    return end_input();
  }

  // an interrupt while waiting for input
  if (op->fault.kind == F_INT_READ && wait != WAIT_CMD) {
    W.arm(op->fault);
    int_done = true;
    static const Op* interrupted_at;
    if (interrupted_at != op && world_interrupt()) {
      interrupted_at = op;
      event("interrupt while waiting for " + std::string(wait_name(wait)));
      std::vector<Cand> more;
      for (auto& c : cands) {
        if (!W.restart && !c.latched) { Cand n = c; if (n.m.listing) n.m.break_list(); else { n.m.wait = RUNNING; n.m.do_break(); } more.push_back(n); }
        c.latched = true;
      }
      for (auto& c : more) cands.push_back(c);
      if (!W.restart) { op_no--; W.int_eintr = true; return (size_t) -1; }
    }
  }
  if (op->fault.kind == F_STDIN_ERR) {
    static const Op* failed_at;
    if (failed_at != op) {
      failed_at = op;
      W.fired_count[F_STDIN_ERR]++;
      W.int_eintr = false;
      event("read error on standard input");
      for (auto& c : cands) c.m.inerr = true;
      error_life = (long) life_no;
      if (op != &fallback) op_no--;
      current = NULL;
      W.arm(Fault());
      int_done = false;
      return (size_t) -1;
    }
  }

  res.ops_done++;
  move_clock(op->dt);
  bool keep_int = op->fault.kind == F_INT_READ && W.fired && W.fault.kind == F_INT_READ;
  Fault f = op->fault;
  if (f.kind == F_INT_READ) f = Fault();
  begin_op(op, f);
  if (keep_int && W.hang_at > W.steps + 4000000) W.hang_at = W.steps + 4000000;
  queue = op->text + "\n";
  event((op->ans ? "answer #" : "command #") + std::to_string(op->id) + " [" + show(op->text, 300) + "]");
  if (op->fault.kind == F_EOF) {
    W.fired_count[F_EOF]++;
    queue = op->text;
    // after a read error nothing tells an unterminated last line from one cut short by the error
    if (error_life == (long) life_no) queue += "\n";
    op_no = l.ops.size();
    end_of_input = true;
    if (queue.empty()) return end_input();
    return deliver(buf, n);
  }
  // several lines may arrive together
  if (l.env.group && cands.size() == 1 && !cands[0].latched && op->fault.kind == F_NONE && op != &fallback) {
    Model look = cands[0].m;
    look.feed(queue);
    for (int k = 0; k < 8 && op_no < l.ops.size(); k++) {
      const Op& nx = l.ops[op_no];
      if (nx.fault.kind != F_NONE || nx.dt || nx.loops) break;
      if (!look.pump(20000) || look.giveup || look.wait == EXITED || look.out.size() > 20000) break;
      if (nx.ans != (look.wait == WAIT_INPUT || look.wait == WAIT_PAGE)) break;
      op_no++;
      res.ops_done++;
      look.feed(nx.text + "\n");
      queue += nx.text + "\n";
      event("together with #" + std::to_string(nx.id) + " [" + show(nx.text, 300) + "]");
    }
  }
  return deliver(buf, n);
}

size_t runner_read(char* buf, size_t n) {
  *simulating = 1;
  size_t k = read_input(buf, n);
  *simulating = 0;
  return k;
}

static std::vector<std::string> arguments(const LifeCfg& c) {
  std::vector<std::string> a = { "lbasic" };
  if (c.quiet) a.push_back("-q");
  if (c.trace) a.push_back("-t");
  if (c.keywords) a.push_back("-k");
  if (c.randomize) a.push_back("-z");
  if (c.report_mem) a.push_back("-m");
  if (c.trace_for) a.push_back("-f");
  if (c.trace_log) a.push_back("-g");
  if (c.mode) a.push_back(std::string("-") + (char) c.mode);
  if (c.mode_run) a.push_back("-r");
  if (c.batch) a.push_back(c.file);
  return a;
}

// The code of a program: instructions numbered from 0, each of one line; every source line in order (the model checks
// that) is followed by instructions that mention each of its string constants and variables.
static void check_code(const Text& seen) {
  std::string t, seg, line_text;
  for (auto c : seen) if (c < 0x200) t += (char) c;
  size_t p = 0;
  if (!sc->lives[life_no].cfg.quiet) { p = t.find("\n\n"); if (p == std::string::npos) violation("DIVERGE", "no title"); p += 2; }
  unsigned long next = 0;
  auto finish = [&]() {
    Lexer lex(line_text, sc->lives[life_no].cfg.keywords);
    int k = lex.next();
    while (k != '\n' && k != TK_REM && k != TK_EOF) {
      if (k == TK_DATA) break;
      if (k == TK_STR && seg.find("\"" + lex.word + "\"") == std::string::npos) violation("DIVERGE", "the code of line [" + show(line_text) + "] is without \"" + show(lex.word) + "\": [" + show(seg, 600) + "]");
      if (k == TK_ID && !known_builtin(lex.word) && strcasecmp(lex.word.c_str(), "TAB") && strcasecmp(lex.word.c_str(), "SPC") && strcasestr(seg.c_str(), (" " + lex.word).c_str()) == NULL)
        violation("DIVERGE", "the code of line [" + show(line_text) + "] is without " + show(lex.word) + ": [" + show(seg, 600) + "]");
      k = lex.next();
    }
    seg.clear();
  };
  bool any = false;
  while (p < t.size()) {
    size_t e = t.find('\n', p);
    if (e == std::string::npos) e = t.size();
    std::string s = t.substr(p, e - p);
    p = e + 1;
    if (s.empty()) break; // the memory report
    char* q;
    unsigned long n = strtoul(s.c_str(), &q, 10);
    if (n != next || q == s.c_str() || *q != ' ') violation("DIVERGE", "code listing line [" + show(s) + "], expected number " + std::to_string(next));
    next++;
    if (strncmp(q, " SOURCE-LINE ", 13) == 0) {
      if (any) finish();
      any = true;
      const char* colon = strstr(q, ": ");
      const char* sp = colon ? strchr(colon + 2, ' ') : NULL;
      line_text = sp ? sp + 1 : "";
    }
    else seg += std::string(q) + "\n";
  }
  if (any) finish();
}

void execute_child(const Scenario& s, int fd, bool want_trace) {
  *simulating = 1;
  sc = &s;
  out_fd = fd;
  tracing = want_trace;
  world_init();
  W.disk = s.files;
  W.clock = s.clock;
  Stats st;
  for (life_no = 0; life_no < s.lives.size(); life_no++) {
    const Life& l = s.lives[life_no];
    op_no = 0;
    queue.clear();
    end_of_input = false;
    default_answers = reads_after_end = 0;
    raw_ended = raw_bye = false; raw_phase = 0;
    W.env = l.env;
    W.cfg = l.cfg;
    Model m;
    m.disk = W.disk;
    for (auto& t : stray) m.disk.erase(t);
    m.clock = W.clock;
    m.st = st;
    setenv("TZ", l.env.tz.c_str(), 1);
    tzset();
    if (!s.raw) m.start(l.cfg);
    cands.clear();
    cands.push_back({ m, false });
    event("life " + std::to_string(life_no + 1));
    W.auto_int = s.raw ? 200000 : 0;
    begin_op(NULL, l.start_fault);
    *simulating = 0;
    LifeEnd e = run_life(arguments(l.cfg));
    *simulating = 1;
    log_hash.u64(e.how); log_hash.u64((uint64_t) e.status);
    res.lives_done++;
    if (e.how == HOW_HANG) {
      bool intr = W.fired && (W.fault.kind == F_INT || W.fault.kind == F_INT_READ);
      if (!intr && !s.raw) {
        for (auto& c : cands) {
          Model x = c.m;
          if (!x.pump(20000) || x.out.size() > 500000 || x.giveup) abandon("a program that runs long");
        }
      }
      violation("HANG", intr ? "CTRL-C does not stop it" : "it does not come to wait for input or end; output so far [" + show(W.seen, 300) + "]");
    }
    if (e.how == HOW_KILL) {
      finish_meas();
      event("killed at step " + std::to_string(W.steps));
      if (!s.raw) check_disk_after_death("being killed", false);
    }
    if (e.how == HOW_EXIT) {
      if (s.raw) {
        finish_meas();
        bool no_memory = W.oom_all || oom();
        if (no_memory && e.status != 0 && W.seen_err.empty()) violation("EXIT", "memory ran out and the interpreter exited without saying so");
        if (e.status != 0 && !l.cfg.batch && !no_memory) violation("EXIT", "exit status " + std::to_string(e.status) + ", error output [" + show(W.seen_err, 500) + "]");
        if (e.status == 0 && !l.cfg.batch && !raw_ended && !raw_bye && !end_of_input) violation("EXIT", "the session ended without BYE or end of input");
      }
      else {
        if (l.cfg.mode == 'c' && e.status == 0) check_code(W.seen);
        resolve(true, e.status);
        finish_meas();
      }
      if (s.leaks && e.status == 0 && !W.live.empty()) {
        size_t n = 0;
        for (auto& b : W.live) n += b.second;
        violation("LEAK", std::to_string(W.live.size()) + " blocks (" + std::to_string(n) + " bytes) not released at normal exit");
      }
    }
    if (!cands.empty()) st = cands[0].m.st;
  }
  for (auto& f : W.disk) { log_hash.str(f.first); log_hash.str(f.second); }
  send_result();
}

Result execute(const Scenario& s, bool want_trace, double timeout) {
  Result r;
  int p[2];
  if (pipe(p) != 0) return r;
  if (!simulating) simulating = (volatile int*) mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  *simulating = 1;
  int errf = memfd_create("stderr", 0);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    dup2(errf, 2);
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    execute_child(s, p[1], want_trace);
  }
  close(p[1]);
  std::string data;
  char buf[65536];
  struct timespec t0;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  bool timed_out = false;
  for (;;) {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    double left = timeout - ((double)(t.tv_sec - t0.tv_sec) + 1e-9 * (double)(t.tv_nsec - t0.tv_nsec));
    if (left <= 0) { timed_out = true; kill(pid, SIGKILL); break; }
    struct pollfd pf = { p[0], POLLIN, 0 };
    int k = poll(&pf, 1, (int)(left * 1000) + 1);
    if (k < 0 && errno != EINTR) break;
    if (k > 0) {
      ssize_t n = read(p[0], buf, sizeof buf);
      if (n <= 0) break;
      data.append(buf, (size_t) n);
    }
  }
  close(p[0]);
  int ws = 0;
  waitpid(pid, &ws, 0);
  uint64_t n = 0;
  if (data.size() >= 8) memcpy(&n, data.data(), 8);
  if (data.size() >= 8 && data.size() - 8 == n) { r.unpack(data.substr(8)); }
  else if (timed_out) { r.abandoned = "time limit of the simulator"; }
  else {
    std::string err;
    off_t size = lseek(errf, 0, SEEK_END);
    lseek(errf, 0, SEEK_SET);
    err.resize((size_t) size);
    if (size > 0) { ssize_t k = read(errf, &err[0], (size_t) size); (void) k; }
    // the line that says what happened, without addresses
    std::string summary;
    std::istringstream in(err);
    std::string line;
    while (std::getline(in, line))
      if (line.find("runtime error:") != std::string::npos || line.find("SUMMARY:") != std::string::npos) summary += (summary.empty() ? "" : "; ") + line.substr(0, 300);
    if (WIFSIGNALED(ws)) summary += " killed by signal " + std::to_string(WTERMSIG(ws));
    if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGKILL) { r.abandoned = "killed from outside"; }
    else if (*simulating) { r.abandoned = "the simulator failed: " + summary; fprintf(stderr, "seed %lu: the simulator failed: %s\n", (unsigned long) s.seed, summary.c_str()); }
    else {
      r.verdict = "CRASH";
      r.message = summary.empty() ? "process ended with status " + std::to_string(ws) + " [" + show(err, 500) + "]" : summary;
      Hash h;
      h.str(r.message);
      r.hash = h.h;
    }
  }
  close(errf);
  return r;
}

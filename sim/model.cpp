#include "model.h"
#include "parser.h"
#include <climits>
#include <cmath>
#include <cstdlib>
#include <set>
#include <strings.h>

static const int MAX_NUM = 16, MAX_STR = 8, MAX_RET = 8, MAX_LOOPS = 8;

const char* wait_name(int w) {
  static const char* n[] = { "running", "command", "discarding command line", "INPUT", "discarding INPUT line", "page", "exited" };
  return n[w];
}

// ---------------------------------------------------------------- environment

unsigned env_rand(const LifeCfg& c, uint64_t seed, uint64_t n) {
  uint64_t z = mix64(c.env_seed * 1000003 + mix64(seed) + n * 0x9e3779b97f4a7c15ull);
  if (c.rand_mode == 1) {
    switch (z % 16) {
      case 0: case 1: case 2: return INT_MAX; // RAND_MAX
      case 3: return 0;
      case 4: return 1;
      case 5: return INT_MAX - 1;
    }
  }
  return (unsigned)(mix64(z) & INT_MAX);
}

int env_system_status(const LifeCfg& c, uint64_t n) {
  if (c.sys_mode == 0) return 0;
  uint64_t z = mix64(c.env_seed + 77 * n);
  if (c.sys_mode == 2 && z % 2) return 0;
  return z % 3 == 0 ? -1 : z % 3 == 1 ? 256 : 127 << 8;
}

bool good_file_name(const std::string& s) {
  return !s.empty() && s.find('/') == std::string::npos && s != "." && s != "..";
}

static bool blank(char c) { return c == ' ' || c == '\t'; }
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }

bool parse_file(const std::string& f, std::map<unsigned, std::string>& lines) {
  size_t i = 0;
  unsigned latest = 0;
  while (i < f.size()) {
    size_t nl = f.find('\n', i);
    if (nl == std::string::npos || nl - i + 1 > 255) return false; // unterminated or too long
    std::string l = f.substr(i, nl - i);
    i = nl + 1;
    if (l.empty() || l.find('\0') != std::string::npos) return false;
    size_t k = 0;
    uint64_t num = 0;
    while (k < l.size() && dig(l[k])) {
      num = num * 10 + (unsigned)(l[k++] - '0');
      if (num > UINT_MAX - 1) return false;
    }
    if (k == 0 || num == 0 || num <= latest) return false;
    latest = (unsigned) num;
    if (k < l.size() && l[k] == ' ') k++;
    lines[latest] = l.substr(k);
  }
  return true;
}

bool convert_num(const std::string& s, size_t i, double& val, size_t& end) {
  while (i < s.size() && blank(s[i])) i++;
  if (i < s.size() && (dig(s[i]) || s[i] == '.' || s[i] == '-' || s[i] == '+')) {
    char* e;
    val = strtod(s.c_str() + i, &e);
    end = (size_t)(e - s.c_str());
    while (end < s.size() && blank(s[end])) end++;
    return true;
  }
  return false;
}

// ---------------------------------------------------------------- session

void Model::start(const LifeCfg& c) {
  auto d = disk; auto t = tainted; auto k = clock; auto s = st; bool g = giveup;
  *this = Model();
  disk = d; tainted = t; clock = k; st = s; giveup = g;
  cfg = c;
  rand_seed = c.randomize ? (uint64_t)(unsigned) clock : 1;
  exit_status = 0;
  if (!c.quiet) { add(out, "Legacy Basic"); out.push_back(W_SOMENL); add(out, "\n\n"); }
  if (c.batch) { to_load = true; wait = RUNNING; }
  else {
    if (!c.quiet) add(out, "Type HELP to list commands\n\n");
    prompt();
  }
}

void Model::prompt() {
  add(out, "> ");
  flush();
  wait = WAIT_CMD;
}

void Model::end_session(int status) {
  wait = EXITED;
  exit_status = status;
  if (status == 0 && cfg.report_mem) {
    add(out, "\nmalloc: "); out.push_back(W_SOMENL); add(out, "\nfree:   "); out.push_back(W_SOMENL); add(out, "\n");
  }
  flush();
}

bool Model::pump(uint64_t max) {
  for (;;) {
    if (wait == EXITED || giveup) return true;
    if (wait == RUNNING) {
      if (max-- == 0) return false;
      step();
    }
    else if (idle()) return true;
  }
}

// Take what fgets(size) would take. Return false if more input is needed.
static bool take(std::string& in, bool eof, size_t max, std::string& line, bool& null) {
  size_t nl = in.find('\n');
  null = false;
  if (nl != std::string::npos && nl + 1 <= max) { line = in.substr(0, nl + 1); in.erase(0, nl + 1); return true; }
  if (in.size() >= max) { line = in.substr(0, max); in.erase(0, max); return true; }
  if (!eof) return false;
  line = in;
  in.clear();
  null = line.empty();
  return true;
}

// Take up to and including the next newline. Return false if more input is needed.
static bool discard(std::string& in, bool eof, bool& any) {
  size_t nl = in.find('\n');
  if (nl != std::string::npos) { any = any || nl > 0; in.erase(0, nl + 1); return true; }
  any = any || !in.empty();
  in.clear();
  return eof;
}

bool Model::idle() {
  std::string line;
  bool null;
  switch (wait) {
    case WAIT_CMD:
      if (inerr && inbuf.empty()) { inerr = false; end_session(0); return false; }
      if (!take(inbuf, eof, 127, line, null)) return true;
      if (null) { end_session(0); return false; }
      if (line.back() == '\n') { line.pop_back(); command_line(line); }
      else { flush(); add(out, "Command line too long\n"); st.toolong++; wait = WAIT_CMD_DISCARD; }
      return false;
    case WAIT_CMD_DISCARD: {
      bool any = false;
      if (!discard(inbuf, eof, any)) return true;
      prompt();
      return false;
    }
    case WAIT_INPUT:
      if (inerr && inbuf.empty()) { inerr = false; null = true; }
      else if (!take(inbuf, eof, 127, line, null)) return true;
      st.input++;
      wait = RUNNING;
      if (null) { try { rterr(); } catch (RtErr&) { end_run(END_ERROR); } return false; }
      input_line = line;
      if (line.back() != '\n') { wait = WAIT_INPUT_DISCARD; discard_found = false; }
      else input_assign();
      return false;
    case WAIT_INPUT_DISCARD:
      if (!discard(inbuf, eof, discard_found)) return true;
      if (discard_found) { add(out, "* Extra input was discarded *\n"); st.toolong++; }
      wait = RUNNING;
      input_assign();
      return false;
    case WAIT_PAGE: {
      bool any = false;
      if (inerr && inbuf.empty()) inerr = false;
      else if (!discard(inbuf, eof, any)) return true;
      wait = RUNNING;
      return false;
    }
    default:
      return true;
  }
}

static std::string skip(const std::string& s, size_t i = 0) {
  while (i < s.size() && blank(s[i])) i++;
  return s.substr(i);
}

static size_t read_num(const std::string& s, size_t i, unsigned& num) {
  num = 0;
  while (i < s.size() && dig(s[i])) {
    unsigned d = (unsigned)(s[i] - '0');
    num = num > (UINT_MAX - d) / 10 ? UINT_MAX : 10 * num + d;
    i++;
  }
  return i;
}

void Model::command_line(const std::string& full) {
  std::string line = skip(full);
  if (line.empty()) { prompt(); return; }
  if (dig(line[0])) {
    unsigned num;
    size_t i = read_num(line, 0, num);
    if (num == 0 || num == UINT_MAX) { flush(); add(out, "Invalid line number\n"); }
    else if (i >= line.size()) {
      if (src.erase(num)) { changed(); st.edit++; }
    }
    else {
      if (line[i] == ' ') i++;
      src[num] = line.substr(i);
      has_source = true;
      st.edit++;
      changed();
    }
    prompt();
    return;
  }
  if (line[0] == '*') {
    std::string cmd = skip(line, 1);
    if (!cmd.empty()) system_cmd(cmd);
    prompt();
    return;
  }
  size_t n = 0;
  while (n < line.size() && al(line[n])) n++;
  static const char* cmds[] = { "BYE", "COMPILE", "CONT", "HELP", "LIST", "LOAD", "NEW", "RENUM", "RENUMBER", "RUN", "SAVE" };
  for (auto c : cmds)
    if (strlen(c) == n && strncasecmp(c, line.c_str(), n) == 0) { command(c, line.substr(n)); return; }
  immediate(line);
}

// A quoted name and nothing else
static bool quoted(const std::string& rest, std::string& name, bool& junk) {
  std::string s = skip(rest);
  junk = false;
  if (s.empty() || s[0] != '"') return false;
  size_t q = s.find('"', 1);
  name = s.substr(1, q == std::string::npos ? q : q - 1);
  junk = q != std::string::npos && !skip(s, q + 1).empty();
  return !junk;
}

void Model::command(const std::string& c, const std::string& rest) {
  auto eol = [&](const std::string& r) {
    if (skip(r).empty()) return true;
    flush(); add(out, "Command syntax error\n");
    return false;
  };
  if (c == "BYE") {
    if (eol(rest)) { end_session(0); return; }
  }
  else if (c == "COMPILE") compile();
  else if (c == "CONT") {
    if (stopped.which && compiled) {
      cur = stopped;
      st.cont++;
      is_immediate = false;
      begin_run();
      return;
    }
    st.refused++;
    flush(); add(out, "Cannot continue\n");
  }
  else if (c == "HELP") { out.push_back(W_SOME); add(out, "\n"); }
  else if (c == "NEW") {
    if (eol(rest)) { src.clear(); changed(); clear_names(); }
  }
  else if (c == "LIST") {
    unsigned start = 0, end = UINT_MAX;
    bool page = false;
    std::string s = skip(rest);
    if (!s.empty() && dig(s[0])) s = skip(s, read_num(s, 0, start));
    if (!s.empty() && s[0] == '-') {
      s = skip(s, 1);
      if (!s.empty() && dig(s[0])) s = s.substr(read_num(s, 0, end));
    }
    s = skip(s);
    if (!s.empty() && (s[0] == 'p' || s[0] == 'P')) { page = true; s = s.substr(1); }
    if (eol(s) && has_source && !src.empty()) {
      listing = true; list_next = 0; list_start = start; list_end = end; list_page = page; list_count = 0;
      wait = RUNNING;
      st.listed++;
      return;
    }
  }
  else if (c == "LOAD" || c == "SAVE") {
    std::string name;
    bool junk;
    if (quoted(rest, name, junk)) {
      if (c == "LOAD") load(name); else save(name);
    }
    else {
      flush();
      if (junk) add(out, "Command syntax error\n");
      add(out, "Quoted file name expected\n");
    }
  }
  else if (c == "RENUM" || c == "RENUMBER") {
    unsigned n = 10, o = 1, i = 10;
    std::string s = skip(rest);
    if (!s.empty() && dig(s[0])) s = skip(s, read_num(s, 0, n));
    if (!s.empty() && s[0] == ',') {
      s = skip(s, 1);
      if (!s.empty() && dig(s[0])) s = s.substr(read_num(s, 0, o));
    }
    if (!s.empty() && s[0] == ',') {
      s = skip(s, 1);
      if (!s.empty() && dig(s[0])) s = s.substr(read_num(s, 0, i));
    }
    if (eol(s)) renum(n, o, i);
  }
  else if (c == "RUN") {
    clear_values();
    is_immediate = false;
    run_program();
    return;
  }
  prompt();
}

int Model::system_cmd(const std::string& cmd) {
  st.sys++;
  out.push_back(T_SYS);
  add(out, cmd);
  out.push_back(T_SYSEND);
  clock += cfg.sys_delay;
  return env_system_status(cfg, sys_n++);
}

// ---------------------------------------------------------------- files

std::string Model::program_text() const {
  std::string s;
  for (auto& l : src) s += std::to_string(l.first) + " " + l.second + "\n";
  return s;
}

bool Model::load(const std::string& name) {
  st.load++;
  std::map<unsigned, std::string> lines;
  auto f = disk.find(name);
  if (io_fail || !good_file_name(name) || f == disk.end() || !parse_file(f->second, lines)) {
    io_fail = false;
    err.push_back(W_SOME);
    return false;
  }
  src = lines;
  has_source = true;
  changed();
  return true;
}

void Model::save(const std::string& name) {
  st.save++;
  bool long_line = false; // LOAD would refuse it
  for (auto& l : src) if (std::to_string(l.first).size() + 1 + l.second.size() > 254) long_line = true;
  if (!has_source || long_line || !good_file_name(name)) { io_fail = false; err.push_back(W_SOME); return; }
  if (io_fail) {
    io_fail = false;
    err.push_back(W_SOME);
    tainted[name] = true;
    return;
  }
  disk[name] = program_text();
  tainted.erase(name);
}

void Model::renum(unsigned n, unsigned o, unsigned inc) {
  if (!has_source) return;
  std::map<unsigned, unsigned> map;
  unsigned prev = 0;
  for (auto& l : src) {
    unsigned to = l.first;
    if (l.first >= o) {
      if (n <= prev || n > 65535) {
        st.refused++;
        flush(); add(out, "Cannot renumber"); out.push_back(W_SOMENL); add(out, "\n");
        return;
      }
      to = n;
      n += inc;
    }
    map[l.first] = to;
    prev = to;
  }
  st.renum++;
  std::map<unsigned, std::string> result;
  bool complained = false;
  for (auto& l : src) {
    Lexer lex(l.second, cfg.keywords);
    int t = lex.next();
    while (t != TK_EOF && t != '\n') {
      if (t == TK_ELSE || t == TK_GOSUB || t == TK_GOTO || t == TK_RESTORE || t == TK_THEN) {
        do {
          t = lex.next();
          if (t != TK_NUM) break;
          double x = lex.num;
          if (x > 0 && x <= 65535 && floor(x) == x) {
            auto f = map.find((unsigned) x);
            if (f != map.end()) {
              lex.text.replace(lex.token_pos, lex.word.size(), std::to_string(f->second));
              lex.pos = lex.token_pos;
              lex.next();
            }
          }
          t = lex.next();
        } while (t == ',');
      }
      else if (t == TK_DATA) {
        do { std::string s; lex.data(s); t = lex.next(); } while (t == ',');
      }
      else if (t == TK_REM) break;
      else t = lex.next();
    }
    complained = complained || lex.complained;
    result[map[l.first]] = lex.text;
  }
  src = result;
  if (complained) err.push_back(W_ANY);
  changed();
}

// ---------------------------------------------------------------- compiling and control

int Model::lookup(const std::string& name, bool paren) const {
  for (int i = (int) syms.size() - 1; i >= 0; i--) {
    bool p = syms[i].kind != K_VAR;
    if (p == paren && strcasecmp(syms[i].name.c_str(), name.c_str()) == 0) return i;
  }
  return -1;
}

int Model::insert(const std::string& name, int kind, int type) {
  Sym s; s.name = name; s.kind = kind; s.type = type;
  syms.push_back(s);
  return (int) syms.size() - 1;
}

static bool parse_code(Model& m, Code& c, bool anywhere) {
  Parser p(m, c, anywhere);
  try {
    for (unsigned i = 0; i < c.src.size(); i++) {
      c.index[c.src[i].first] = (unsigned) c.at.size();
      p.line(i, c.src[i].second);
    }
  }
  catch (ParseErr&) {
    m.err.push_back(W_SOME);
    m.st.synerr++;
    return false;
  }
  return true;
}

bool Model::compile() {
  if (has_source && !compiled) {
    clear_names();
    auto c = std::make_shared<Code>();
    for (auto& l : src) c->src.push_back(l);
    if (!parse_code(*this, *c, cfg.keywords)) return false;
    prog = c;
    compiled = true;
    reset_control();
  }
  return true;
}

void Model::reset_control() {
  cur = stopped = Pos();
  fors.clear();
  rets.clear();
  col = 1;
  pdata = idata = 0;
}

void Model::clear_values() {
  for (auto& s : syms) { s.num = 0; s.s.clear(); s.na.reset(); s.sa.reset(); s.def.reset(); }
}

void Model::clear_names() { syms.clear(); }

void Model::run_program() {
  end_kind = END_NONE;
  if (has_source && compile()) {
    reset_control();
    cur.which = 1; cur.line = 0; cur.pc = 0;
    st.run++;
    begin_run();
    return;
  }
  end_run(END_NOTRUN);
}

void Model::immediate(const std::string& line) {
  end_kind = END_NONE;
  imm.reset();
  is_immediate = true;
  if (compile()) {
    auto c = std::make_shared<Code>();
    c->src.push_back({ 0, line });
    if (parse_code(*this, *c, false)) {
      imm = c;
      idata = 0;
      cur.which = 2; cur.line = 0; cur.pc = 0;
      st.imm++;
      begin_run();
      return;
    }
  }
  is_immediate = false;
  prompt();
}

void Model::begin_run() {
  wait = RUNNING;
  listing = false;
  end_kind = END_NONE;
}

void Model::end_run(int kind) {
  end_kind = kind;
  if (kind == END_STOP) {
    st.stop++;
    if (cur.line >= 0) {
      auto& l = code().src[(size_t) cur.line];
      add(out, std::to_string(l.first) + " " + l.second);
    }
    add(out, "\nStopped\n");
  }
  else if (kind == END_BREAK) { st.brk++; add(out, "Break\n"); }
  if (kind != END_NOTRUN && cur.which == 1) {
    if (kind == END_STOP || kind == END_BREAK) {
      stopped = cur;
      if (kind == END_STOP) stopped.pc++;
    }
    else stopped = Pos();
  }
  after_run();
}

void Model::after_run() {
  if (is_immediate) {
    bool refers = false;
    for (auto& r : rets) refers = refers || r.which != 1;
    for (auto& f : fors) refers = refers || f.pos.which != 1;
    if (refers) reset_control();
    is_immediate = false;
  }
  if (cfg.batch) end_session(0);
  else prompt();
}

void Model::do_break(bool after_stop) {
  if (after_stop) cur.pc++;
  end_run(END_BREAK);
}

void Model::break_list() {
  listing = false;
  end_kind = END_LIST;
  prompt();
}

void Model::list_step() {
  auto l = src.lower_bound(list_next);
  if (l == src.end() || l->first > list_end) { break_list(); return; }
  list_next = l->first + 1;
  if (l->first >= list_start) {
    add(out, std::to_string(l->first) + " " + l->second);
    list_count++;
    if (list_page && list_count % 24 == 23 && std::next(l) != src.end()) { flush(); wait = WAIT_PAGE; }
    else add(out, "\n");
  }
}

// The modes that only report on a program.
void Model::report_program() {
  bool complained = false;
  if (cfg.mode == 'l') for (auto& l : src) {
    char b[16];
    snprintf(b, sizeof b, "%5u ", l.first);
    add(out, b + l.second + "\n");
  }
  else if (cfg.mode == 'n') {
    auto less = [](const std::string& a, const std::string& b) { return strcasecmp(a.c_str(), b.c_str()) < 0; };
    std::set<std::string, decltype(less)> names(less);
    for (auto& l : src) {
      Lexer lex(l.second, cfg.keywords);
      int t;
      while ((t = lex.next()) != '\n' && t != TK_REM) if (t == TK_ID) names.insert(lex.word);
      complained = complained || lex.complained;
    }
    for (auto& s : names) {
      const char* mark = known_builtin(s) ? "*" : !strcasecmp(s.c_str(), "SPC") || !strcasecmp(s.c_str(), "TAB") ? "=" : " ";
      add(out, mark + (" " + s) + "\n");
    }
  }
  else {
    Code c;
    for (auto& l : src) c.src.push_back(l);
    if (!parse_code(*this, c, cfg.keywords)) { end_session(1); return; }
    if (cfg.mode == 'c') {
      // every line of the program in order, with its code after it: the runner looks at that more closely
      for (size_t i = 0; i < c.src.size(); i++) {
        out.push_back(W_ANY);
        add(out, " " + std::to_string(i) + ": " + std::to_string(c.src[i].first) + " " + c.src[i].second + "\n");
      }
      if (!c.src.empty()) out.push_back(W_ANY);
    }
  }
  if (complained) err.push_back(W_ANY);
  end_session(0);
}

void Model::trace_loops(const char* tag, bool initial) {
  if (initial) {
    auto& l = code().src[(size_t) cur.line];
    add(out, std::string("[") + tag + "]\n-- line: " + std::to_string(l.first) + " " + l.second + "\n-- initial stack: ");
  }
  else add(out, std::string("-- ") + tag + ": ");
  if (fors.empty()) add(out, "empty");
  for (size_t j = fors.size(); j > 0; j--)
    add(out, syms[(size_t) fors[j-1].sym].name + " = " + fmt(syms[(size_t) fors[j-1].sym].num) + ", " + fmt(fors[j-1].limit) + "; ");
  add(out, "\n");
}

void Model::step() {
  if (listing) { list_step(); return; }
  if (to_load) {
    to_load = false;
    if (load(cfg.file)) { is_immediate = false; if (cfg.mode) report_program(); else run_program(); }
    else end_session(1);
    return;
  }
  if (at_end()) { end_run(END_NORMAL); return; }
  std::shared_ptr<const Code> keep = cur.which == 1 ? prog : imm;
  try { exec(keep->at[cur.pc]); }
  catch (RtErr&) { end_run(END_ERROR); }
}

// Report a run-time error where it occurred.
void Model::rterr() {
  st.rterr++;
  add(err, "Runtime error: ");
  err.push_back(W_SOME);
  add(err, "\n");
  if (active_def) {
    if (active_def->has_src) add(err, std::to_string(active_def->num) + " " + active_def->text + "\n");
    syms[active_def->param].num = fn_saved;
    active_def = nullptr;
  }
  else {
    auto& l = code().src[(size_t) cur.line];
    add(err, std::to_string(l.first) + " " + l.second + "\n");
  }
  throw RtErr();
}

// ---------------------------------------------------------------- evaluation

void Model::push(Stack& s, double x) { if (s.sp >= MAX_NUM) rterr(); s.n[s.sp++] = x; }
double Model::pop(Stack& s) { if (s.sp == 0) rterr(); return s.n[--s.sp]; }
void Model::push_s(Stack& s, const std::string& x) { if ((int) s.s.size() >= MAX_STR) rterr(); s.s.push_back(x.substr(0, x.find('\0'))); }
std::string Model::pop_s(Stack& s) { if (s.s.empty()) rterr(); std::string r = s.s.back(); s.s.pop_back(); return r; }
const std::string& Model::peek_s(Stack& s, unsigned d) { if (s.s.size() <= d) rterr(); return s.s[s.s.size() - 1 - d]; }

unsigned Model::pop_uns(Stack& s) {
  double x = pop(s);
  if (x < 0 || floor(x) != x) rterr();
  if (x > UINT_MAX) rterr();
  return (unsigned) x;
}

int Model::pop_logic(Stack& s) {
  double x = pop(s);
  if (x < INT_MIN || x > INT_MAX || x != floor(x)) rterr();
  return (int) x;
}

std::string Model::fmt(double x) {
  if (std::isnan(x)) giveup = true;
  char b[64];
  snprintf(b, sizeof b, "%g", x);
  return b;
}

void Model::indexes(Stack& s, unsigned* ix, int n) {
  if (n > 2) rterr();
  for (int i = 0; i < n; i++) ix[i] = pop_uns(s);
}

void Model::dim(int sym, int n, const unsigned* max) {
  uint64_t e = 1;
  for (int i = 0; i < n; i++) {
    if (max[i] >= 65536 / e) rterr();
    e *= (uint64_t) max[i] + 1;
  }
  Sym& y = syms[(size_t) sym];
  if (y.type == T_NUM) {
    y.na = std::make_shared<NArr>();
    y.na->dim = (unsigned) n; for (int i = 0; i < n; i++) y.na->max[i] = max[i];
    y.na->v.assign(e, 0);
  }
  else {
    y.sa = std::make_shared<SArr>();
    y.sa->dim = (unsigned) n; for (int i = 0; i < n; i++) y.sa->max[i] = max[i];
    y.sa->v.assign(e, "");
  }
}

template <class A> static long offset(const A& a, int n, const unsigned* ix) {
  if (a.dim != (unsigned) n) return -1;
  for (int i = 0; i < n; i++) if (ix[i] > a.max[i]) return -1;
  return n == 1 ? (long) ix[0] : (long) ix[0] * ((long) a.max[1] + 1) + ix[1];
}

double* Model::nelem(Stack& s, int sym, int n) {
  unsigned ix[2], mx[2];
  indexes(s, ix, n);
  Sym& y = syms[(size_t) sym];
  if (!y.na) {
    for (int i = 0; i < n; i++) mx[i] = ix[i] < 10 ? 10 : ix[i];
    dim(sym, n, mx);
  }
  long o = offset(*y.na, n, ix);
  if (o < 0) rterr();
  if (y.na.use_count() > 1) y.na = std::make_shared<NArr>(*y.na);
  return &y.na->v[(size_t) o];
}

std::string* Model::selem(Stack& s, int sym, int n) {
  unsigned ix[2], mx[2];
  indexes(s, ix, n);
  Sym& y = syms[(size_t) sym];
  if (!y.sa) {
    for (int i = 0; i < n; i++) mx[i] = ix[i] < 10 ? 10 : ix[i];
    dim(sym, n, mx);
  }
  long o = offset(*y.sa, n, ix);
  if (o < 0) rterr();
  if (y.sa.use_count() > 1) y.sa = std::make_shared<SArr>(*y.sa);
  return &y.sa->v[(size_t) o];
}

void Model::set_num(Stack& s, int sym, int n, double v) {
  if (n == 0) syms[(size_t) sym].num = v; else *nelem(s, sym, n) = v;
}

void Model::set_str(Stack& s, int sym, int n, const std::string& v) {
  if (n == 0) syms[(size_t) sym].s = v; else *selem(s, sym, n) = v;
}

void Model::eval(Stack& s, const Expr& ex) {
  for (auto& o : ex) switch (o.op) {
    case E_NUM: push(s, o.num); break;
    case E_STR: push_s(s, o.str); break;
    case E_GETN: push(s, syms[(size_t) o.a].num); break;
    case E_GETS: push_s(s, syms[(size_t) o.a].s); break;
    case E_POPN: pop(s); break;
    case E_POPS: pop_s(s); break;
    case E_NEG: push(s, - pop(s)); break;
    case E_NOT: { int a = pop_logic(s); push(s, ~a); break; }
    case E_AND: { int b = pop_logic(s), a = pop_logic(s); push(s, a & b); break; }
    case E_OR: { int b = pop_logic(s), a = pop_logic(s); push(s, a | b); break; }
    case E_BIN: {
      double x = pop(s), y = pop(s);
      switch (o.a) {
        case '+': y += x; break;
        case '-': y -= x; break;
        case '*': y *= x; break;
        case '/': y /= x; break;
        case '^': y = pow(y, x); break;
      }
      push(s, y);
      break;
    }
    case E_CMPN: {
      double x = pop(s), y = pop(s);
      bool r = false;
      switch (o.a) {
        case '=': r = y == x; break; case TK_NE: r = y != x; break; case '<': r = y < x; break;
        case '>': r = y > x; break; case TK_LE: r = y <= x; break; case TK_GE: r = y >= x; break;
      }
      push(s, r ? -1 : 0);
      break;
    }
    case E_CMPS: {
      std::string t = pop_s(s), u = pop_s(s);
      int c = strcmp(u.c_str(), t.c_str());
      bool r = false;
      switch (o.a) {
        case '=': r = c == 0; break; case TK_NE: r = c != 0; break; case '<': r = c < 0; break;
        case '>': r = c > 0; break; case TK_LE: r = c <= 0; break; case TK_GE: r = c >= 0; break;
      }
      push(s, r ? -1 : 0);
      break;
    }
    case E_CAT: {
      std::string r = peek_s(s, 1) + peek_s(s, 0);
      if (r.size() > 255) rterr();
      pop_s(s); pop_s(s);
      push_s(s, r);
      break;
    }
    case E_FN: builtin(s, o.a); break;
    case E_GETP: {
      Sym& y = syms[(size_t) o.a];
      if (y.kind == K_UNKNOWN) y.kind = K_ARRAY;
      if (y.kind == K_ARRAY) {
        if (y.type == T_NUM) push(s, *nelem(s, o.a, o.b));
        else push_s(s, *selem(s, o.a, o.b));
        break;
      }
      if (!y.def || active_def || o.b != 1) rterr();
      st.fncall++;
      auto d = y.def;
      active_def = d.get();
      fn_saved = syms[(size_t) d->param].num;
      syms[(size_t) d->param].num = pop(s);
      eval(s, d->ex);
      syms[(size_t) d->param].num = fn_saved;
      active_def = nullptr;
      break;
    }
  }
}

void Model::builtin(Stack& s, int fn) {
  switch (fn) {
    case FN_ABS: push(s, fabs(pop(s))); break;
    case FN_ASC: { std::string t = pop_s(s); push(s, t.empty() ? 0 : (signed char) t[0]); break; }
    case FN_ATN: push(s, atan(pop(s))); break;
    case FN_CHR: {
      double x = pop(s);
      if (x < 0 || x > 255 || x != floor(x)) rterr();
      push_s(s, std::string(1, (char)(int) x));
      break;
    }
    case FN_COS: push(s, cos(pop(s))); break;
    case FN_EXP: push(s, exp(pop(s))); break;
    case FN_INT: push(s, floor(pop(s))); break;
    case FN_LEN: push(s, (double) pop_s(s).size()); break;
    case FN_LOG: { double x = pop(s); if (x <= 0) rterr(); push(s, log(x)); break; }
    case FN_LEFT: case FN_RIGHT: {
      std::string t = peek_s(s, 0);
      size_t u = pop_uns(s);
      if (u > t.size()) u = t.size();
      if (u > 255) rterr();
      pop_s(s);
      push_s(s, fn == FN_LEFT ? t.substr(0, u) : t.substr(t.size() - u));
      break;
    }
    case FN_MID: {
      std::string t = peek_s(s, 0);
      size_t v = pop_uns(s), u = pop_uns(s);
      if (u < 1 || u > t.size()) rterr();
      if (v > t.size() - u + 1) v = t.size() - u + 1;
      if (v > 255) rterr();
      pop_s(s);
      push_s(s, t.substr(u - 1, v));
      break;
    }
    case FN_RND: {
      double x;
      st.rnd++;
      do x = (double) env_rand(cfg, rand_seed, rand_n++) / INT_MAX; while (x >= 1);
      push(s, x);
      break;
    }
    case FN_SGN: { double x = pop(s); push(s, x < 0 ? -1 : x > 0 ? 1 : x); break; }
    case FN_SIN: push(s, sin(pop(s))); break;
    case FN_SQR: push(s, sqrt(pop(s))); break;
    case FN_STR: push_s(s, fmt(pop(s))); break;
    case FN_TAN: push(s, tan(pop(s))); break;
    case FN_TIME: {
      time_t t = clock;
      struct tm tm;
      st.timed++;
      localtime_r(&t, &tm);
      char b[32];
      snprintf(b, sizeof b, "%02d:%02d:%02d", tm.tm_hour, tm.tm_min, tm.tm_sec);
      push_s(s, b);
      break;
    }
    case FN_VAL: {
      std::string t = peek_s(s, 0);
      double x; size_t end;
      if (!convert_num(t, 0, x, end) || end != t.size()) rterr();
      pop_s(s);
      push(s, x);
      break;
    }
  }
}

// ---------------------------------------------------------------- execution

unsigned Model::find_line(unsigned n) {
  if (compiled) {
    auto f = prog->index.find(n);
    if (f != prog->index.end()) return f->second;
  }
  rterr();
}

void Model::go_line(unsigned n) { cur.pc = find_line(n); cur.which = 1; }

void Model::gosub(unsigned n) {
  unsigned pc = find_line(n);
  if (rets.size() >= (size_t) MAX_RET) rterr();
  Pos r = cur;
  r.pc++;
  rets.push_back(r);
  st.gosub++;
  cur.pc = pc;
  cur.which = 1;
}

void Model::next(size_t i) {
  For f = fors[i];
  double x = syms[(size_t) f.sym].num + f.step;
  st.loops++;
  if ((f.step > 0 && x > f.limit) || (f.step < 0 && x < f.limit)) fors.erase(fors.begin() + (long) i);
  else { syms[(size_t) f.sym].num = x; cur = f.pos; }
  if (cfg.trace_for) trace_loops("final stack", false);
  cur.pc++;
}

std::string Model::read_data() {
  bool im = cur.which == 2 && imm->has_data;
  if (!im && (!compiled || !prog->has_data)) rterr();
  auto& at = im ? imm->at : prog->at;
  unsigned& p = im ? idata : pdata;
  unsigned d = p;
  while (d < at.size() && at[d].op != A_DATA) d++;
  if (d >= at.size()) rterr();
  p = d + 1;
  st.data++;
  return at[d].str;
}

void Model::print_text(const std::string& s) {
  add(out, s);
  for (char c : s) if (c == '\n') col = 1; else col++;
}

void Model::input_assign() {
  std::shared_ptr<const Code> keep = cur.which == 1 ? prog : imm;
  const Atom& a = keep->at[cur.pc];
  std::string L = input_line;
  try {
    if (a.op == A_LINE_INPUT) {
      Stack s;
      eval(s, a.items[0].ex);
      if (!L.empty() && L.back() == '\n') L.pop_back();
      set_str(s, a.items[0].sym, a.items[0].params, L);
      cur.pc++;
      return;
    }
    size_t p = 0;
    for (size_t k = 0; k < a.items.size(); k++) {
      const Item& it = a.items[k];
      if (k) {
        while (p < L.size() && blank(L[p])) p++;
        if (p >= L.size() || L[p] != ',') { add(out, "* More input items are expected *\n"); st.redo++; return; }
        p++;
      }
      Stack s;
      eval(s, it.ex);
      if (syms[(size_t) it.sym].type == T_NUM) {
        double x; size_t end;
        if (!convert_num(L, p, x, end) || !(end >= L.size() || L[end] == '\n' || L[end] == ',')) {
          add(out, "* Invalid input *\n");
          st.redo++;
          return;
        }
        set_num(s, it.sym, it.params, x);
        p = end;
      }
      else {
        size_t q = p;
        while (q < L.size() && L[q] != '\n' && L[q] != ',') q++;
        set_str(s, it.sym, it.params, L.substr(p, q - p));
        p = q;
      }
    }
    while (p < L.size() && (blank(L[p]) || L[p] == '\n' || L[p] == '\r')) p++;
    if (p < L.size()) add(out, "* Extra input was discarded *\n");
    cur.pc++;
  }
  catch (RtErr&) { end_run(END_ERROR); }
}

void Model::exec(const Atom& a) {
  Stack s;
  st.atoms++;
  switch (a.op) {
    case A_LINE:
      cur.line = (int) a.line;
      if (cfg.trace_log && (err.empty() || err.back() != W_ANY)) err.push_back(W_ANY);
      if (cfg.trace) { add(out, "[" + std::to_string(code().src[a.line].first) + "]"); flush(); }
      break;
    case A_CLEAR: clear_values(); break;
    case A_CLS:
      flush();
      out.push_back(T_SYS); out.push_back(W_SOMENL); out.push_back(T_SYSEND);
      st.sys++;
      clock += cfg.sys_delay;
      if (env_system_status(cfg, sys_n++) != 0) { add(out, "\n"); out.push_back(W_SOMENL); add(out, "\n\n"); }
      col = 1;
      break;
    case A_DATA: break;
    case A_READ: {
      eval(s, a.ex);
      std::string d = read_data();
      if (syms[(size_t) a.sym].type == T_NUM) {
        double x; size_t end;
        if (!convert_num(d, 0, x, end) || end != d.size()) rterr();
        set_num(s, a.sym, a.params, x);
      }
      else set_str(s, a.sym, a.params, d);
      break;
    }
    case A_RESTORE: pdata = idata = 0; break;
    case A_RESTORE_LINE: pdata = find_line(a.line); break;
    case A_DEF: {
      auto d = std::make_shared<Def>();
      d->ex = a.ex; d->param = a.params; d->has_src = cur.which == 1; d->num = 0;
      if (d->has_src) { auto& l = prog->src[(size_t) cur.line]; d->num = l.first; d->text = l.second; }
      syms[(size_t) a.sym].def = d;
      break;
    }
    case A_DIM: {
      eval(s, a.ex);
      unsigned mx[2];
      indexes(s, mx, a.params);
      dim(a.sym, a.params, mx);
      break;
    }
    case A_FOR: {
      eval(s, a.ex);
      if (cfg.trace_for) trace_loops("FOR", true);
      size_t i = 0;
      while (i < fors.size() && fors[i].sym != a.sym) i++;
      if (i == fors.size() && i >= (size_t) MAX_LOOPS) {
        trace_loops("overflow", false);
        rterr();
      }
      if (i < fors.size()) fors.erase(fors.begin() + (long) i);
      For f;
      f.pos = cur; f.sym = a.sym;
      f.step = pop(s); f.limit = pop(s);
      fors.push_back(f);
      syms[(size_t) a.sym].num = pop(s);
      if (cfg.trace_for) trace_loops("final stack", false);
      break;
    }
    case A_NEXT_VAR: {
      if (cfg.trace_for) trace_loops("NEXT-VARIABLE", true);
      if (fors.empty()) rterr();
      size_t i = 0;
      while (i < fors.size() && fors[i].sym != a.sym) i++;
      if (i == fors.size()) rterr();
      next(i);
      return;
    }
    case A_NEXT:
      if (cfg.trace_for) trace_loops("NEXT-IMPLICIT", true);
      if (fors.empty()) rterr();
      next(fors.size() - 1);
      return;
    case A_GOTO: go_line(a.line); return;
    case A_GOTRUE:
      eval(s, a.ex);
      if (pop(s)) { go_line(a.line); return; }
      break;
    case A_GOSUB: gosub(a.line); return;
    case A_RETURN:
      if (rets.empty()) rterr();
      cur = rets.back();
      rets.pop_back();
      return;
    case A_IF_THEN: case A_IF_ELSE:
      eval(s, a.ex);
      if (!pop(s)) {
        int until = a.op == A_IF_THEN ? A_LINE : A_ELSE;
        do cur.pc++; while (!at_end() && code().at[cur.pc].op != until);
        if (a.op == A_IF_THEN) return;
      }
      break;
    case A_ELSE:
      do cur.pc++; while (!at_end() && code().at[cur.pc].op != A_LINE);
      return;
    case A_ON_GOTO: case A_ON_GOSUB: {
      eval(s, a.ex);
      double x = pop(s);
      if (x != floor(x)) rterr();
      if (x < 1 || x > (double) a.lines.size()) break;
      unsigned l = a.lines[(size_t) x - 1];
      if (a.op == A_ON_GOTO) go_line(l); else gosub(l);
      return;
    }
    case A_INPUT: case A_LINE_INPUT:
      add(out, a.str + "? ");
      flush();
      wait = WAIT_INPUT;
      return;
    case A_LET: {
      eval(s, a.ex);
      if (syms[(size_t) a.sym].type == T_NUM) { double v = pop(s); set_num(s, a.sym, a.params, v); }
      else { std::string v = pop_s(s); set_str(s, a.sym, a.params, v); }
      break;
    }
    case A_PRINT_LN: add(out, "\n"); col = 1; break;
    case A_PRINT_SPC: {
      eval(s, a.ex);
      unsigned k = pop_uns(s);
      if (pad_limit >= 0 && k > (unsigned) pad_limit) k = (unsigned) pad_limit;
      pad_limit = -1;
      if (k > 5000000) { giveup = true; k = 0; }
      out.append(k, ' ');
      col += k;
      flush();
      break;
    }
    case A_PRINT_TAB: {
      eval(s, a.ex);
      unsigned k = pop_uns(s);
      if (k < col) { add(out, "\n"); col = 1; }
      unsigned n = k > col ? k - col : 0;
      if (pad_limit >= 0 && n > (unsigned) pad_limit) n = (unsigned) pad_limit;
      pad_limit = -1;
      if (n > 5000000) { giveup = true; n = 0; }
      out.append(n, ' ');
      col += n;
      flush();
      break;
    }
    case A_PRINT_COMMA: do { add(out, " "); col++; } while (col % 8 != 1); flush(); break;
    case A_PRINT_NUM: { eval(s, a.ex); std::string t = " " + fmt(pop(s)) + " "; add(out, t); col += (unsigned) t.size(); flush(); break; }
    case A_PRINT_STR: { eval(s, a.ex); print_text(pop_s(s)); flush(); break; }
    case A_RAND: rand_seed = (uint64_t)(unsigned) clock; rand_n = 0; break;
    case A_SEED: eval(s, a.ex); rand_seed = pop_uns(s); rand_n = 0; break;
    case A_END: cur.pc = (unsigned) code().at.size(); return;
    case A_STOP: end_run(END_STOP); return;
  }
  cur.pc++;
}

size_t Model::array_elements() const {
  size_t n = 0;
  for (auto& s : syms) { if (s.na) n += s.na->v.size(); if (s.sa) n += s.sa->v.size(); }
  return n;
}

uint64_t Model::hash() const {
  Hash h;
  for (auto& l : src) { h.u64(l.first); h.str(l.second); }
  h.u64(compiled); h.u64(has_source);
  auto pos = [&](const Pos& p) { h.u64((uint64_t) p.which); h.u64(p.which ? p.pc : 0); };
  pos(stopped);
  if (wait == RUNNING || wait == WAIT_INPUT || wait == WAIT_INPUT_DISCARD) pos(cur);
  for (auto& f : fors) { pos(f.pos); h.u64((uint64_t) f.sym); h.dbl(f.step); h.dbl(f.limit); }
  for (auto& r : rets) pos(r);
  for (auto& s : syms) {
    h.u64((uint64_t) s.kind); h.dbl(s.num); h.str(s.s);
    h.u64(s.na ? 1 : 0); h.u64(s.sa ? 1 : 0);
    if (s.na) { h.u64(s.na->dim); h.u64(s.na->max[0]); h.u64(s.na->v.size()); for (size_t i = 0; i < s.na->v.size(); i++) { double d = s.na->v[i]; if (d != 0 || std::signbit(d)) { h.u64(i); h.dbl(d); } } }
    if (s.sa) { h.u64(s.sa->dim); h.u64(s.sa->max[0]); h.u64(s.sa->v.size()); for (size_t i = 0; i < s.sa->v.size(); i++) if (!s.sa->v[i].empty()) { h.u64(i); h.str(s.sa->v[i]); } }
    h.u64(s.def ? 1 : 0);
    if (s.def) { h.u64(s.def->has_src); h.u64(s.def->num); h.str(s.def->text); h.u64((uint64_t) s.def->param); for (auto& e : s.def->ex) { h.u64((uint64_t) e.op); h.u64((uint64_t) e.a); h.u64((uint64_t) e.b); h.dbl(e.num); h.str(e.str); } }
  }
  h.u64(col); h.u64(pdata); h.u64(idata); h.u64((uint64_t) wait); h.u64(listing); h.u64(to_load); h.u64(list_next); h.u64(list_count);
  h.u64((uint64_t) end_kind); h.u64(eof); h.u64(rand_seed); h.u64(rand_n); h.u64(sys_n);
  h.str(inbuf);
  return h.h;
}

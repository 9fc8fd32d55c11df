// Executable reference model of a Legacy Basic session, written from the documentation and the observed language rules.
// It is a pure state machine: bytes in, expected text out; no I/O, no real clock, no real random source.
#pragma once
#include <map>
#include <memory>
#include <ctime>
#include "util.h"

// Configuration of one life of the interpreter that the model must know about.
struct LifeCfg {
  bool quiet = true, trace = false, keywords = false, randomize = false, report_mem = false, mode_run = false;
  bool batch = false;
  bool trace_for = false, trace_log = false;
  int mode = 0;        // batch only: 'l' list, 'n' list names, 'p' parse, 'c' code; 0 run
  std::string file;
  // environment
  uint64_t env_seed = 1;
  int rand_mode = 0;   // 0 uniform, 1 with extremes
  int sys_mode = 0;    // 0 success, 1 failure, 2 mixed
  long sys_delay = 0;  // seconds the clock moves during a system command
};

// deterministic environment functions shared by world and model
unsigned env_rand(const LifeCfg&, uint64_t seed, uint64_t n);
int env_system_status(const LifeCfg&, uint64_t n);

enum Token {
  TK_ERROR = 1000, TK_EOF, TK_ID, TK_NUM, TK_STR, TK_NE, TK_LE, TK_GE,
  TK_AND, TK_CLEAR, TK_CLS, TK_DATA, TK_DEF, TK_DIM, TK_ELSE, TK_END, TK_FOR, TK_GOSUB, TK_GOTO, TK_IF, TK_INPUT,
  TK_LET, TK_LINE, TK_NEXT, TK_NOT, TK_ON, TK_OR, TK_PRINT, TK_RANDOMIZE, TK_READ, TK_REM, TK_RESTORE, TK_RETURN,
  TK_STEP, TK_STOP, TK_THEN, TK_TO
};

struct Lexer {
  std::string text;
  size_t pos = 0, token_pos = 0;
  bool anywhere = false;
  int token = 0;
  double num = 0;
  std::string word;
  bool invalid = false;
  bool complained = false; // something would be printed on stderr
  Lexer(const std::string& t, bool anywhere) : text(t), anywhere(anywhere) {}
  int next();
  bool data(std::string& out); // untyped DATA item
  void discard() { pos = token_pos = text.size(); token = '\n'; }
private:
  int ch();
  int peek();
  void back(int c);
  int scan();
};

enum Kind { K_UNKNOWN, K_VAR, K_ARRAY, K_DEF, K_BUILTIN };
enum Type { T_NUM, T_STR };

enum EOpCode { E_NUM, E_STR, E_GETN, E_GETS, E_GETP, E_POPN, E_POPS, E_BIN, E_NEG, E_NOT, E_AND, E_OR, E_CMPN, E_CMPS, E_CAT, E_FN };
struct EOp { int op; int a = 0, b = 0; double num = 0; std::string str; };
typedef std::vector<EOp> Expr;

enum AOp { A_LINE, A_CLEAR, A_CLS, A_DATA, A_READ, A_RESTORE, A_RESTORE_LINE, A_DEF, A_DIM, A_FOR, A_NEXT_VAR, A_NEXT,
  A_GOTO, A_GOTRUE, A_GOSUB, A_RETURN, A_IF_THEN, A_IF_ELSE, A_ELSE, A_ON_GOTO, A_ON_GOSUB, A_INPUT, A_LINE_INPUT, A_LET,
  A_PRINT_LN, A_PRINT_SPC, A_PRINT_TAB, A_PRINT_COMMA, A_PRINT_NUM, A_PRINT_STR, A_RAND, A_SEED, A_END, A_STOP };
struct Item { int sym = 0, params = 0; Expr ex; };
struct Atom { int op; int sym = 0, params = 0; unsigned line = 0; Expr ex; std::string str; std::vector<unsigned> lines; std::vector<Item> items; };

struct Code {
  std::vector<std::pair<unsigned, std::string>> src;
  std::vector<Atom> at;
  std::map<unsigned, unsigned> index;
  bool has_data = false;
};

struct NArr { unsigned dim; unsigned max[2]; std::vector<double> v; };
struct SArr { unsigned dim; unsigned max[2]; std::vector<std::string> v; };
struct Def { Expr ex; int param; bool has_src; unsigned num; std::string text; };
struct Sym {
  std::string name; int kind, type;
  double num = 0; std::string s;
  std::shared_ptr<NArr> na; std::shared_ptr<SArr> sa; std::shared_ptr<const Def> def;
};

struct Pos { int which = 0; int line = -1; unsigned pc = 0; }; // which: 0 none, 1 program, 2 immediate; line: index in src of the code

enum WaitKind { RUNNING, WAIT_CMD, WAIT_CMD_DISCARD, WAIT_INPUT, WAIT_INPUT_DISCARD, WAIT_PAGE, EXITED };
const char* wait_name(int);

// What the run or command just finished ended with, for the runner's treatment of interrupts.
enum EndKind { END_NONE, END_NORMAL, END_STOP, END_ERROR, END_BREAK, END_NOTRUN, END_LIST };

struct Stats { unsigned run = 0, rterr = 0, synerr = 0, stop = 0, brk = 0, cont = 0, save = 0, load = 0, input = 0, edit = 0, renum = 0, imm = 0, sys = 0, atoms = 0, refused = 0, listed = 0, fncall = 0, gosub = 0, loops = 0, data = 0, rnd = 0, timed = 0, redo = 0, toolong = 0; };

struct Model {
  LifeCfg cfg;
  // environment as seen by the model
  std::map<std::string, std::string> disk;  // expected file contents
  std::map<std::string, bool> tainted;      // content no longer predictable
  long clock = 0;
  uint64_t rand_seed = 1, rand_n = 0, sys_n = 0;
  bool io_fail = false;      // the next file operation fails (decided by the runner when a fault fired)
  bool giveup = false;       // something happened that the model cannot predict (NaN text, tainted file): stop comparing quietly

  // session state
  bool has_source = false;
  std::map<unsigned, std::string> src;
  bool compiled = false;
  std::shared_ptr<const Code> prog, imm;
  std::vector<Sym> syms;
  Pos cur, stopped;
  struct For { Pos pos; int sym; double step, limit; };
  std::vector<For> fors;
  std::vector<Pos> rets;
  unsigned col = 1;
  unsigned pdata = 0, idata = 0;

  // what the interpreter is doing
  WaitKind wait = EXITED;
  bool listing = false;
  bool to_load = false;        // a batch run whose file is still to be loaded
  unsigned list_next = 0, list_start = 0, list_end = 0, list_count = 0; bool list_page = false;
  bool is_immediate = false;   // the run in progress was started by an immediate statement
  bool discard_found = false;
  std::string input_line;
  int exit_status = 0;
  int end_kind = END_NONE;
  std::string inbuf; bool eof = false, inerr = false;

  Text out, err;        // expected since last taken
  size_t flushed = 0;   // this much of out must be visible
  int pad_limit = -1;   // for interrupted SPC and TAB
  Stats st;

  void start(const LifeCfg& c);
  void feed(const std::string& s) { inbuf += s; }
  bool pump(uint64_t max_atoms);        // true if waiting for input or exited, false if cap reached
  bool idle();                          // consume available input; true if more input is needed or exited
  void step();                          // one atom or one listed line, while RUNNING
  bool running_code() const { return wait == RUNNING && !listing && !to_load; }
  bool at_end() const { return cur.pc >= code().at.size(); }
  bool next_is_stop() const { return !at_end() && code().at[cur.pc].op == A_STOP; }
  bool next_is_pad() const { return !at_end() && (code().at[cur.pc].op == A_PRINT_SPC || code().at[cur.pc].op == A_PRINT_TAB); }
  bool next_is_input() const { return !at_end() && (code().at[cur.pc].op == A_INPUT || code().at[cur.pc].op == A_LINE_INPUT); }
  const Atom* input_atom() const { return cur.which && !at_end() && (code().at[cur.pc].op == A_INPUT || code().at[cur.pc].op == A_LINE_INPUT) ? &code().at[cur.pc] : nullptr; }
  void do_break(bool after_stop = false); // CTRL-C takes effect here
  void break_list();
  uint64_t hash() const;
  std::string program_text() const;     // as SAVE writes it
  size_t array_elements() const;

private:
  void flush() { flushed = out.size(); }
  void prompt();
  void command_line(const std::string& line);
  void command(const std::string& name, const std::string& rest);
  void immediate(const std::string& line);
  int system_cmd(const std::string& cmd);
  bool compile();
  void reset_control();
  void clear_values();
  void clear_names();
  void changed() { compiled = false; }
  bool load(const std::string& name);
  void save(const std::string& name);
  void renum(unsigned n, unsigned o, unsigned i);
  void run_program();
  void report_program();
  void trace_loops(const char* tag, bool initial);
  void begin_run();
  void end_run(int kind);
  void after_run();
  void end_session(int status);
  void exec(const Atom&);
  void list_step();
  void input_assign();
  const Code& code() const { return cur.which == 1 ? *prog : *imm; }
  struct RtErr {};
  [[noreturn]] void rterr();
  const Def* active_def = nullptr; double fn_saved = 0;

  // evaluation
  struct Stack { double n[16]; int sp = 0; std::vector<std::string> s; };
  void push(Stack&, double); double pop(Stack&); void push_s(Stack&, const std::string&); std::string pop_s(Stack&);
  const std::string& peek_s(Stack&, unsigned depth);
  unsigned pop_uns(Stack&); int pop_logic(Stack&);
  std::string fmt(double);
  void eval(Stack&, const Expr&);
  void indexes(Stack&, unsigned*, int n);
  void dim(int sym, int n, const unsigned* max);
  double* nelem(Stack&, int sym, int params);
  std::string* selem(Stack&, int sym, int params);
  void set_num(Stack&, int sym, int params, double);
  void set_str(Stack&, int sym, int params, const std::string&);
  void builtin(Stack&, int fn);
  unsigned find_line(unsigned);
  void go_line(unsigned);
  void gosub(unsigned);
  void next(size_t idx);
  std::string read_data();
  void print_text(const std::string&);
  friend struct Parser;
  int lookup(const std::string& name, bool paren) const;
  int insert(const std::string& name, int kind, int type);
};

bool convert_num(const std::string& s, size_t from, double& val, size_t& end);
bool good_file_name(const std::string&);
// parse the content of a source file as LOAD does
bool parse_file(const std::string& content, std::map<unsigned, std::string>& lines);

#include "gen.h"
#include <algorithm>
#include <climits>
#include <functional>

// ---------------------------------------------------------------- profiles

// Kinds of program block
enum Block { B_LET, B_PRINT, B_FOR, B_FOREXIT, B_NEST, B_GOSUB, B_RECURSE, B_ON, B_IF, B_DATA, B_DEF, B_DIM, B_INPUT, B_STOP, B_ERR, B_RND, B_TIME, B_CLS,
  B_CLEAR, B_TAB, B_REM, B_INF, B_LONG, B_REFS, B_STRESS, B_SYNTAX, B_STRINGS, B_CHAOS, B_MANY, B_LIMIT, B_COUNT };
// Kinds of session action
enum Act { X_PROG, X_EDIT, X_RUN, X_CONT, X_LIST, X_IMM, X_CTRL, X_SAVE, X_LOAD, X_RENUM, X_NEW, X_COMPILE, X_SYS, X_JUNK, X_PROBE, X_ERR, X_READ, X_VARS, X_RND, X_TIME,
  X_PRINT, X_INPUT, X_LISTBIG, X_CLEAR, X_DEF, X_FORI, X_TEMPLATE, X_HELP, X_CHAOS, X_COUNT };

struct Profile {
  int block[B_COUNT];
  int act[X_COUNT];
  int fault[F_COUNT];
  int min_acts, max_acts, lives;
  int fault_runs;    // percent of runs that get faults
  int max_faults;
};

static void base(Profile& p) {
  int b[B_COUNT] = {};
  b[B_LET] = 10; b[B_PRINT] = 12; b[B_FOR] = 10; b[B_FOREXIT] = 2; b[B_NEST] = 1; b[B_GOSUB] = 8; b[B_RECURSE] = 1; b[B_ON] = 4; b[B_IF] = 6; b[B_DATA] = 4; b[B_DEF] = 3;
  b[B_DIM] = 3; b[B_INPUT] = 3; b[B_STOP] = 3; b[B_ERR] = 2; b[B_RND] = 1; b[B_TIME] = 1; b[B_CLS] = 1; b[B_CLEAR] = 1; b[B_TAB] = 3; b[B_REM] = 2; b[B_INF] = 0; b[B_LONG] = 1;
  b[B_REFS] = 2; b[B_STRESS] = 1; b[B_SYNTAX] = 0; b[B_STRINGS] = 4; b[B_CHAOS] = 3; b[B_MANY] = 1; b[B_LIMIT] = 1;
  memcpy(p.block, b, sizeof b);
  int a[X_COUNT] = {};
  a[X_PROG] = 6; a[X_EDIT] = 6; a[X_RUN] = 10; a[X_CONT] = 6; a[X_LIST] = 3; a[X_IMM] = 6; a[X_CTRL] = 4; a[X_SAVE] = 2; a[X_LOAD] = 2; a[X_RENUM] = 1; a[X_NEW] = 1; a[X_COMPILE] = 1;
  a[X_SYS] = 1; a[X_JUNK] = 2; a[X_PROBE] = 6; a[X_ERR] = 3; a[X_READ] = 2; a[X_VARS] = 4; a[X_RND] = 1; a[X_TIME] = 1; a[X_PRINT] = 2; a[X_INPUT] = 1; a[X_LISTBIG] = 0; a[X_CLEAR] = 1; a[X_DEF] = 1;
  a[X_FORI] = 2; a[X_TEMPLATE] = 2; a[X_HELP] = 1; a[X_CHAOS] = 2;
  memcpy(p.act, a, sizeof a);
  memset(p.fault, 0, sizeof p.fault);
  p.min_acts = 6; p.max_acts = 24; p.lives = 1;
  p.fault_runs = 0; p.max_faults = 3;
}

static Profile profile(const std::string& id) {
  Profile p;
  base(p);
  auto ints = [&](int w) { p.fault[F_INT] = w; p.fault[F_INT_READ] = w / 3 + 1; p.fault_runs = 70; };
  auto io = [&](int w) { for (int k : { F_OPEN_FAIL, F_WRITE_FAIL, F_CLOSE_FAIL, F_READ_FAIL, F_SHORT_READ }) p.fault[k] = w; p.fault_runs = 85; };
  if (id == "C01") {
    ints(5); io(2); p.fault[F_STDIN_ERR] = 1; p.fault[F_EOF] = 1;
    p.act[X_JUNK] = 10; p.act[X_ERR] = 8; p.act[X_LOAD] = 5; p.act[X_SAVE] = 3; p.block[B_ERR] = 8; p.block[B_SYNTAX] = 4; p.block[B_INF] = 2; p.block[B_STRESS] = 3; p.max_acts = 30;
    p.act[X_HELP] = 2; p.act[X_RENUM] = 3; p.block[B_MANY] = 3;
  }
  else if (id == "C02") {
    ints(4);
    p.act[X_EDIT] = 30; p.act[X_LIST] = 15; p.act[X_LISTBIG] = 3; p.act[X_NEW] = 2; p.act[X_LOAD] = 3; p.act[X_RENUM] = 2; p.act[X_RUN] = 5; p.act[X_JUNK] = 3; p.block[B_LONG] = 4; p.block[B_SYNTAX] = 2; p.max_acts = 40;
  }
  else if (id == "C03") {
    p.block[B_CHAOS] = 5; p.act[X_CHAOS] = 5;
    ints(4);
    p.act[X_EDIT] = 20; p.act[X_RUN] = 14; p.act[X_CONT] = 14; p.act[X_CTRL] = 10; p.act[X_RENUM] = 4; p.act[X_NEW] = 3; p.act[X_LOAD] = 4; p.act[X_SAVE] = 3; p.act[X_COMPILE] = 5; p.block[B_STOP] = 10; p.block[B_SYNTAX] = 1;
    p.act[X_VARS] = 8; p.max_acts = 36; p.act[X_TEMPLATE] = 6;
  }
  else if (id == "C04") {
    ints(1); p.fault_runs = 10;
    p.act[X_RENUM] = 25; p.act[X_LIST] = 10; p.block[B_REFS] = 25; p.block[B_ON] = 10; p.block[B_IF] = 8; p.block[B_GOSUB] = 12; p.block[B_DATA] = 8; p.block[B_REM] = 6; p.act[X_EDIT] = 8; p.block[B_LONG] = 3;
  }
  else if (id == "C05") {
    io(1); p.fault[F_SHORT_READ] = 6; p.fault[F_INT] = 2; p.fault[F_KILL] = 2;
    p.act[X_SAVE] = 20; p.act[X_LOAD] = 20; p.act[X_NEW] = 4; p.act[X_LIST] = 8; p.act[X_EDIT] = 10; p.lives = 3; p.block[B_LONG] = 4; p.block[B_SYNTAX] = 2; p.block[B_REM] = 5;
  }
  else if (id == "C06") {
    io(3); p.fault[F_READ_FAIL] = 0; p.fault[F_SHORT_READ] = 0; p.fault[F_WRITE_FAIL] = 12; p.fault[F_CLOSE_FAIL] = 5; p.fault_runs = 95; p.max_faults = 5;
    p.act[X_SAVE] = 30; p.act[X_LOAD] = 6; p.act[X_LIST] = 5; p.act[X_CONT] = 8; p.act[X_VARS] = 8; p.act[X_NEW] = 1; p.block[B_STOP] = 6; p.act[X_LISTBIG] = 1;
  }
  else if (id == "C07") {
    io(3); p.fault[F_WRITE_FAIL] = 0; p.fault[F_CLOSE_FAIL] = 0; p.fault[F_READ_FAIL] = 12; p.fault_runs = 90; p.max_faults = 5;
    p.act[X_LOAD] = 30; p.act[X_SAVE] = 5; p.act[X_LIST] = 8; p.act[X_CONT] = 14; p.act[X_VARS] = 8; p.block[B_STOP] = 10;
  }
  else if (id == "C08") {
    p.fault[F_KILL] = 12; p.fault[F_WRITE_FAIL] = 1; p.fault_runs = 95; p.max_faults = 3; p.lives = 4;
    p.act[X_SAVE] = 30; p.act[X_LOAD] = 14; p.act[X_EDIT] = 10; p.act[X_LIST] = 6; p.block[B_INF] = 1; p.min_acts = 5; p.max_acts = 14;
  }
  else if (id == "C09") {
    io(3); p.fault_runs = 80; p.max_faults = 6; p.fault[F_INT] = 2;
    p.act[X_SAVE] = 30; p.act[X_LOAD] = 40; p.min_acts = 12; p.max_acts = 40; p.block[B_INPUT] = 8;
  }
  else if (id == "C10") {
    p.block[B_CHAOS] = 5;
    ints(10); p.fault_runs = 97; p.max_faults = 5;
    p.block[B_INF] = 6; p.block[B_TAB] = 6; p.block[B_INPUT] = 6; p.act[X_LISTBIG] = 3; p.act[X_LIST] = 5; p.act[X_RUN] = 16; p.act[X_FORI] = 6; p.act[X_TEMPLATE] = 4; p.block[B_STRESS] = 2; p.block[B_NEST] = 2;
  }
  else if (id == "C11") {
    p.block[B_CHAOS] = 10;
    ints(10); p.fault_runs = 97; p.max_faults = 6;
    p.block[B_INPUT] = 6; p.block[B_DEF] = 8; p.block[B_FOR] = 14; p.block[B_GOSUB] = 12; p.block[B_DATA] = 8; p.block[B_STOP] = 1; p.block[B_TAB] = 5; p.block[B_STRESS] = 2; p.block[B_ERR] = 0; p.act[X_RUN] = 20; p.act[X_PROBE] = 3; p.max_acts = 14;
    p.act[X_EDIT] = 1;
  }
  else if (id == "C12") {
    p.block[B_CHAOS] = 12; p.act[X_CHAOS] = 10;
    ints(2); p.fault_runs = 30;
    p.block[B_STOP] = 25; p.act[X_CONT] = 30; p.act[X_RUN] = 14; p.act[X_CTRL] = 6; p.act[X_VARS] = 8; p.act[X_IMM] = 8; p.act[X_EDIT] = 3; p.act[X_ERR] = 4; p.act[X_TEMPLATE] = 5; p.block[B_DATA] = 8;
  }
  else if (id == "C13") {
    p.block[B_CHAOS] = 8; p.act[X_CHAOS] = 5; p.block[B_LIMIT] = 4;
    ints(2); p.fault_runs = 30;
    p.block[B_ERR] = 20; p.act[X_ERR] = 25; p.block[B_DEF] = 8; p.block[B_STRESS] = 5; p.act[X_VARS] = 8; p.act[X_PRINT] = 4; p.act[X_DEF] = 6; p.max_acts = 36; p.act[X_CTRL] = 6; p.act[X_TEMPLATE] = 4;
  }
  else if (id == "C14") {
    p.block[B_MANY] = 3; p.block[B_STRESS] = 5;
    ints(3); io(1); p.fault_runs = 40;
    p.act[X_VARS] = 25; p.act[X_IMM] = 14; p.act[X_CLEAR] = 5; p.act[X_NEW] = 3; p.act[X_DEF] = 8; p.block[B_DEF] = 8; p.block[B_DIM] = 10; p.block[B_CLEAR] = 4; p.act[X_SAVE] = 4; p.act[X_LOAD] = 4; p.act[X_COMPILE] = 4; p.act[X_EDIT] = 8; p.act[X_TEMPLATE] = 5;
  }
  else if (id == "C15") {
    p.block[B_CHAOS] = 60; p.act[X_CHAOS] = 30;
    ints(4); p.fault_runs = 40;
    p.block[B_FOR] = 20; p.block[B_FOREXIT] = 10; p.block[B_NEST] = 8; p.block[B_GOSUB] = 16; p.block[B_RECURSE] = 8; p.block[B_STOP] = 8; p.act[X_CTRL] = 25; p.act[X_FORI] = 12; p.act[X_CONT] = 12; p.act[X_TEMPLATE] = 6;
  }
  else if (id == "C16") {
    p.block[B_CHAOS] = 8; p.act[X_CHAOS] = 6;
    ints(3); p.fault_runs = 40;
    p.block[B_DATA] = 30; p.act[X_READ] = 25; p.block[B_STOP] = 8; p.act[X_CONT] = 10; p.act[X_EDIT] = 8; p.act[X_CTRL] = 8; p.act[X_TEMPLATE] = 3; p.block[B_CLEAR] = 2;
  }
  else if (id == "C17") {
    p.fault[F_STDIN_ERR] = 6; p.fault[F_EOF] = 6; p.fault[F_INT_READ] = 2; p.fault[F_INT] = 1; p.fault_runs = 40; p.lives = 2;
    p.block[B_INPUT] = 40; p.act[X_INPUT] = 25; p.act[X_RUN] = 14; p.act[X_VARS] = 6; p.block[B_DIM] = 6;
  }
  else if (id == "C18") {
    ints(3); p.fault_runs = 35;
    p.block[B_PRINT] = 20; p.block[B_TAB] = 20; p.act[X_PRINT] = 25; p.block[B_INPUT] = 10; p.block[B_CLS] = 4; p.act[X_LISTBIG] = 2; p.act[X_ERR] = 5; p.block[B_STOP] = 6; p.lives = 2; p.block[B_STRINGS] = 8; p.act[X_INPUT] = 6;
  }
  else if (id == "C19") {
    ints(1); p.fault_runs = 20;
    p.block[B_RND] = 40; p.act[X_RND] = 40; p.lives = 3; p.fault[F_CLOCK] = 0;
  }
  else if (id == "C20") {
    p.fault[F_CLOCK] = 10; p.fault_runs = 90; p.max_faults = 8;
    p.block[B_TIME] = 25; p.block[B_RND] = 6; p.act[X_TIME] = 30; p.act[X_RND] = 8; p.block[B_INPUT] = 10; p.block[B_CLS] = 8; p.lives = 2;
  }
  else if (id == "C21") {
    p.block[B_MANY] = 6;
    p.fault[F_MALLOC_ONCE] = 5; p.fault[F_MALLOC_ALL] = 5; p.fault_runs = 98; p.max_faults = 1; p.lives = 4;
    p.min_acts = 4; p.max_acts = 12; p.block[B_INPUT] = 1; p.act[X_SAVE] = 6; p.act[X_LOAD] = 6; p.block[B_DIM] = 6; p.block[B_DEF] = 5; p.block[B_STRINGS] = 8; p.act[X_RENUM] = 4;
  }
  else if (id == "C22") {
    p.block[B_LIMIT] = 3; p.block[B_MANY] = 3;
    ints(4); io(2); p.fault[F_EOF] = 1; p.fault_runs = 50;
    p.act[X_ERR] = 12; p.block[B_ERR] = 8; p.block[B_SYNTAX] = 4; p.act[X_LOAD] = 8; p.act[X_SAVE] = 4; p.act[X_DEF] = 6; p.block[B_DEF] = 6; p.block[B_DIM] = 8; p.block[B_STRINGS] = 10; p.act[X_RENUM] = 4; p.act[X_NEW] = 3; p.act[X_COMPILE] = 3; p.act[X_JUNK] = 5;
    p.block[B_INPUT] = 6; p.max_acts = 30; p.act[X_EDIT] = 10;
  }
  else if (id == "C24") {
    ints(1); io(1); p.fault_runs = 25; p.lives = 3;
    p.block[B_INPUT] = 6; p.block[B_RND] = 4;
  }
  else if (id == "C25") {
    ints(2); p.fault_runs = 30;
    p.act[X_SYS] = 30; p.block[B_CLS] = 25; p.act[X_PRINT] = 8; p.act[X_VARS] = 4; p.block[B_TAB] = 6;
  }
  else if (id == "C28") {
    p.fault[F_READ_FAIL] = 4; p.fault[F_OPEN_FAIL] = 2; p.fault[F_SHORT_READ] = 3; p.fault[F_MALLOC_ONCE] = 2; p.fault[F_MALLOC_ALL] = 1; p.fault[F_KILL] = 1; p.fault_runs = 45; p.max_faults = 1; p.lives = 6;
    p.block[B_SYNTAX] = 2; p.block[B_LONG] = 3; p.block[B_CLS] = 4; p.block[B_INPUT] = 5; p.block[B_DEF] = 6; p.block[B_DATA] = 6; p.block[B_INF] = 2; p.block[B_MANY] = 2; p.act[X_SAVE] = 14; p.min_acts = 2; p.max_acts = 8;
  }
  return p;
}

bool known_property(const std::string& id) {
  return id.size() == 3 && id[0] == 'C' && id >= "C01" && (id <= "C25" || id == "C28");
}

// ---------------------------------------------------------------- generator

struct Gen {
  Rng r;
  Scenario sc;
  Profile p;
  Model m;
  std::vector<std::pair<int, long>> waits; // op id, model wait
  int next_id = 1;
  bool thorough;
  std::string id;
  bool dead = false;       // the model cannot be followed any further in this life
  size_t life = 0;

  Gen(const std::string& property, uint64_t seed, bool t) : r(mix64(seed) ^ mix64(std::hash<std::string>()(property))), thorough(t), id(property) {
    p = profile(property);
  }

  int weighted(const int* w, int n) {
    int sum = 0;
    for (int i = 0; i < n; i++) sum += w[i];
    int k = (int) r.below((uint64_t) sum);
    for (int i = 0; i < n; i++) { if (k < w[i]) return i; k -= w[i]; }
    return 0;
  }
  const char* one(std::initializer_list<const char*> l) { return l.begin()[r.below(l.size())]; }
  std::string num(int lo, int hi) { return std::to_string(r.range(lo, hi)); }

  // ---- expressions

  std::string nvar() { return one({ "A", "B", "C", "D", "X", "Y", "N1", "Q" }); }
  std::string loopvar() { return one({ "I", "J", "K", "L" }); }
  std::string anyn() { return r.chance(70) ? nvar() : loopvar(); }
  std::string svar() { return one({ "A$", "B$", "C$", "S1$" }); }
  std::string narr() { return one({ "M", "P" }); }
  std::string nlit() {
    switch (r.below(12)) {
      case 0: return one({ "0.5", ".25", "1.5", "1E2", "2E-1", "100000", "1234567", "65535", "65536" });
      case 1: return "0";
      default: return num(1, 12);
    }
  }
  // numbers that are long when printed
  std::string wide() { return one({ "-1.23456E-300", "-9.87654E+300", "1.23456E-45", "-123456", "-0.000123456", "-1.23456E10", "1E308*10", "-1E308*10", "-1E-320", "999999.5", "-1.23457E-99" }); }
  std::string nlit0() { return num(0, 12); }
  std::string word() {
    static const char* w[] = { "HELLO", "AB", "", "X", "the end", "10 GOTO 20", "a,b", "*", "Z9", "TO", "REM x", "  pad", "12", "3.5", "-7" };
    return w[r.below(sizeof w / sizeof *w)];
  }
  std::string slit() { return "\"" + word() + "\""; }
  std::string elem() { return narr() + "(" + (r.chance(85) ? num(0, 9) : anyn()) + ")"; }
  std::string nexpr(int d = 2) {
    if (d <= 0 || r.chance(30)) switch (r.below(6)) { case 0: case 1: return nlit(); case 2: return loopvar(); default: return nvar(); }
    switch (r.below(20)) {
      case 19: return std::string("INT(RND(") + one({ "\"\"", "\"x\"", "A$", "\"\"+A$", "1", "-1", "B$+\"\"", "" }) + ")*0)";
      case 16: return std::string(one({ "SIN", "COS", "TAN", "ATN", "EXP", "SQR", "LOG" })) + "(" + (r.chance(70) ? num(1, 5) : "ABS(" + nexpr(0) + ")+0.5") + ")";
      case 17: return r.chance(50) ? "VAL(STR$(" + nexpr(d - 1) + "))" : std::string("VAL(\"") + one({ "12", " 3.5 ", "-7", "+1E2", "1e-2", "007", ".5", "\t4" }) + "\")";
      case 18: return r.chance(50) ? "NOT " + nlit0() : "(" + num(0, 3) + "^" + num(0, 4) + ")";
      case 0: case 1: case 2: return nexpr(d - 1) + "+" + nexpr(d - 1);
      case 3: case 4: return nexpr(d - 1) + "-" + nexpr(d - 1);
      case 5: return "(" + nexpr(d - 1) + ")*" + num(0, 3);
      case 6: return "(" + nexpr(d - 1) + ")/" + num(1, 5);
      case 7: return "-" + nexpr(0);
      case 8: return "(" + nexpr(d - 1) + ")";
      case 9: return std::string(one({ "INT", "ABS", "SGN" })) + "(" + nexpr(d - 1) + ")";
      case 10: return "LEN(" + sexpr(d - 1) + ")";
      case 11: return elem();
      case 12: return "(" + nexpr(0) + one({ "<", ">", "=", "<>", "<=", ">=" }) + nexpr(0) + ")";
      case 13: return "ASC(" + slit() + ")";
      case 14: return "(" + nlit() + one({ " AND ", " OR " }) + num(0, 7) + ")";
      default: return nvar();
    }
  }
  std::string sexpr(int d = 2) {
    if (d <= 0 || r.chance(40)) return r.chance(50) ? slit() : svar();
    switch (r.below(8)) {
      case 0: return "LEFT$(" + sexpr(d - 1) + "," + num(0, 6) + ")";
      case 1: return "RIGHT$(" + sexpr(d - 1) + "," + num(0, 6) + ")";
      case 2: return "MID$(\"ABCDEF\"," + num(1, 6) + "," + num(0, 6) + ")";
      case 3: return "STR$(" + (r.chance(12) ? wide() : nexpr(d - 1)) + ")";
      case 4: return "CHR$(" + (r.chance(80) ? num(65, 90) : r.chance(80) ? num(0, 126) : std::string(one({ "0", "1", "9", "10", "32", "126", "127", "128", "200", "255" }))) + ")";
      case 5: return "T$(" + num(0, 6) + ")";
      case 6: if (r.chance(25)) return std::string("LEFT$(TIME$(") + one({ "\"\"", "0", "\"x\"", "A$", "" }) + "),0)"; [[fallthrough]];
      default: return sexpr(d - 1) + "+" + sexpr(d - 1);
    }
  }
  std::string cond() {
    if (r.chance(20)) return sexpr(1) + one({ "=", "<>", "<", ">" }) + sexpr(0);
    return nexpr(1) + one({ "<", ">", "=", "<>", "<=", ">=" }) + nexpr(1);
  }

  std::string print_list() {
    std::string s;
    int n = r.range(0, 4);
    for (int i = 0; i < n; i++) {
      switch (r.below(10)) {
        case 0: s += "TAB(" + num(0, 30) + ")"; break;
        case 1: s += "SPC(" + num(0, 9) + ")"; break;
        case 2: case 3: case 4: s += nexpr(1); break;
        case 5: case 6: s += anyn(); break;
        case 7: s += r.chance(20) ? wide() : sexpr(1); break;
        default: s += sexpr(1);
      }
      if (i + 1 < n || r.chance(35)) s += one({ ";", ",", ";", ",," });
    }
    return s;
  }
  std::string let() {
    switch (r.below(8)) {
      case 0: case 1: case 2: return (r.chance(20) ? "LET " : "") + nvar() + "=" + nexpr();
      case 3: { std::string v = nvar(); return v + "=" + v + "+1"; }
      case 4: case 5: return svar() + "=" + sexpr();
      case 6: return elem() + "=" + nexpr(1);
      default: return "T$(" + num(0, 6) + ")=" + sexpr(1);
    }
  }

  // a statement that fails at run time, usually
  std::string error_stmt() {
    switch (r.below(49)) {
      case 45: return "DIM " + std::string(one({ "T$(-1)", "T$(1.5)", "T$(70000)", "M(-1)", "P(1.5)", "M(2,LOG(-1))", "T$(LOG(0))", "M(5000000000)", "T$(1,5000000000)", "P(1E300)" }));
      case 46: return one({ "PRINT SPC(5000000000)", "PRINT TAB(4294967296)", "PRINT LEFT$(\"abc\",5000000000)", "PRINT RIGHT$(\"abc\",1E30)", "PRINT MID$(\"abc\",1,1E30)", "PRINT MID$(\"abc\",4294967297,1)", "RANDOMIZE 1E20", "RANDOMIZE 4294967296", "RANDOMIZE 1.5", "M(4294967296)=1", "PRINT M(4294967297)", "T$(1E30)=\"q\"", "A=3E9 AND 1", "A=1 OR -3E9", "PRINT CHR$(-1)", "PRINT CHR$(1E30)", "ON 4294967297 GOTO 10", "ON 1E30 GOSUB 10" });
      case 47: return one({ "PRINT SPC(1.5)", "PRINT TAB(2.5)", "PRINT LEFT$(A$,0.5)", "PRINT MID$(\"abc\",1.5,1)", "PRINT MID$(\"abc\",1,-1)", "PRINT MID$(\"abc\",4,1)", "PRINT MID$(A$,1,2)", "PRINT RIGHT$(\"abc\",-2)", "PRINT CHR$(65.5)", "PRINT SQR(4);LOG(0)", "PRINT VAL(\"1E\")", "PRINT VAL(\"--1\")", "PRINT VAL(\"1 2\")", "READ A(1,2,3)" });
      case 0: return "NEXT";
      case 1: return "NEXT Z";
      case 2: return "RETURN";
      case 3: return "GOTO 64000";
      case 4: return "GOSUB 64001";
      case 5: return "PRINT M(99)";
      case 6: return "PRINT LOG(" + num(-2, 0) + ")";
      case 7: return "PRINT CHR$(" + num(256, 300) + ")";
      case 8: return "PRINT VAL(\"X\")";
      case 9: return "A$=\"" + std::string((size_t) r.range(60, 80), 'x') + "\":A$=A$+A$:A$=A$+A$";
      case 10: { std::string s = "PRINT "; int n = r.range(13, 18); for (int i = 0; i < n; i++) s += "1+("; s += "1"; for (int i = 0; i < n; i++) s += ")"; return s; }
      case 11: return "PRINT FNZ(1)";
      case 12: return "M(1,2,3)=1";
      case 13: return "DIM M(70000)";
      case 14: return "DIM M(4294967295)";
      case 15: return "DIM P(300,300)";
      case 16: return "ON 1.5 GOTO 10";
      case 17: return "PRINT MID$(\"abc\",0,1)";
      case 18: return "RESTORE 64002";
      case 19: return "PRINT TAB(-1)";
      case 20: return "A=NOT 1.5";
      case 21: return "RANDOMIZE -1";
      case 22: return "PRINT LEFT$(\"abc\",-1)";
      case 23: return "PRINT RIGHT$(A$,1.5)";
      case 24: { std::string s = "A$="; int n = r.range(6, 10); for (int i = 0; i < n; i++) s += "\"a\"+("; s += "\"b\""; for (int i = 0; i < n; i++) s += ")"; return s; }
      case 25: return "DEF FNE(X)=LOG(X-9):PRINT 1+FNE(" + num(1, 12) + ")";
      case 26: return "DEF FNE(X)=FNE(X):PRINT FNE(1)";
      case 27: return "DEF FNG$(X)=LEFT$(\"abc\",X)+CHR$(X+300):PRINT \"q\"+FNG$(2)";
      case 28: return "PRINT \"a\"+MID$(\"abc\",9,1)";
      case 29: return "PRINT M(-1)";
      case 30: return "M(1.5)=2";
      case 31: return "A=1:M(1)=2:M(A,A)=3";
      case 32: return "ON 1 GOTO 64003";
      case 33: return "ON 1 GOSUB 64004";
      case 34: return "PRINT 1+(2*(3+VAL(\"y\")))";
      case 35: return "IF 1 THEN GOTO 64005";
      case 36: return "T$(1)=\"a\"+CHR$(999)";
      case 37: return "PRINT SPC(-2)";
      case 38: return "READ M(99)";
      case 39: return "FOR A=1 TO LOG(-1)";
      case 40: return "PRINT NOT 3000000000";
      case 41: return "PRINT (1 AND 1.5)";
      case 42: return "T$(11)=\"x\"";
      case 43: return "PRINT FNA(1,2)";
      case 44: return "PRINT FNA(FNA(1))";
      default: return "PRINT VAL(\"\");VAL(\"12x\")";
    }
  }

  // names that a table of names finds hard to tell apart, some of them at least
  std::vector<std::string> alike(int n) {
    std::vector<std::string> v;
    std::set<std::string> seen;
    auto hash = [](const std::string& x, unsigned size) { unsigned h = 0; for (char c : x) { h = (h << 4) + (unsigned) (unsigned char) c; unsigned g = h & 0xf0000000; if (g) { h ^= g >> 24; h ^= g; } } return h % size; };
    std::map<unsigned, std::vector<std::string>> bucket;
    for (int i = 0; i < 3000; i++) {
      std::string x(1, (char) r.range('A', 'Z'));
      x += (char) (r.chance(50) ? r.range('0', '9') : r.range('P', 'Z'));
      if (r.chance(70)) x += (char) r.range('0', '9');
      if (x == "TO" || x.substr(0, 2) == "OR" || x.substr(0, 2) == "FN" || !seen.insert(x).second) continue;
      bucket[hash(x, 293)].push_back(x);
    }
    while ((int) v.size() < n) {
      auto it = bucket.begin();
      std::advance(it, (long) r.below(bucket.size()));
      for (int k = r.range(1, 6); k > 0 && !it->second.empty(); k--) { v.push_back(it->second.back()); it->second.pop_back(); }
    }
    v.resize((size_t) n);
    for (size_t i = v.size(); i > 1; i--) if (r.chance(50)) std::swap(v[i - 1], v[r.below(i)]);
    return v;
  }

  // a statement with one of its words left out, doubled, changed or two exchanged: wrong, usually
  std::string mangled(const std::string& s) {
    std::vector<std::string> t;
    for (size_t i = 0; i < s.size();) {
      size_t j = i + 1;
      if (s[i] == '"') { j = s.find('"', i + 1); j = j == std::string::npos ? s.size() : j + 1; }
      else if (isalnum((unsigned char) s[i])) while (j < s.size() && (isalnum((unsigned char) s[j]) || s[j] == '$')) j++;
      else if (s[i] == ' ') while (j < s.size() && s[j] == ' ') j++;
      t.push_back(s.substr(i, j - i));
      i = j;
    }
    for (int n = r.chance(75) ? 1 : 2; n > 0 && !t.empty(); n--) {
      size_t k = r.below(t.size());
      if (t[k] == " ") k = r.below(t.size());
      switch (r.below(6)) {
        case 0: case 1: t.erase(t.begin() + (long) k); break;
        case 2: t.insert(t.begin() + (long) k, t[k]); break;
        case 3: std::swap(t[k], t[r.below(t.size())]); break;
        case 4: t[k] = one({ "(", ")", ",", ";", ":", "=", "<>", "+", "-", "-", "^", " AND ", " NOT ", " THEN ", " ELSE ", " TO ", "A", "A$", "5", "\"s\"", "M(1)", "T$(1)", "FNA(1)", "0", "70000", "1.5", "ABS", "RND", " GOTO ", " PRINT " }); break;
        default: t.insert(t.begin() + (long) k, one({ "(", ")", ",", ";", ":", "=", "+", "-", "\"", " ELSE ", " ELSE PRINT 9", " THEN ", "A", "B$", "7", " NOT ", " OR " }));
      }
    }
    std::string o;
    for (auto& x : t) o += x;
    if (o.size() > 110) o.resize(110);
    return o.empty() || isdigit((unsigned char) o[0]) || o[0] == '*' || o[0] == ' ' ? "ELSE" : o;
  }

  std::string syntax_err() {
    if (r.chance(40)) switch (r.below(8)) {
      case 0: return simple() + " ELSE " + simple();
      case 1: return "IF " + cond() + " THEN " + simple() + " ELSE " + simple() + " ELSE " + simple();
      case 2: return "IF " + cond() + " THEN 10 ELSE 20 ELSE 30";
      case 3: return "IF " + cond() + " THEN " + let() + " ELSE 20";
      case 4: return mangled("DEF FN" + std::string(r.chance(50) ? "A(X)=" + nexpr(1) : "B$(X)=" + sexpr(1)));
      case 5: return mangled("IF " + cond() + " THEN " + simple() + " ELSE " + simple());
      case 6: return mangled(one({ "FOR I=1 TO 3 STEP 2:NEXT I", "READ A,B$:DATA 1,x", "DIM M(5),T$(2,3)", "ON A+1 GOSUB 10,20,30", "LINE INPUT \"x\";A$", "INPUT \"x\";A,M(1)", "PRINT TAB(5);A;SPC(2),B$", "RESTORE 20", "NEXT I,J", "RANDOMIZE 5", "LET A=MID$(A$,1,2)", "GOTO 10", "? A", "DATA 1,\"x\" , y" }));
      default: return mangled(simple());
    }
    return one({ "PRINT (1", "FOR I=1", "GOTO", "GOTO X", "IF A THEN", "LET", "A=", "A$=1", "B=\"x\"", "PRINT 1+\"a\"", "DIM", "NEXT 5", "ON A", "ELSE", "READ 5", "INPUT \"x\"", "DATA \"abc", "DEF A", "DEF FNA(X$)=1",
      "PRINT @", "XYZZY", "RUN 10", "1+2", "FOR A$=1 TO 2", "PRINT ABS", "ABS(1)=2", "PRINT MID$(A$,1)", "PRINT 1 2 \"", "GOSUB 70000", "RESTORE 0", "LINE A$", "LINE INPUT X", "A(1=2", "X(1)=2:DEF X(Y)=1", "IF 1 THEN 10 ELSE PRINT 2",
      "PRINT USR(1)", "A=RND(1)(2)", "PRINT LEN(5)", "NOT", "PRINT -\"a\"", "PRINT \"a\"^2", "THEN", "TO", "STEP 3", ")", "PRINT LEFT$(1,2)", "TIME$=1",
      "DEF FNA(X)=\"a\"", "DEF FNA(X)=X:DEF FNB$(X)=X+1", "DEF FNC(X)=A$+STR$(X)", "IF A$ THEN PRINT 1", "PRINT A$ AND 1", "PRINT NOT A$", "PRINT A$*2", "FOR I=A$ TO 2", "FOR I=1 TO A$", "FOR I=1 TO 2 STEP \"1\"", "ON A$ GOTO 10", "PRINT TAB(A$)", "PRINT M(A$)", "DIM M(A$)", "RANDOMIZE A$", "READ A;B", "NEXT I,J,", "DIM M", "DIM A$", "READ A(", "INPUT A,", "LET A$=B", "A$=M(1)", "M(1)=A$", "T$(1)=5", "PRINT CHR$(A$)", "PRINT LEFT$(A$,B$)", "PRINT MID$(1,2,3)", "PRINT VAL(5)", "PRINT STR$(A$)", "DEF FNA(M(1))=2", "NEXT M(1)", "FOR M(1)=1 TO 2", "LINE INPUT A", "LINE INPUT A$,B$", "PRINT A$<1", "PRINT 1=\"1\"", "PRINT 2^\"a\"", "GOTO 1.5", "GOTO 0", "GOTO 65536", "IF 1 THEN 0", "ON 1 GOTO 10,", "ON 1 GOTO 10,0", "ON 1 GOSUB", "RESTORE X", "ON 1 RESTORE 10", "IF 1 GOTO 10", "DEF X(Y)=1:DIM X(3)", "DIM Y(3):DEF Y(X)=1", "PRINT FIX(1)", "A$(1)=1:A(1)=2", "RND=1", "DIM LEN(3)", "READ RND" });
  }

  // ---- programs: lines with labels @n@ for line numbers

  std::vector<std::string> lines, tail;
  std::map<int, int> label;   // label -> index in lines (tail: -1 - index)
  int labels = 0;
  int depth = 0;
  bool in_tail = false;
  int budget = 0;

  std::string ref(int l) { return "@" + std::to_string(l) + "@"; }
  void line(const std::string& s) { (in_tail ? tail : lines).push_back(s); }
  int here(int l = -1) { if (l < 0) l = labels++; label[l] = in_tail ? -1 - (int) tail.size() : (int) lines.size(); return l; }

  std::string simple() {
    switch (r.below(4)) { case 0: return "PRINT " + print_list(); case 1: return "PRINT \"" + std::string(1, (char) r.range('a', 'z')) + "\";"; default: return let(); }
  }

  // a control statement that need not fit what surrounds it; target() gives a line number
  std::string wild_stmt(const std::function<std::string()>& target, bool stop) {
    static const char* vars[] = { "I", "J", "K", "L", "I", "J", "K", "E1", "A", "E2" };
    auto v = [&]() { return std::string(vars[r.below(10)]); };
    switch (r.below(stop ? 30 : 28)) {
      case 0: case 1: case 2: case 3: case 4: case 5: case 6: {
        int a = r.range(0, 4), b = a + r.range(-1, 3);
        std::string s = "FOR " + v() + "=" + std::to_string(a) + " TO " + std::to_string(b);
        if (r.chance(25)) s += std::string(" STEP ") + one({ "2", "-1", "0.5", "1" });
        return s;
      }
      case 7: case 8: case 9: return "NEXT";
      case 10: case 11: case 12: case 13: return "NEXT " + v();
      case 14: return "NEXT " + v() + "," + v() + (r.chance(30) ? "," + v() : "");
      case 15: case 16: return "GOSUB " + target();
      case 17: case 18: return "RETURN";
      case 19: return "GOTO " + target();
      case 20: return "IF " + v() + "<" + num(1, 4) + " THEN " + target() + (r.chance(30) ? " ELSE " + target() : "");
      case 21: return "ON " + v() + (r.chance(50) ? " GOSUB " : " GOTO ") + target() + "," + target();
      case 22: return "PRINT I;J;K;";
      case 23: return "PRINT \"" + std::string(1, (char) r.range('a', 'z')) + "\";A;L;E1";
      case 24: return v() + "=" + v() + one({ "+1", "-1", "*2" });
      case 25: return "READ " + v();
      case 26: return "RESTORE" + (r.chance(40) ? " " + target() : "");
      case 27: return "PRINT \".\";";
      default: return "STOP";
    }
  }
  int loop_level = 0;

  void block() {
    if (--budget < 0) { line(simple()); return; }
    int k = weighted(p.block, B_COUNT);
    if (depth > 2 && (k == B_FOR || k == B_GOSUB || k == B_FOREXIT || k == B_NEST || k == B_RECURSE || k == B_INF)) k = B_PRINT;
    switch (k) {
      case B_LET: { std::string s = let(); while (r.chance(25)) s += ":" + let(); line(s); break; }
      case B_PRINT: line((r.chance(10) ? "? " : "PRINT ") + print_list()); break;
      case B_FOR: {
        static const char* lv[] = { "I", "J", "K", "L" };
        std::string v = r.chance(90) ? lv[loop_level % 4] : nvar();
        int a = r.range(1, 5), n = r.range(0, 4);
        std::string h;
        switch (r.below(8)) {
          case 0: h = num(a, a) + " TO " + num(a - n, a - n) + " STEP -1"; break;
          case 1: h = num(a, a) + " TO " + num(a + n, a + n) + " STEP " + one({ "2", "0.5", "3" }); break;
          case 2: h = num(a + 1, a + 1) + " TO " + num(a, a); break;
          default: h = num(a, a) + " TO " + num(a + n, a + n);
        }
        loop_level++; depth++;
        if (r.chance(30)) line("FOR " + v + "=" + h + ":" + simple() + ":PRINT " + v + ";:NEXT" + (r.chance(50) ? " " + v : ""));
        else {
          line("FOR " + v + "=" + h);
          int c = r.range(1, 2);
          while (c--) block();
          if (r.chance(50)) line("PRINT " + v + ";");
          line("NEXT" + (r.chance(60) ? " " + v : ""));
        }
        loop_level--; depth--;
        break;
      }
      case B_FOREXIT: {
        int out = labels++, top = labels++;
        std::string c = one({ "C", "D" });
        line(c + "=0");
        here(top);
        line(c + "=" + c + "+1");
        static const char* lv[] = { "I", "J", "K", "L" };
        line("FOR " + std::string(lv[loop_level % 4]) + "=1 TO 5");
        line("IF " + std::string(lv[loop_level % 4]) + "=" + num(1, 6) + " THEN " + ref(out));
        line("NEXT");
        here(out);
        line("IF " + c + "<" + num(2, 12) + " THEN " + ref(top));
        break;
      }
      case B_NEST: {
        static const char* v[] = { "E1", "E2", "E3", "E4", "E5", "E6", "E7", "E8", "E9", "E0" };
        int n = r.range(6, 9);
        std::string s;
        for (int i = 0; i < n; i++) s += std::string(i ? ":" : "") + "FOR " + v[i] + "=1 TO " + (i < 2 ? "2" : "1");
        line(s);
        line("PRINT \"N\";");
        s.clear();
        for (int i = n - 1; i >= 0; i--) s += (s.empty() ? "NEXT " : r.chance(50) ? "," : ":NEXT ") + std::string(v[i]);
        // a mixture of "NEXT A,B" and "NEXT A:NEXT B"
        line(s);
        break;
      }
      case B_GOSUB: {
        int l = labels++;
        line((r.chance(70) ? "" : let() + ":") + "GOSUB " + ref(l) + (r.chance(40) ? ":" + simple() : ""));
        if (!in_tail) {
          in_tail = true; depth++;
          here(l);
          if (r.chance(50)) line("PRINT \"(\";");
          int c = r.range(1, 2);
          while (c--) block();
          line(r.chance(50) ? "RETURN" : "PRINT \")\":RETURN");
          depth--; in_tail = false;
        }
        else { here(l); line("PRINT \".\";"); }
        break;
      }
      case B_RECURSE: {
        if (in_tail) { line(simple()); break; }
        int l = labels++;
        line("D=0:GOSUB " + ref(l) + ":PRINT D");
        in_tail = true;
        here(l);
        line("D=D+1");
        line("PRINT \"d\";D;");
        line("IF D<" + num(3, 9) + " THEN GOSUB " + ref(l));
        line("RETURN");
        in_tail = false;
        break;
      }
      case B_ON: {
        int n = r.range(2, 4);
        std::vector<int> t;
        int out = labels++;
        bool sub = r.chance(50) && !in_tail;
        std::string s = "ON " + (r.chance(50) ? num(0, n + 1) : nvar()) + (sub ? " GOSUB " : " GOTO ");
        for (int i = 0; i < n; i++) { t.push_back(labels++); s += (i ? "," : "") + ref(t.back()); }
        line(s);
        if (sub) {
          in_tail = true;
          for (int i = 0; i < n; i++) { here(t[(size_t) i]); line("PRINT \"S" + std::to_string(i) + "\";:RETURN"); }
          in_tail = false;
        }
        else {
          line("PRINT \"none\";:GOTO " + ref(out));
          for (int i = 0; i < n; i++) { here(t[(size_t) i]); line("PRINT \"T" + std::to_string(i) + "\";" + (i + 1 < n && r.chance(60) ? ":GOTO " + ref(out) : "")); }
        }
        here(out);
        line("PRINT");
        break;
      }
      case B_IF: {
        int out = labels++, alt = labels++;
        switch (r.below(6)) {
          case 0: line("IF " + cond() + " THEN " + simple()); break;
          case 1: line("IF " + cond() + " THEN " + simple() + " ELSE " + simple()); break;
          case 2: line("IF " + cond() + " THEN " + ref(out)); line(simple()); break;
          case 3: line("IF " + cond() + " THEN " + ref(out) + " ELSE " + ref(alt)); line("PRINT \"never\""); here(alt); line("PRINT \"alt\""); break;
          case 4: line("IF " + cond() + " THEN GOTO " + ref(out) + " ELSE " + simple() + ":" + simple()); break;
          default: line("IF " + cond() + " THEN IF " + cond() + " THEN PRINT \"y\" ELSE PRINT \"n\"");
        }
        here(out);
        line("PRINT \"f\";");
        break;
      }
      case B_DATA: {
        int n = r.range(1, 4);
        int l = labels++;
        bool before = r.chance(30);
        std::string d = "DATA ";
        std::string rd;
        for (int i = 0; i < n; i++) {
          bool s = r.chance(40);
          d += std::string(i ? "," : "") + (s ? (r.chance(50) ? "\"" + std::string(one({ "q,r", "GOTO 10", "", "x y", " p ", "a:b" })) + "\"" : one({ "abc", "THEN 10", "red", "a b", "", "tail  ", "  lead", "in  side ", "REM no", "t\t", "\tz" })) : r.chance(80) ? num(-5, 99) : one({ "1.5", "1E2", "+3", " 4 ", "-.5", ".25", "5\t", "007", "1E400" }));
          if (r.chance(8)) d += one({ " ", "\t" });
          rd += (i ? "," : "") + (s ? svar() : r.chance(80) ? nvar() : elem());
        }
        if (r.chance(25)) d += ",7,8";
        if (before) { here(l); line(d); }
        switch (r.below(5)) {
          case 0: line("READ " + rd); line("PRINT " + nvar() + ";" + svar() + ";\"|\""); break;
          case 1: { std::string v = svar(); line("RESTORE"); line("READ " + v); line("PRINT \"<\";" + v + ";\">\""); break; }
          case 2: line("RESTORE " + ref(l)); line("READ " + rd); break;
          case 3: line("FOR L=1 TO " + num(1, 3) + ":READ B$:PRINT B$;\"/\";:NEXT L"); break;
          default: line("READ " + rd + ":PRINT " + nvar());
        }
        if (!before) { bool t = in_tail; if (r.chance(60)) in_tail = true; here(l); line(d); in_tail = t; }
        break;
      }
      case B_DEF: {
        std::string par = one({ "X", "A", "I" });
        switch (r.below(8)) {
          case 6: line("DEF FNB$(X)=" + std::string(r.chance(50) ? "\"\"+" : "") + sexpr(1) + one({ "+\"\"", "", "+\"\"+\"\"", "+STR$(X)+\"\"" })); line("PRINT FNB$(1);FNB$(2);LEN(FNB$(3))"); if (r.chance(30)) line("DEF FNB$(X)=\"\":PRINT FNB$(1);\".\""); break;
          case 7: line("DEF FNA(X)=LEN(\"\")+" + nexpr(1) + ":PRINT FNA(1)"); break;
          case 0: line("DEF FNA(" + par + ")=" + par + "*" + num(2, 4) + "+" + nvar()); line("PRINT FNA(" + nexpr(1) + ");" + par); break;
          case 1: line("DEF FNB$(" + par + ")=LEFT$(\"ABCDEFG\"," + par + ")+" + svar()); line("PRINT FNB$(" + num(0, 7) + ")"); break;
          case 2: line("DEF FNA(" + par + ")=" + nexpr(2)); line("A=FNA(" + num(0, 5) + ")+FNA(" + num(0, 5) + "):PRINT A;" + par); break;
          case 3: line("DEF FNC(X)=M(X):PRINT FNC(" + num(0, 12) + ")"); break;
          case 4: line("DEF FNA(X)=LEN(" + sexpr(2) + ")+X"); line("PRINT FNA(FNA(1)*0+2)"); break;
          default: line("DEF FNA(X)=X+1:DEF FNA(X)=X+2:PRINT FNA(1);FNA(2)");
        }
        break;
      }
      case B_DIM:
        if (r.chance(15)) { // tables of all shapes, looked at in their corners
          int a = 0, b = 0;
          switch (r.below(7)) {
            case 0: a = r.range(100, 255); b = 65536 / (a + 1) - 1; break;
            case 1: a = r.range(1, 300); b = 0; break;
            case 2: a = 0; b = r.range(1, 300); break;
            case 3: a = one({ "1", "3", "7" })[0] - '0'; b = 65536 / (a + 1) - 1; if (r.chance(50)) std::swap(a, b); break;
            case 4: a = r.range(10, 200); b = r.range(10, 200); break;
            case 5: a = r.range(200, 260); b = r.range(240, 260); break;
            default: a = r.range(0, 30); b = r.range(0, 30);
          }
          std::string n = r.chance(70) ? "R" : "U$", x = std::to_string(a), y = std::to_string(b), v1 = n == "R" ? "1" : "\"p\"", v2 = n == "R" ? "2" : "\"q\"";
          std::string c = std::to_string(r.range(0, a)), d = std::to_string(r.range(0, b));
          line("DIM " + n + "(" + x + "," + y + "),E(9)");
          line(n + "(" + x + "," + y + ")=" + v1 + ":" + n + "(" + c + "," + d + ")=" + v2);
          line(n + "(0," + y + ")=" + v2 + ":" + n + "(" + x + ",0)=" + v1 + ":E(0)=3");
          line("PRINT " + n + "(0,0);" + n + "(" + c + "," + d + ");" + n + "(0," + y + ");" + n + "(" + x + ",0);" + n + "(" + x + "," + y + ");E(0);E(9)");
          if ((a + 1) * (b + 1) < 500 && n == "R") line("N=0:FOR I=0 TO " + x + ":FOR J=0 TO " + y + ":N=N*2+R(I,J):R(I,J)=N:NEXT:NEXT:PRINT N;R(0,0);R(" + c + "," + d + ");R(" + x + ",0)");
          break;
        }
        switch (r.below(6)) {
          case 0: line("DIM M(" + num(1, 20) + ")"); line("M(" + num(0, 10) + ")=" + nexpr(1)); break;
          case 1: line("DIM P(" + num(3, 12) + "),T$(" + num(4, 9) + ")"); break;
          case 2: line("DIM R(" + num(1, 4) + "," + num(1, 4) + ")"); line("R(1,1)=" + nexpr(1) + ":R(0,1)=2:PRINT R(1,1);R(0,0);R(0,1);R(1,0)"); break;
          case 3: line("FOR K=0 TO 4:M(K)=K*K:NEXT K"); line("PRINT M(2);M(3);M(4)"); break;
          case 4: line("T$(2)=" + sexpr(1) + ":PRINT T$(2);T$(3)"); break;
          default: line("DIM U$(2,2):U$(1,2)=\"u\":PRINT U$(1,2);U$(2,1);\".\"");
        }
        break;
      case B_INPUT:
        switch (r.below(10)) {
          case 8: line(one({ "INPUT A$,B$,C$", "INPUT A$,B$", "INPUT \"p\";T$(1),A$,T$(2)", "INPUT A$,A,B$,B" })); if (r.chance(70)) line("PRINT \"<\";A$;\"|\";B$;\"|\";C$;\">\";A;B"); break;
          case 0: line("INPUT " + nvar()); break;
          case 1: line("INPUT " + svar()); break;
          case 2: line("INPUT \"" + std::string(one({ "name", "Value", "" })) + "\";" + svar() + "," + nvar()); break;
          case 3: line("LINE INPUT " + svar()); break;
          case 4: line("LINE INPUT \"text\";T$(" + num(0, 5) + ")"); break;
          case 5: line("I=" + num(0, 3) + ":INPUT I,M(I)"); break;
          case 6: line("INPUT M(" + num(0, 12) + "),A$"); break;
          default: line("INPUT A,B,C");
        }
        if (r.chance(80)) line("PRINT A;B;A$;\"|\";" + svar() + ";M(1)");
        break;
      case B_STOP:
        switch (r.below(5)) {
          case 0: case 1: line("STOP"); break;
          case 2: line("PRINT \"s\":STOP:PRINT \"t\""); break;
          case 3: line("IF " + cond() + " THEN STOP ELSE PRINT \"u\""); break;
          default: line("PRINT \"v\";:STOP");
        }
        break;
      case B_ERR:
        if (r.chance(30)) {
          // an error after something on the same line that went to another line and came back
          std::string e = r.chance(80) ? error_stmt() : r.chance(50) ? "STOP" : "IF " + cond() + " THEN STOP ELSE " + error_stmt();
          switch (r.below(5)) {
            case 0: line("DEF FNA(X)=X+1"); line(std::string(one({ "PRINT FNA(1)", "A=FNA(2)+FNA(3)", "IF FNA(1)>1 THEN PRINT FNA(2)", "PRINT FNA(1);:A=A+1" })) + ":" + e); break;
            case 1: { int l = labels++; line("GOSUB " + ref(l) + ":" + e); bool t = in_tail; in_tail = true; here(l); line("PRINT \"(\";"); line("RETURN"); in_tail = t; break; }
            case 2: line("FOR L=1 TO " + num(1, 3) + ":PRINT L;"); line("NEXT L:" + e); break;
            case 3: line("STOP:" + e); break;
            default: line("INPUT A:" + e);
          }
          break;
        }
        if (r.chance(40)) line("IF " + cond() + " THEN " + error_stmt());
        else line((r.chance(30) ? simple() + ":" : "") + error_stmt());
        break;
      case B_RND:
        switch (r.below(8)) {
          case 0: line("RANDOMIZE " + num(0, 20)); break;
          case 1: line("FOR L=1 TO " + num(2, 20) + ":X=RND(1):IF X<0 THEN PRINT \"low\""); line("IF X>=1 THEN PRINT \"high\";X"); line("PRINT X;:NEXT L"); break;
          case 2: line("PRINT INT(RND(1)*6)+1"); break;
          case 3: line("PRINT RND;RND(0);RND(\"a\");RND()"); break;
          case 4: line("RANDOMIZE"); break;
          case 5: line("FOR L=1 TO 30:IF RND(1)=1 THEN PRINT \"one\""); line("NEXT L"); break;
          case 6: line("PRINT INT(RND(1)*1000000)"); break;
          default: line("PRINT RND(-1),RND(1)");
        }
        break;
      case B_TIME: line(one({ "PRINT TIME$", "A$=TIME$:PRINT A$;\" \";TIME$", "PRINT LEFT$(TIME$,2);MID$(TIME$,4,2);RIGHT$(TIME$,2)", "PRINT LEN(TIME$)", "PRINT TIME$:CLS:PRINT TIME$", "PRINT TIME$(0);TIME$()" })); break;
      case B_CLS: line(one({ "CLS", "PRINT \"x\";:CLS:PRINT \"y\"", "PRINT TAB(5);:CLS:PRINT TAB(5);\"z\"", "CLS:CLS", "PRINT 1,:CLS:PRINT ,2" })); break;
      case B_CLEAR: line("CLEAR"); break;
      case B_TAB:
        switch (r.below(11)) {
          case 0: line("PRINT TAB(" + num(0, 40) + ");\"x\";TAB(" + num(0, 40) + ");\"y\""); break;
          case 1: line("PRINT SPC(" + num(0, 20) + ");" + nvar() + ",\"z\""); break;
          case 2: line("PRINT 1,2,3,\"abcdefgh\",4"); break;
          case 3: line("PRINT \"abc\",;"); break;
          case 4: line("PRINT CHR$(10);\"n\";TAB(4);\"m\""); break;
          case 5:
            if (r.chance(6)) { // columns near the limits of narrower numbers
              const int edge = r.chance(50) ? 65536 : r.chance(50) ? 32768 : 70000;
              line("PRINT " + std::string(one({ "SPC(", "TAB(" })) + num(edge - 4, edge + 4) + ");" + one({ "", "\"ab\";", "1,", "," }) + "TAB(" + (r.chance(60) ? num(0, 40) : num(edge - 4, edge + 20)) + ");\"|\"");
            }
            else
              line("PRINT SPC(" + num(100, 3000) + ");\"|\"");
            break;
          case 10: line("PRINT SPC(" + num(250, 258) + ");TAB(" + num(0, 265) + ");\"|\""); break;
          case 6: line("PRINT TAB(" + num(100, 2000) + ");\"|\""); break;
          case 7: line("PRINT " + nexpr(1) + ";TAB(10);" + sexpr(1) + ";"); break;
          case 8: line("PRINT \"abcdefghij\";TAB(3);\"k\""); break;
          default: line("PRINT ,," + slit() + ",");
        }
        break;
      case B_REM: line(one({ "REM", "REM plain comment", "REM GOTO 10 THEN 20", "REM \"unbalanced", "REM DATA 1,2", "PRINT \"r\":REM tail : PRINT 5", "REM it's 100% @ home", "DATA 5,\"GOTO 10\",THEN 20" })); break;
      case B_INF: {
        int l = labels++;
        switch (r.below(7)) {
          case 0: line("N=0"); here(l); line("N=N+1:PRINT N;"); line("GOTO " + ref(l)); break;
          case 1: here(l); line("N=N+1:PRINT N"); line("GOTO " + ref(l)); break;
          case 2: line("N=0"); here(l); line("N=N+1"); line("IF N-INT(N/5)*5=0 THEN PRINT N;"); line("GOTO " + ref(l)); break;
          case 3: here(l); line("N=N+1:PRINT N;:GOSUB " + ref(labels)); line("GOTO " + ref(l)); here(labels++); line("PRINT \"g\":RETURN"); break;
          case 4: line("FOR N=1 TO 100000:PRINT N;:NEXT N"); break;
          case 5: line("DEF FNA(X)=X+1"); here(l); line("N=FNA(N):PRINT N;FNA(N),"); line("GOTO " + ref(l)); break;
          default: here(l); line("N=N+1:A$=STR$(N):PRINT A$;TAB(20);LEFT$(A$,1)"); line("GOTO " + ref(l));
        }
        break;
      }
      case B_LONG: {
        size_t n = (size_t) r.range(90, 118);
        std::string s;
        switch (r.below(3)) {
          case 0: s = "REM "; while (s.size() < n) s += (char) r.range('a', 'z'); break;
          case 1: s = "PRINT \""; while (s.size() < n) s += (char) r.range('a', 'z'); s += "\""; break;
          default: s = "PRINT 1"; while (s.size() + 2 < n) s += one({ ";2", ";3", ";4" });
        }
        line(s);
        break;
      }
      case B_REFS: {
        int a = labels++, b = labels++, c = labels++;
        switch (r.below(8)) {
          case 0: line("IF Q=0 THEN GOTO " + ref(a) + " ELSE GOTO " + ref(b)); break;
          case 1: line("IF Q=0 THEN " + ref(a) + " ELSE " + ref(b)); break;
          case 2: line("ON Q+1 GOTO " + ref(a) + "," + ref(b) + ", " + ref(c) + "," + ref(a)); break;
          case 3: line("RESTORE " + ref(a) + ":READ B$:PRINT B$:GOTO " + ref(b)); break;
          case 4: line("IF Q=1 THEN GOSUB " + ref(a) + ":PRINT \"x\" ELSE GOTO " + ref(b)); break;
          case 5: line("PRINT \"GOTO 10\":GOTO " + ref(c)); break;
          case 6: line("if q=0 then goto " + ref(b) + " else restore " + ref(a)); break;
          default: line("IF Q=0 THEN RESTORE " + ref(a) + " ELSE RESTORE " + ref(c));
        }
        here(a); line("PRINT \"a\";");
        here(b); line("DATA " + num(1, 9) + "," + num(10, 99));
        here(c); line("PRINT \"c\";Q;");
        break;
      }
      case B_STRESS:
        switch (r.below(4)) {
          case 0: { std::string s = "PRINT "; int n = r.range(10, 15); for (int i = 0; i < n; i++) s += "1+("; s += "1"; for (int i = 0; i < n; i++) s += ")"; line(s); break; }
          case 1: { std::string s = "PRINT "; int n = r.range(4, 8); for (int i = 0; i < n; i++) s += "\"a\"+("; s += "\"b\""; for (int i = 0; i < n; i++) s += ")"; line(s); break; }
          case 2: line("B$=\"" + std::string((size_t) r.range(50, 64), 'y') + "\":B$=B$+B$:B$=B$+B$:PRINT LEN(B$)"); break;
          default: line("DIM M(" + std::string(one({ "65535", "65536", "1000" })) + "):M(1000)=5:PRINT M(1000)");
        }
        break;
      case B_SYNTAX:
        if (r.chance(12)) { line("IF " + cond() + " THEN " + simple()); line(simple() + " ELSE " + simple()); }
        else line(syntax_err());
        break;
      case B_CHAOS: {
        // lines of control statements in any order; a count of lines executed ends it
        int n = r.range(4, 9);
        std::vector<int> l;
        for (int i = 0; i < n; i++) l.push_back(labels++);
        std::string limit = num(10, 40);
        auto target = [&]() { return ref(l[r.below(l.size())]); };
        line("N=0");
        bool fors = r.chance(40);
        for (int i = 0; i < n; i++) {
          here(l[(size_t) i]);
          std::string s_ = "N=N+1:IF N>" + limit + " THEN END ELSE ";
          if (r.chance(60) && !(fors && i < 4)) s_ += "PRINT \"" + std::string(1, (char)('A' + i)) + "\";:";
          int k = r.range(1, 3);
          while (k--) {
            if (fors && i < 4) s_ += "FOR " + std::string(one({ "I", "J", "K", "L", "E1" })) + "=1 TO " + num(1, 3);
            else s_ += wild_stmt(target, true);
            if (k) s_ += ":";
          }
          line(s_);
        }
        line("DATA 1,2,3,4");
        break;
      }
      case B_MANY: {
        int from = r.range(0, 3) * 10, n = r.chance(75) ? r.range(10, 30) : r.range(60, 160);
        std::vector<std::string> names;
        if (r.chance(60)) for (int i = 0; i < n; i++) names.push_back("V" + std::to_string(from + i));
        else names = alike(n);
        std::string s_;
        for (int i = 0; i < n; i++) {
          std::string v_ = names[(size_t) i];
          s_ += (s_.empty() ? "" : ":") + (r.chance(70) ? v_ + "=" + num(1, 9) : r.chance(50) ? v_ + "$=\"s\"" : v_ + "(1)=2");
          if (s_.size() > 90) { line(s_); s_.clear(); }
        }
        if (!s_.empty()) line(s_);
        if (names[0] == "V" + std::to_string(from)) line("PRINT V1;V" + num(0, 50) + ";V" + num(0, 50) + "$;V" + num(0, 50) + "(1)");
        for (int k = r.range(0, 4); k > 0; k--) {
          s_ = "PRINT ";
          for (int i = 0; i < 9; i++) { std::string v_ = names[r.below(names.size())]; s_ += v_ + (r.chance(80) ? ";" : r.chance(50) ? "$;" : "(1);"); }
          line(s_);
        }
        break;
      }
      case B_LIMIT: {
        // strings of about the greatest length
        int n = r.range(50, 58);
        std::string build = "A$=\"" + std::string(50, 'p') + "\":A$=A$+A$:A$=A$+A$:B$=\"" + std::string((size_t) n, 'q') + "\"";
        line(build.substr(0, build.find(":B$")));
        line(build.substr(build.find("B$")));
        line(r.chance(50) ? "C$=A$+B$" : "C$=B$+A$");
        switch (r.below(8)) {
          case 0: line("PRINT LEN(C$)"); break;
          case 1: line("B$=LEFT$(C$," + num(250, 260) + "):PRINT LEN(B$)"); break;
          case 2: line("B$=RIGHT$(C$," + num(250, 260) + "):PRINT LEN(B$)"); break;
          case 3: line("B$=MID$(C$,1," + num(250, 260) + "):PRINT LEN(B$)"); break;
          case 4: line("B$=C$+CHR$(65):PRINT LEN(B$)"); break;
          case 5: line("T$(1)=C$:C$=\"\"+T$(1):PRINT LEN(C$);RIGHT$(C$,2)"); break;
          case 6: line("PRINT C$,TAB(5);LEN(C$)"); break;
          default: line("IF C$=A$+B$ THEN PRINT \"eq\" ELSE PRINT LEN(C$)");
        }
        break;
      }
      case B_STRINGS:
        switch (r.below(6)) {
          case 0: line(svar() + "=" + sexpr(3) + ":PRINT " + svar()); break;
          case 1: line("A$=\"\":FOR L=1 TO " + num(1, 9) + ":A$=A$+CHR$(64+L):NEXT L:PRINT A$"); break;
          case 2: line("T$(1)=A$+\"!\":A$=T$(1):PRINT A$;LEN(A$)"); break;
          case 3: line("PRINT LEFT$(" + svar() + ",3)+RIGHT$(" + svar() + ",2)"); break;
          case 4: line("IF A$=B$ THEN PRINT \"same\" ELSE PRINT \"diff\""); break;
          default: line("B$=STR$(" + nvar() + "):PRINT VAL(B$)");
        }
        break;
    }
  }

  // Build a program; returns numbered lines in order.
  std::map<unsigned, std::string> program() {
    lines.clear(); tail.clear(); label.clear(); labels = 0; depth = 0; in_tail = false; loop_level = 0;
    int n = r.range(1, thorough ? 9 : 7);
    budget = 14;
    while (n--) block();
    if (!tail.empty() || r.chance(30)) line(one({ "END", "END", "STOP", "PRINT \"end\":END" }));
    std::vector<std::string> all = lines;
    size_t base_ = lines.size();
    for (auto& t : tail) all.push_back(t);
    std::vector<unsigned> num_(all.size() + 1);
    unsigned step = (unsigned) r.pick(std::vector<int>{ 1, 2, 5, 10, 10, 10, 10, 100 });
    if (r.chance(8)) step = (unsigned) r.pick(std::vector<int>{ 128, 256, 397, 397, 512, 794, 1000, 1024 });
    unsigned at = (unsigned) r.pick(std::vector<int>{ 1, 10, 10, 10, 100, 1000, 60000 });
    if (at + step * all.size() * 5 / 4 > 65000 && step > 100) at = (unsigned) r.range(1, 10);
    bool regular = step > 100;
    for (size_t i = 0; i <= all.size(); i++) { num_[i] = at; at += regular || r.chance(85) ? step : (unsigned) r.range(1, (int) step * 2); }
    std::map<unsigned, std::string> prog;
    for (size_t i = 0; i < all.size(); i++) {
      std::string s = all[i], o;
      for (size_t k = 0; k < s.size(); ) {
        size_t e;
        if (s[k] == '@' && k + 1 < s.size() && isdigit((unsigned char) s[k + 1]) && (e = s.find('@', k + 1)) != std::string::npos) {
          int l = atoi(s.c_str() + k + 1);
          size_t ix;
          if (!label.count(l)) ix = all.size() - 1;
          else ix = label[l] >= 0 ? (size_t) label[l] : base_ + (size_t)(-1 - label[l]);
          if (ix >= all.size()) ix = all.size() - 1;
          o += std::to_string(num_[ix]);
          k = e + 1;
        }
        else o += s[k++];
      }
      if (o.size() > 119) o = o.substr(0, 119);
      prog[num_[i]] = o;
    }
    return prog;
  }

  // ---- session

  Life& L() { return sc.lives.back(); }

  // prints more than anyone would wait for
  void forever() {
    std::string t = "PRINT " + std::string(one({ "", "", "\"abc\";", "1," })) + one({ "TAB(", "SPC(" }) + one({ "4000000000", "3000000000", "4294967295", "100000000", "2147483648" }) + ")" + one({ "", ";", ";\"x\"", ":PRINT \"y\"" });
    bool prog = r.chance(50);
    if (prog) { std::string l = std::to_string(r.range(1, 9)); cmd(l + " " + t); t = "GOTO " + l; }
    if (dead || m.wait != WAIT_CMD) return;
    Op op;
    op.id = next_id++;
    op.text = t;
    op.loops = true;
    op.fault.kind = F_INT;
    op.fault.a = r.range(150, r.chance(70) ? 3000 : 40000);
    m.feed(op.text + "\n");
    m.pad_limit = 100;
    m.pump(20);
    if (m.wait != WAIT_CMD) m.do_break();
    m.pad_limit = -1;
    m.out.clear(); m.err.clear(); m.flushed = 0;
    if (m.giveup || m.wait == EXITED) dead = true;
    L().ops.push_back(op);
    if (r.chance(50)) cmd("PRINT \"z\";TAB(3);1");
    if (prog) cmd(t.substr(5));
  }

  void follow(Op& op) {
    m.feed(op.text + "\n");
    if (op.dt) m.clock += op.dt;
    if (!m.pump(6000)) {
      op.loops = true;
      op.fault.kind = F_INT;
      op.fault.a = r.range(200, r.chance(70) ? 6000 : 40000);
      if (m.listing) m.break_list(); else m.do_break();
    }
    m.out.clear(); m.err.clear(); m.flushed = 0;
    if (m.giveup || m.wait == EXITED || m.array_elements() > 200000) dead = true;
  }

  std::string answer() {
    const Atom* a = m.wait == WAIT_INPUT ? m.input_atom() : nullptr;
    if (!a) return r.chance(80) ? "" : "zz";
    auto item = [&](const Item& it) -> std::string {
      if (m.syms[(size_t) it.sym].type == T_NUM) return r.chance(85) ? num(-3, 30) : one({ "1.5", " 7 ", "+2", "1E1", "-0.5" });
      return one({ "abc", "x y", "", " lead", "10 PRINT", "RUN", "q", "\"quoted\"" });
    };
    if (a->op == A_LINE_INPUT) {
      switch (r.below(8)) {
        case 0: return "";
        case 1: return std::string((size_t) r.range(120, 135), 'k');
        case 2: return "a,b,\"c\" d";
        case 3: return std::string((size_t) r.range(126, 127), 'm');
        case 4: return std::string((size_t) (r.chance(80) ? r.range(200, 400) : r.range(500, 1500)), 'w');
        case 5: return one({ "  a, b  ", "\ttab\t", "ends\r", "\"", "\xe9t\xe9", ":", "0" });
        default: return word();
      }
    }
    std::string s;
    for (size_t i = 0; i < a->items.size(); i++) s += (i ? "," : "") + item(a->items[i]);
    switch (r.below(id == "C17" ? 12 : 24)) {
      case 8: case 9: {
        // items left out, at the beginning or the end or between
        std::string t;
        size_t n = a->items.size() > 1 ? (size_t) r.range(1, (int) a->items.size()) : 1;
        for (size_t i = 0; i < n; i++) t += (i ? "," : "") + (r.chance(40) ? std::string() : item(a->items[i]));
        return t;
      }
      case 0: return s + "," + num(1, 9);
      case 1: return s.substr(0, s.find(','));
      case 2: return one({ "", "abc", "1x", ",", ",,", "1,,2", "-", "+", ".", "0x1F", "-inf", "1e400", "1e", "5 6", "\"5\"", " ,", "\t4\t,\t5\t", "--5", "1E+", "+-1", "1.2.3", "\r", "5\r", "1;2", "1:2", "$5", "\xe9" });
      case 3: return s + std::string((size_t) r.range(1, 5), ' ');
      case 4: { size_t want = (size_t) r.range(124, 131); if (s.size() < want) s += std::string(want - s.size(), r.chance(50) ? ' ' : '9'); return s; }
      case 5: return s + "," + std::string((size_t) r.range(130, 300), 'n');
      case 6: return s + "\r";
      case 7: { for (size_t i = s.find(','); i != std::string::npos; i = s.find(',', i + 3)) s.replace(i, 1, " , "); return s; }
      default: return s;
    }
  }

  void answers() {
    int n = 0;
    while (!dead && (m.wait == WAIT_INPUT || m.wait == WAIT_PAGE) && n < 14) {
      Op op;
      op.id = next_id++;
      op.ans = true;
      if (n < 6) op.text = answer();
      else {
        const Atom* a = m.wait == WAIT_INPUT ? m.input_atom() : nullptr;
        for (size_t i = 0; a && i < a->items.size(); i++) op.text += (i ? ",1" : "1");
      }
      if (id == "C20" && r.chance(50)) op.dt = jump();
      follow(op);
      L().ops.push_back(op);
      n++;
    }
    if (m.wait == WAIT_INPUT || m.wait == WAIT_PAGE) dead = true;
  }

  long jump() {
    if (!turn_tz.empty() && r.chance(60)) return r.chance(80) ? r.range(1200, 7300) : -r.range(1200, 7300);
    switch (r.below(10)) {
      case 0: return 1;
      case 1: return -1;
      case 2: return r.range(1, 100);
      case 3: return -r.range(1, 4000);
      case 4: return r.range(1, 90000);
      case 5: return 86400 * (long) r.range(1, 400);
      case 6: return -(m.clock % 86400) + r.range(-1, 1) + 86400;
      case 7: return 3600 - m.clock % 3600 - r.range(0, 1);
      case 8: return -86400 * (long) r.range(0, 30);
      default: return 60 - m.clock % 60 - r.range(0, 1);
    }
  }

  // the same text written in another way, or nearly so
  int variety = 0;

  // other names for the variables, consistently throughout a scenario, so that names are long or short,
  // share beginnings, and are shared by variables, arrays and functions
  std::map<std::string, std::string> renames;
  void choose_style() {
    static const char* schemes[][18] = {
      // A, B, C, D, X, Y, N1, Q, I, J, K, L, M, P, T, S1, N, FNA
      { "M", "P", "C", "D", "X", "Y", "N1", "Q", "I", "J", "K", "L", "M", "P", "A", "S1", "N", "FNA" },
      { "AA", "AB", "AAA", "AAB", "A", "A1", "A10", "A2", "A11", "I1", "I2", "I10", "A", "AA", "A1", "A2", "N0", "FNA1" },
      { "ALPHA", "ALPHABET", "ALPHA1", "ALPHA2", "BETA", "BETAX", "GAMMA", "DELTA", "INDEX", "INDEX1", "INDEX2", "KEYS", "MATRIX", "MATRIX2", "ALPHA", "BETA", "COUNTER", "FNAREA" },
      { "VERYLONGVARIABLE1", "VERYLONGVARIABLE2", "VERYLONGVARIABLE3", "V", "VERYLONGVARIABLE11", "Y", "N1", "Q", "LOOPVARIABLE1", "LOOPVARIABLE2", "K", "L", "VERYLONGARRAYNAME1", "VERYLONGARRAYNAME2", "VERYLONGVARIABLE1", "VERYLONGVARIABLE2", "N", "FNVERYLONGNAME" },
      { "Z", "z9", "Zz", "z0", "Y", "YZ", "ZY", "W", "IJ", "JI", "II", "JJ", "Z", "ZZ", "Z", "ZZ", "NN", "FNz" },
      { "WWWWWWWWXXXXXXXXZZZZZZZZ1", "WWWWWWWWXXXXXXXXZZZZZZZZ2", "C", "D", "X", "Y", "N1", "WWWWWWWWXXXXXXXXZZZZZZZZ", "I", "J", "K", "L", "M", "P", "WWWWWWWWXXXXXXXXZZZZZZZZ1", "WWWWWWWWXXXXXXXXZZZZZZZZ2", "N", "FNWWWWWWXXXXXXXXZZZZZZZZ1" },
      { "WWWWWWWWXXXXXXXXZZZZZZZZWWWWWWWWXXXXXXXX1", "WWWWWWWWXXXXXXXXZZZZZZZZWWWWWWWWXXXXXXXX2", "C", "D", "X", "Y", "N1", "Q", "I", "J", "K", "L", "WWWWWWWW1", "WWWWWWWW2", "T", "S1", "N", "FNA" },
      { "A", "B", "C", "D", "X", "Y", "N1", "Q", "A1", "B1", "C1", "D1", "A1", "B1", "A1", "B1", "N", "A1X" },
    };
    static const char* from[18] = { "A", "B", "C", "D", "X", "Y", "N1", "Q", "I", "J", "K", "L", "M", "P", "T", "S1", "N", "FNA" };
    auto& sch = schemes[r.below(sizeof schemes / sizeof *schemes)];
    for (int i = 0; i < 18; i++) if (r.chance(90)) renames[from[i]] = sch[i];
  }
  std::string styled(const std::string& t) {
    std::string o;
    size_t i = 0;
    while (i < t.size() && (t[i] == ' ' || t[i] == '\t')) i++;
    if (i < t.size() && t[i] == '*') return t;
    i = 0;
    while (i < t.size()) {
      if (t[i] == '"') {
        size_t e = t.find('"', i + 1);
        e = e == std::string::npos ? t.size() : e + 1;
        o += t.substr(i, e - i);
        i = e;
      }
      else if (isalpha((unsigned char) t[i])) {
        size_t e = i;
        while (e < t.size() && isalnum((unsigned char) t[e])) e++;
        std::string w = t.substr(i, e - i);
        auto f = renames.find(w);
        o += f == renames.end() ? w : f->second;
        i = e;
      }
      else if (isdigit((unsigned char) t[i])) { // 1E5 is no name
        size_t e = i;
        while (e < t.size() && (isalnum((unsigned char) t[e]) || t[e] == '.')) e++;
        o += t.substr(i, e - i);
        i = e;
      }
      else o += t[i++];
    }
    return o;
  }

  std::string vary(std::string t) {
    if (t.empty()) return t;
    size_t k = r.below(t.size());
    auto from = [&](char c) { size_t i = t.find(c, k); return i == std::string::npos ? t.find(c) : i; };
    switch (r.below(10)) {
      case 0: case 1: { size_t i = from(' '); if (i != std::string::npos) t[i] = '\t'; break; }
      case 2: { size_t i = from(' '); if (i != std::string::npos) t.insert(i, r.chance(50) ? " " : "\t"); break; }
      case 3: { size_t i = from(' '); if (i != std::string::npos) t.erase(i, 1); break; }
      case 4: t += one({ " ", "\t", "   ", " \t ", "\r" }); break;
      case 5: t = one({ " ", "\t", "  ", "\t\t" }) + t; break;
      case 6: for (auto& c : t) c = (char) tolower((unsigned char) c); break;
      case 7: for (auto& c : t) if (r.chance(40)) c = (char)(isupper((unsigned char) c) ? tolower((unsigned char) c) : toupper((unsigned char) c)); break;
      case 8: t.insert(k, one({ " ", "\t" })); break;
      default: { size_t i = from(':'); if (i != std::string::npos) t.insert(i, one({ " ", "\t", ":", " :" })); }
    }
    return t;
  }

  void cmd(const std::string& text) {
    if (dead) return;
    Op op;
    op.id = next_id++;
    op.text = renames.empty() ? text : styled(text);
    if (variety && r.chance(variety)) op.text = vary(op.text);
    if (L().cfg.keywords && !op.text.empty() && isdigit((unsigned char) op.text[0]) && r.chance(50)) op.text = crunch(op.text);
    if ((id == "C20" && r.chance(45)) || r.chance(2)) { op.dt = jump(); if (m.clock + op.dt < 0) op.dt = 0; }
    follow(op);
    L().ops.push_back(op);
    answers();
  }

  unsigned any_line() {
    if (m.src.empty() || r.chance(6)) return (unsigned) r.range(1, 200);
    auto i = m.src.begin();
    std::advance(i, (long) r.below(m.src.size()));
    return i->first;
  }

  std::string numbered(unsigned n, const std::string& s) { return std::to_string(n) + std::string(r.chance(88) ? " " : one({ "  ", "   ", "  ", "    " })) + s; }

  void enter(const std::map<unsigned, std::string>& prog) {
    std::vector<std::pair<unsigned, std::string>> v(prog.begin(), prog.end());
    if (r.chance(40)) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
    for (auto& l : v) {
      if (r.chance(5)) cmd(numbered(l.first, "PRINT \"replaced\""));
      cmd(numbered(l.first, l.second));
      if (r.chance(3)) { unsigned x = l.first + 1; if (!prog.count(x)) { cmd(numbered(x, syntax_err())); cmd(std::to_string(x)); } }
    }
  }

  std::string long_name; // for names that differ only at their end
  std::string filename() {
    if (long_name.empty()) {
      static const unsigned lengths[] = { 8, 12, 15, 16, 30, 31, 32, 40, 60, 63, 64, 80, 100, 110 };
      long_name = std::string(lengths[r.below(sizeof lengths / sizeof lengths[0])] + r.below(2), 'n');
    }
    if (r.chance(12)) return long_name + one({ "1", "2", ".bas", "" });
    return one({ "A", "B", "C.BAS", "prog one", "x" });
  }

  std::string file_text(const std::map<unsigned, std::string>& prog) {
    std::string s;
    for (auto& l : prog) s += std::to_string(l.first) + " " + (renames.empty() ? l.second : styled(l.second)) + "\n";
    return s;
  }

  std::string bad_file() {
    auto p_ = program();
    std::string s = file_text(p_);
    switch (r.below(22)) {
      case 14: case 15: case 16: case 17: { // as long as a word may be, or not quite, or longer
        auto w = [&]() { return std::string((size_t) (r.chance(70) ? r.range(125, 130) : r.range(1, 130)), (char) r.range('a', 'f')); };
        s += "64900 ";
        switch (r.below(7)) {
          case 0: s += "PRINT LEN(\"" + w() + "\")"; break;
          case 1: s += "DATA \"" + w() + "\",x"; break;
          case 2: s += "DATA 1," + w(); break;
          case 3: s += "GQ" + w() + "=5"; break;
          case 4: s += "GQ" + w() + "$=\"q\""; break;
          case 5: s += "A=" + std::string((size_t) r.range(124, 129), '7'); break;
          default: s += "A=1." + std::string((size_t) r.range(118, 128), '3') + one({ "", "E1", "E+1", "E-12" });
        }
        return s + "\n64910 READ B$,C$:PRINT B$;C$\n";
      }
      case 18: return std::string(one({ "5\n", "5\n6\n", "5 \n7 PRINT 1\n", "1\n22\n333\n", "5\n" })) + (r.chance(50) ? s : "");
      case 19: { // a line as long as a line may be
        std::string t = one({ "64900 PRINT 1:REM ", "64900 PRINT \"end\":REM ", "64900 A=A+1:PRINT A:REM " });
        size_t len = (size_t) r.range(250, 257);
        while (t.size() < len) t += (char) r.range('a', 'z');
        return s + t + "\n" + (r.chance(60) ? "64910 PRINT \"last\"\n" : "");
      }
      case 20: return s + std::string((size_t) r.range(1, 3), ' ') + "\n";
      case 21: return s + one({ "64900\tPRINT 5\n", "64900PRINT 6\n", "64900   PRINT 7   \n", "+64900 PRINT\n", "-1 PRINT\n", "64900.5 PRINT\n", "1e3 PRINT\n", "64900 PRINT 8\r\n", "\"64900\" PRINT\n", "064900 PRINT 9\n", "64900 64901 PRINT\n" });
      case 0: return "";
      case 1: return s + "\n";
      case 2: return s + "PRINT 1\n";
      case 3: return "0 PRINT 1\n" + s;
      case 4: return s + "1 PRINT 1\n";
      case 5: return s + "4294967296 PRINT\n";
      case 6: return s + "4294967295 PRINT\n";
      case 7: return s.substr(0, s.size() / 2);
      case 8: return s.substr(0, s.size() - 1);
      case 9: return s + "64900 REM " + std::string((size_t) r.range(235, 260), 'r') + "\n";
      case 10: return s + "64900\n64901 \n";
      case 11: return " 10 PRINT\n";
      case 12: return "10 PRINT 1\n10 PRINT 2\n";
      default: return s + "64900 PRINT \"\x80\"\n";
    }
  }

  void probe() {
    switch (r.below(8)) {
      case 0: cmd("PRINT A;B;C;D;X;I;J;K"); break;
      case 1: cmd("PRINT A$;\"|\";B$;\"|\";C$;\"|\";T$(1);M(1);M(2)"); break;
      case 2: cmd("LIST"); break;
      case 3: cmd("CONT"); break;
      case 4: cmd("PRINT 1+(2+(3+(4+(5+6))));\"a\"+(\"b\"+(\"c\"+\"d\"))"); break;
      case 5: cmd("PRINT \"x\",\"y\";TAB(20);\"z\""); break;
      case 6: cmd("PRINT I;J;K;L;N"); break;
      default: cmd("RUN");
    }
  }

  void templates();

  // a program that has stopped, commands of every kind, and CONT
  void disturb() {
    cmd("NEW");
    cmd(one({ "10 A=1:STOP:PRINT \"on\";A", "10 FOR I=1 TO 2:STOP:PRINT I;:NEXT", "10 GOSUB 30:PRINT \"back\"", "10 DATA 5,6,7:READ A:STOP:READ B:PRINT A;B" }));
    cmd(r.chance(50) ? "20 END" : "20 PRINT \"twenty\":END");
    cmd(r.chance(70) ? "30 STOP:PRINT \"sub\":RETURN" : one({ "30 STOP", "30 FOR J=1 TO 3:STOP", "30 GOSUB 31", "30 DATA 8:STOP" }));
    if (r.chance(10)) cmd(one({ "31 STOP", "31 RETURN:STOP", "40 STOP" }));
    if (r.chance(25)) cmd("RUN:PRINT 1");
    const bool idle = r.chance(30); // lines that do nothing, before and after
    if (idle) { cmd("5 REM note"); cmd(one({ "6 DATA 1", "6 :", "6 REM", "6 END", "6 LET Z=Z" })); cmd(one({ "25 REM more", "25 :", "35 REM end" })); if (r.chance(50)) cmd("6"); }
    cmd("RUN");
    if (idle && r.chance(60)) {
      cmd(one({ "5", "6", "25", "35", "5 REM other", "5 REM note", "6 REM", "25 REM more!", "36 REM", "4 REM", "21 REM", "5 rem note" }));
      cmd(one({ "CONT", "RUN", "GOTO 5", "GOTO 25", "GOSUB 30", "NEXT", "RETURN", "LIST", "READ A:PRINT A" }));
      if (r.chance(50)) cmd("RUN");
    }
    for (int n = r.range(1, 3); n > 0; n--) switch (r.below(26)) {
      case 0: cmd("LIST"); break;
      case 1: cmd("PRINT A;I;B"); break;
      case 2: cmd("SAVE \"no/dir/x\""); break;
      case 3: cmd("SAVE \"" + filename() + "\""); break;
      case 4: cmd("LOAD \"missing\""); break;
      case 5: cmd("LOAD \"bad\""); break;
      case 6: cmd("HELP"); break;
      case 7: sys(); break;
      case 8: cmd(syntax_err()); break;
      case 9: cmd(error_stmt()); break;
      case 10: cmd("COMPILE"); break;
      case 11: cmd("RENUM 0"); break;
      case 12: cmd("RENUM 5,30,5"); break;
      case 13: cmd("0 PRINT"); break;
      case 14: cmd("99"); break;
      case 15: cmd("FOR I=1 TO 2:PRINT I;:NEXT"); break;
      case 16: cmd("INPUT B"); break;
      case 17: cmd("READ B:PRINT B"); break;
      case 18: cmd("DEF FNA(X)=X+1:PRINT FNA(2)"); break;
      case 19: cmd("STOP"); break;
      case 20: cmd("CLEAR"); break;
      case 21: cmd("20 REM changed"); break;
      case 22: cmd("RETURN"); break;
      case 23: cmd("NEXT"); break;
      case 24: cmd("DATA 8,9"); break;
      default: junk();
    }
    cmd("CONT");
    if (r.chance(50)) cmd("CONT");
    while (r.chance(35)) cmd(one({ "RETURN", "RETURN", "NEXT", "NEXT I", "NEXT J", "CONT", "READ B:PRINT B" }));
  }

  // the same thing over and over, and then what needs everything a session has
  void marathon() {
    int n = r.chance(50) ? r.range(15, 40) : r.chance(60) ? r.range(60, 140) : r.range(250, 300);
    std::string t;
    const int kind = r.below(15);
    switch (kind) {
      case 0: case 1: t = error_stmt(); break;
      case 2: t = syntax_err(); break;
      case 3: t = one({ "LOAD \"missing\"", "LOAD \"bad\"", "LOAD \"bad2\"", "SAVE \"no/dir/x\"", "LOAD \"..\"", "RENUM 0", "RENUM 5,30,5", "CONT", "RETURN", "NEXT", "LOAD", "LIST x" }); break;
      case 4: t = "LOAD \"good\""; n = std::min(n, 60); break;
      case 5: t = one({ "DEF FNA(X)=X+1:PRINT FNA(2)", "DIM M(5):M(5)=A", "A$=A$+\"x\":A$=LEFT$(A$,9)", "FOR I=1 TO 3", "FOR I=1 TO 2:FOR J=1 TO 2:NEXT:NEXT", "READ A:DATA 5", "CLEAR", "NEW", "COMPILE", "RENUM", "INPUT A", "*x", "CLS", "RANDOMIZE 3:PRINT RND(1)", "PRINT TIME$", "STOP", "PRINT \"a\";", "PRINT 1,", "LET A=A+1", "END" }); break;
      case 6: t = "SAVE \"" + filename() + "\""; n = std::min(n, 60); break;
      case 7: t = numbered(any_line(), r.chance(50) ? "STOP" : simple()); break;
      case 8: cmd(std::to_string(any_line() + 1) + " STOP"); t = "RUN"; n = std::min(n, 40); break;
      case 9: cmd("1 GOTO 1"); t = "RUN"; n = r.range(8, 24); break;
      case 10: cmd("1 A=A+1:STOP:GOTO 1"); cmd("RUN"); t = "CONT"; break;
      case 11: cmd("NEW"); cmd("1 GOSUB 1"); t = r.chance(50) ? "RUN" : "GOSUB 1"; n = std::min(n, 40); break;
      case 12: t = "SAVE"; n = std::min(n, 40); break;
      case 13: t = "names"; n = std::min(n, 140); break;
      default: t = "lines"; n = std::min(n, 140);
    }
    for (int i = 0; i < n && !dead; i++) {
      if (t == "SAVE") cmd("SAVE \"F" + std::to_string(i) + "\"");
      else if (t == "names") cmd("V" + std::to_string(i) + "=" + std::to_string(i) + (r.chance(20) ? ":PRINT V" + std::to_string(r.range(0, i)) : ""));
      else if (t == "lines") { if (r.chance(70)) cmd(numbered((unsigned) r.range(1, 400), simple())); else cmd(std::to_string(any_line())); }
      else cmd(t);
      if (kind == 1 && r.chance(30)) t = error_stmt();
    }
    if (t == "SAVE") for (int i = 0; i < 3; i++) cmd("LOAD \"F" + std::to_string(r.range(0, n - 1)) + "\"");
    for (int k = r.range(1, 3); k > 0; k--) switch (r.below(9)) {
      case 0: { std::string x = "PRINT "; int d = r.range(12, 15); for (int i = 0; i < d; i++) x += "1+("; x += "1"; for (int i = 0; i < d; i++) x += ")"; cmd(x); break; }
      case 1: { std::string x = "PRINT "; int d = r.range(12, 15); for (int i = 0; i < d; i++) x += "\"a\"+("; x += "\"b\""; for (int i = 0; i < d; i++) x += ")"; cmd(x); break; }
      case 2: cmd("NEW"); cmd("10 N=N+1:IF N<" + num(13, 17) + " THEN GOSUB 10:PRINT N;"); cmd("20 RETURN"); cmd("N=0:GOSUB 10:PRINT \"back\""); break;
      case 3: cmd("NEW"); cmd("10 FOR A=1 TO 2:FOR B=1 TO 2:FOR C=1 TO 1:FOR D=1 TO 1:FOR E=1 TO 1:FOR F=1 TO 1"); cmd("20 FOR G=1 TO 1:FOR H=1 TO 1:FOR I=1 TO 1:FOR J=1 TO 1:FOR K=1 TO 1:FOR L=1 TO 1"); cmd("30 N=N+1:NEXT:NEXT:NEXT:NEXT:NEXT:NEXT:NEXT:NEXT:NEXT:NEXT:NEXT:NEXT:PRINT N"); cmd("RUN"); break;
      case 4: cmd("LOAD \"good\""); cmd("RUN"); break;
      case 5: cmd("LIST"); break;
      case 6: cmd("FOR I=1 TO 3:PRINT I;TAB(9);I,:NEXT"); break;
      case 7: cmd("1 REM first"); cmd("RUN"); cmd("PRINT A;A$"); break;
      default: cmd("RUN"); cmd("CONT");
    }
  }

  void act() {
    if (r.chance(id == "C10" ? 5 : 0)) { forever(); return; }
    if (r.chance(marathons)) { marathons = 0; marathon(); return; }
    switch (weighted(p.act, X_COUNT)) {
      case X_PROG:
        if (r.chance(50)) cmd("NEW");
        enter(program());
        if (r.chance(70)) cmd("RUN");
        break;
      case X_EDIT: edit(); break;
      case X_RUN: cmd(r.chance(90) ? "RUN" : one({ "run", " RUN ", "Run", "RUN x" })); break;
      case X_CONT: { int n = r.range(1, 3); while (n--) cmd(r.chance(92) ? "CONT" : one({ "cont", "CONT 1" })); break; }
      case X_LIST: list(); break;
      case X_IMM: cmd(r.chance(50) ? let() : r.chance(70) ? "PRINT " + print_list() : let() + ":" + simple()); break;
      case X_CTRL: ctrl(); break;
      case X_SAVE:
        if (r.chance(4)) {
          // RENUM makes a line longer than a line of a file may be, or nearly so
          std::string n = std::to_string(r.range(1, 9)), l = n + " ON X GOTO " + n;
          for (int k = r.range(36, 54); k > 0; k--) l += "," + n;
          cmd(l);
          cmd(r.chance(50) ? "RENUM " + std::to_string(r.range(10000, 60000)) : r.chance(50) ? "RENUM 1000" : "RENUM 100");
        }
cmd((r.chance(90) ? "SAVE \"" : "save \"") + (r.chance(5) ? "no/dir/x" : filename()) + (r.chance(90) ? "\"" : r.chance(50) ? "" : "\" x")); break;
      case X_LOAD: load(); break;
      case X_RENUM: renum(); break;
      case X_NEW: cmd(r.chance(90) ? "NEW" : "NEW x"); break;
      case X_COMPILE: cmd("COMPILE"); break;
      case X_SYS: sys(); break;
      case X_JUNK: junk(); break;
      case X_PROBE: probe(); break;
      case X_ERR: { int n = r.range(1, id == "C13" ? 6 : 2); while (n--) cmd(error_stmt()); break; }
      case X_READ:
        switch (r.below(8)) {
          case 0: cmd("READ A$:PRINT A$"); break;
          case 1: cmd("READ A:PRINT A"); break;
          case 2: cmd("RESTORE"); break;
          case 3: cmd("RESTORE " + std::to_string(any_line())); break;
          case 4: cmd("READ B$:PRINT B$:DATA imm,5"); break;
          case 5: cmd("DATA 1,2"); break;
          case 6: cmd("READ A$,B$,C$:PRINT A$;B$;C$"); break;
          default: cmd("FOR L=1 TO 2:READ C$:PRINT C$;:NEXT:DATA x,y");
        }
        break;
      case X_VARS:
        switch (r.below(9)) {
          case 0: cmd("PRINT A;B;C;D;X;Y;Q;N1"); break;
          case 1: cmd("PRINT A$;\",\";B$;\",\";C$;\",\";S1$"); break;
          case 2: cmd("PRINT M(0);M(1);M(5);P(2);T$(0);T$(1);T$(2)"); break;
          case 3: cmd("M(" + num(0, 9) + ")=" + nexpr(1)); break;
          case 4: cmd(svar() + "=" + sexpr(2)); break;
          case 5: cmd("DIM M(" + num(5, 30) + ")"); break;
          case 6: cmd("PRINT FNA(2);X"); break;
          case 7: cmd(nvar() + "=" + nexpr(2)); break;
          default: cmd("PRINT Z9;Z9$;W(3);W$(2)");
        }
        break;
      case X_RND:
        switch (r.below(6)) {
          case 0: cmd("RANDOMIZE " + num(0, 30)); break;
          case 1: cmd("PRINT RND(1);RND(1)"); break;
          case 2: cmd("RANDOMIZE"); break;
          case 3: cmd("FOR I=1 TO 20:PRINT RND(1);:NEXT I"); break;
          case 4: cmd("PRINT INT(RND(1)*6)+1"); break;
          default: cmd("FOR I=1 TO 25:X=RND(1):IF X>=1 THEN PRINT \"high\" ELSE NEXT I");
        }
        break;
      case X_TIME: cmd(one({ "PRINT TIME$", "A$=TIME$", "PRINT A$;\" \";TIME$", "PRINT LEN(TIME$)", "RANDOMIZE", "PRINT RND(1)", "PRINT TIME$:CLS:PRINT TIME$" })); break;
      case X_PRINT: cmd("PRINT " + print_list()); break;
      case X_INPUT: cmd(one({ "INPUT A", "INPUT A$", "INPUT \"v\";A,B$", "LINE INPUT A$", "LINE INPUT \"z\";T$(3):PRINT T$(3)", "INPUT A,B,C:PRINT A;B;C", "INPUT M(3):PRINT M(3)", "I=2:INPUT I,M(I),A$:PRINT I;M(I);A$" })); break;
      case X_LISTBIG: {
        int n = r.range(22, 75);
        unsigned from = (unsigned) r.range(1, 3000), st = (unsigned) r.range(1, 4);
        for (int i = 0; i < n; i++) cmd(numbered(from + st * (unsigned) i, r.chance(50) ? "REM " + std::to_string(i) : let()));
        cmd("LIST" + std::string(r.chance(50) ? " P" : r.chance(50) ? "" : " " + std::to_string(from + 5) + "-P"));
        break;
      }
      case X_CLEAR: cmd("CLEAR"); break;
      case X_DEF:
        switch (r.below(6)) {
          case 0: cmd("DEF FNA(X)=X*" + num(2, 5)); break;
          case 1: cmd("PRINT FNA(" + num(0, 5) + ");X"); break;
          case 2: cmd("DEF FNB$(X)=CHR$(65+X)+A$"); break;
          case 3: cmd("PRINT FNB$(" + num(0, 9) + ");X"); break;
          case 4: cmd("X=" + num(1, 9) + ":PRINT FNA(X+1);X"); break;
          default: cmd("DEF FNA(A)=A+B:PRINT FNA(" + num(1, 9) + ");A");
        }
        break;
      case X_FORI: {
        static const char* v[] = { "I", "J", "K" };
        std::string a = v[r.below(3)];
        switch (r.below(6)) {
          case 0: cmd("FOR " + a + "=1 TO " + num(1, 9) + ":PRINT " + a + ";:NEXT"); break;
          case 1: cmd("FOR " + a + "=1 TO 3"); cmd("PRINT " + a); cmd("NEXT " + a); break;
          case 2: cmd("NEXT"); break;
          case 3: cmd("NEXT " + a); break;
          case 4: if (id == "C10" || id == "C01") { cmd("FOR N=1 TO 50000:PRINT N;:NEXT"); break; } [[fallthrough]];
          default: cmd("FOR " + a + "=" + num(1, 3) + " TO " + num(1, 5) + " STEP " + num(1, 2) + ":FOR L=1 TO 2:PRINT " + a + ";L;:NEXT:NEXT");
        }
        break;
      }
      case X_TEMPLATE: templates(); break;
      case X_HELP: cmd(one({ "HELP", "help", "HELP x" })); break;
      case X_CHAOS: {
        int n = r.range(1, 4);
        std::string s_;
        while (n--) s_ += (s_.empty() ? "" : ":") + wild_stmt([&]() { return std::to_string(any_line()); }, true);
        cmd(s_);
        if (r.chance(40)) cmd(one({ "CONT", "NEXT", "RETURN", "NEXT I", "PRINT I;J;K;L" }));
        break;
      }
    }
  }

  // enter an existing line again, the same or almost the same
  void retype() {
    if (m.src.empty()) return;
    auto i = m.src.begin();
    std::advance(i, (long) r.below(m.src.size()));
    unsigned n = i->first;
    std::string t = i->second;
    if (t.empty()) return;
    size_t k = r.below(t.size());
    switch (r.below(9)) {
      case 0: break;
      case 1: case 2: for (size_t j = k; j < t.size(); j++) if (isalpha((unsigned char) t[j])) { t[j] = (char)(t[j] ^ 32); if (r.chance(70)) break; } break;
      case 3: for (size_t j = k; j < t.size(); j++) if (isdigit((unsigned char) t[j])) { t[j] = (char)('0' + r.below(10)); break; } break;
      case 4: { size_t c = t.rfind(':'); if (c != std::string::npos) t = t.substr(0, c); break; }
      case 5: t += one({ " ", ":PRINT \"+\"", ":", ";", "1" }); break;
      case 6: t = " " + t; break;
      case 7: if (t[0] == ' ') t = t.substr(1); else if (t.size() > 1) t.erase(k, 1); break;
      default: n += (unsigned) r.range(1, 3);
    }
    if (t.size() > 118) t = t.substr(0, 118);
    cmd(std::to_string(n) + " " + t);
  }

  void edit() {
    int n = r.range(1, 4);
    while (n--) switch (r.below(19)) {
      case 18: { // numbers that may share a place in a table
        unsigned at = any_line(), st = (unsigned) r.pick(std::vector<int>{ 397, 397, 256, 128, 1024, 64, 16, 65536 });
        for (int k = r.range(1, 5); k > 0 && at < 60000; k--) { at += st; cmd(numbered(at, simple())); }
        if (r.chance(70)) cmd("GOTO " + std::to_string(at));
        break;
      }
      case 14: case 15: case 16: case 17: retype(); break;
      case 0: case 1: cmd(std::to_string(any_line())); break;
      case 2: case 3: case 4: cmd(numbered(any_line(), simple())); break;
      case 5: cmd(numbered(any_line() + (unsigned) r.range(1, 9), simple())); break;
      case 6: cmd(numbered(any_line(), "STOP")); break;
      case 7: cmd(one({ "0 PRINT", "0", "4294967295 PRINT 1", "4294967296 PRINT 1", "99999999999999 REM", "65536 PRINT \"big\"", "4294967294 PRINT \"huge\"", "18446744073709551626 PRINT" })); break;
      case 8: { size_t len = (size_t) r.range(122, 132); std::string s = std::to_string(any_line()) + " REM "; while (s.size() < len) s += (char) r.range('a', 'z'); cmd(s); break; }
      case 9: cmd(std::to_string(any_line()) + "PRINT \"nospace\""); break;
      case 10: cmd("   " + std::to_string(any_line()) + " PRINT \"indent\""); break;
      case 11: cmd(std::to_string(any_line()) + one({ " ", "  ", "\t", "   PRINT 3" })); break;
      case 12: cmd(numbered(any_line(), error_stmt())); break;
      default: cmd(numbered((unsigned) r.range(1, 300), simple()));
    }
  }

  void list() {
    std::string a = std::to_string(any_line()), b = std::to_string(any_line());
    switch (r.below(12)) {
      case 0: case 1: case 2: case 3: cmd("LIST"); break;
      case 4: cmd("LIST " + a + "-" + b); break;
      case 5: cmd("LIST " + a); break;
      case 6: cmd("LIST " + a + "-"); break;
      case 7: cmd("LIST -" + b); break;
      case 8: cmd("LIST P"); break;
      case 9: cmd("LIST " + a + "-" + b + " p"); break;
      case 10: cmd(one({ "LIST x", "LIST 1-2-3", "list", "LIST 99999999999-", "LIST -0", "LIST 0-4294967295", "LIST -99999999999999999999" })); break;
      default: cmd("LIST " + std::to_string(r.range(0, 300)) + " - " + std::to_string(r.range(0, 300)));
    }
  }

  void ctrl() {
    std::string a = std::to_string(any_line());
    switch (r.below(10)) {
      case 0: cmd("GOTO " + a); break;
      case 1: cmd("GOSUB " + a); break;
      case 2: cmd("GOSUB " + a + ":PRINT \"back\""); break;
      case 3: cmd("RETURN"); break;
      case 4: cmd("NEXT"); break;
      case 5: cmd("NEXT " + loopvar()); break;
      case 6: cmd("ON " + num(0, 3) + " GOTO " + a + "," + std::to_string(any_line())); break;
      case 7: cmd("IF " + cond() + " THEN " + a); break;
      case 8: cmd("PRINT \"s\":STOP:PRINT \"t\""); break;
      default: cmd("END");
    }
  }

  void load() {
    switch (r.below(12)) {
      case 0: cmd("LOAD \"missing\""); break;
      case 1: cmd("LOAD \"bad\""); break;
      case 2: cmd("LOAD \"bad2\""); break;
      case 3: cmd(one({ "LOAD", "LOAD A", "LOAD \"\"", "LOAD \"A", "load \"A\" x", "LOAD \"a/b\"", "LOAD \"..\"" })); break;
      case 4: cmd("LOAD \"good\""); break;
      case 5: if (sc.files.count("big")) { big(); break; } [[fallthrough]];
      default: cmd("LOAD \"" + filename() + "\"");
    }
  }

  // a program large enough for its tables to have to grow
  void big() {
    cmd("LOAD \"big\"");
    for (int i = r.range(0, 8); i > 0; i--) switch (r.below(8)) {
      case 0: case 1: case 2: if (!m.src.empty()) cmd(std::to_string(any_line() + 1) + " " + simple()); break;
      case 3: cmd(std::to_string(any_line())); break;
      case 4: if (!m.src.empty()) cmd(std::to_string(m.src.rbegin()->first + 1) + " PRINT \"last\""); break;
      case 5: if (!m.src.empty() && m.src.begin()->first > 1) cmd(std::to_string(m.src.begin()->first - 1) + " PRINT \"first\""); break;
      case 6: cmd("LIST " + std::to_string(any_line()) + "-P"); break;
      default: cmd(r.chance(50) ? "RUN" : "GOTO " + std::to_string(any_line()));
    }
    if (r.chance(30)) cmd("RENUM");
    if (r.chance(60)) cmd("LIST");
  }

  void renum() {
    if (r.chance(50)) { cmd("RENUM"); }
    else switch (r.below(9)) {
      case 0: cmd("RENUM " + num(1, 500)); break;
      case 1: cmd("RENUM " + num(1, 500) + "," + std::to_string(any_line())); break;
      case 2: cmd("RENUM " + num(1, 500) + "," + std::to_string(any_line()) + "," + num(0, 50)); break;
      case 3: cmd("RENUM ,,5"); break;
      case 4: cmd("RENUM 65000,1,100"); break;
      case 5: cmd("RENUMBER " + num(1, 5) + ",1,1"); break;
      case 6:
        if (r.chance(50)) { cmd("RENUM 0"); break; }
        // lines and references at the limits of line numbers
        cmd(one({ "65535 PRINT \"top\"", "65534 PRINT \"near\"", "1 PRINT \"one\"", "65536 PRINT \"over\"" }));
        cmd(numbered(any_line() + 1, one({ "IF Z=9 THEN 65535", "ON A GOTO 65535,1", "GOTO 10.5", "REM 65535", "IF A=77 THEN GOTO 65536", "IF A=88 THEN 1E1", "RESTORE 65535", "ON B GOSUB 1,65534", "GOSUB 65535:END", "DATA 10,GOTO 10" })));
        cmd(r.chance(50) ? "RENUM" : "RENUM " + num(1, 500) + "," + std::to_string(any_line()));
        break;
      case 7: cmd("RENUM 10 x"); break;
      default: cmd("RENUM " + std::to_string(any_line() + 1) + "," + std::to_string(any_line()) + ",1");
    }
    if (r.chance(60)) cmd("LIST");
    if (r.chance(40)) cmd("RUN");
  }

  void sys() {
    switch (r.below(14)) {
      case 13: { // as long as a line may be, and not quite
        std::string t = one({ "*echo ", "*", "*x \"" });
        size_t len = (size_t) (r.chance(50) ? r.range(60, 124) : r.range(120, 130));
        while (t.size() < len) t += r.chance(15) ? ' ' : (char) r.range('a', 'z');
        cmd(t);
        break;
      }
      case 0: cmd("*"); break;
      case 1: cmd("*   "); break;
      case 2: cmd(" * echo  two   spaces "); break;
      case 3: cmd("*ls -l \"x\" > y; *z"); break;
      case 4: cmd("*" + word()); break;
      case 5: cmd("*RUN"); break;
      case 6: cmd("CLS"); break;
      case 7: cmd("PRINT \"a\";:CLS:PRINT TAB(3);\"b\""); break;
      case 8: case 9: case 10: {
        std::string t = "*";
        for (int n = r.range(1, 12); n > 0; n--) switch (r.below(6)) {
          case 0: t += '\t'; break;
          case 1: t += one({ " ", "  ", " \t" }); break;
          case 2: t += word(); break;
          case 3: t += (char) r.range(33, 126); break;
          case 4: t += one({ "\"", "'", "*", "\\", "%s", "%n", ":", "&&", "~" }); break;
          default: t += one({ "echo", "x.bas", "-l", "CLS", "10" });
        }
        cmd(t);
        break;
      }
      default: cmd("*cmd " + num(1, 99));
    }
  }

  void junk() {
    switch (r.below(12)) {
      case 0: cmd(""); break;
      case 1: cmd("   "); break;
      case 2: cmd(syntax_err()); break;
      case 3: cmd(syntax_err()); break;
      case 4: cmd(std::string((size_t) r.range(120, 300), r.chance(50) ? 'A' : ' ')); break;
      case 5: cmd("PRINT " + std::string((size_t) r.range(110, 125), '1')); break;
      case 6: { std::string s; int n = r.range(1, 20); for (int i = 0; i < n; i++) s += (char) r.range(33, 126); if (s[0] != '*' && strncasecmp(s.c_str(), "BYE", 3)) cmd(s); break; }
      case 7: cmd(one({ "BYE x", "NEW x", "RUN", "LIST zz", "SAVE", "LOAD", "RENUM x", "FOO", "LETTER", "PRINTX", "GOTO 0", "GOTO -1" })); break;
      case 8: cmd("REM " + word()); break;
      case 9: cmd("PRINT \"" + std::string((size_t) r.range(100, 119), 'p') + "\""); break;
      case 10: cmd("PRINT \"\x81\xff\""); break;
      default: cmd(error_stmt());
    }
  }

  std::string turn_tz;
  bool crunched = false;

  // the program lines without spaces between words, as keywords-anywhere programs are written
  std::string crunch(const std::string& text) {
    std::string o;
    for (size_t i = 0; i < text.size(); ) {
      size_t e = text.find('\n', i);
      if (e == std::string::npos) e = text.size();
      std::string l = text.substr(i, e - i), t;
      size_t k = 0;
      while (k < l.size() && (isdigit((unsigned char) l[k]) || l[k] == ' ')) t += l[k++];
      bool str = false;
      for (; k < l.size(); k++) {
        if (!str && (!strncasecmp(l.c_str() + k, "REM", 3) || !strncasecmp(l.c_str() + k, "DATA", 4))) { t += l.substr(k); break; }
        if (l[k] == '"') str = !str;
        if (str || l[k] != ' ' || r.chance(2)) t += l[k];
      }
      o += t;
      if (e < text.size()) o += '\n';
      i = e + 1;
    }
    return o;
  }

  int marathons = 0; // percent of acts, until one has been done

  void env(Life& l) {
    EnvCfg& e = l.env;
    e.tty = r.chance(40);
    switch (r.below(4)) { case 0: e.chunk = r.range(1, 4); break; case 1: e.chunk = r.range(5, 60); break; default: e.chunk = 0; }
    e.group = !e.tty && r.chance(50);
    e.inbuf = r.pick(std::vector<int>{ 1, 16, 64, 1024, 4096, 4096 });
    e.outbuf = r.pick(std::vector<int>{ 64, 1024, 4096, 4096, 65536 });
    e.reuse = r.chance(50);
    variety = r.chance(35) ? r.pick(std::vector<int>{ 3, 10, 25 }) : 0;
    e.filebuf = r.pick(std::vector<int>{ 1, 16, 64, 4096, 4096 });
    e.max_open = id == "C09" ? r.range(4, 6) : 16;
    e.tz = one({ "UTC", "UTC", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "XXX11:45" });
    if (!turn_tz.empty() && r.chance(85)) e.tz = turn_tz;
    l.cfg.env_seed = sc.lives.empty() ? r.next() % 1000000 : sc.lives[0].cfg.env_seed;
    l.cfg.rand_mode = sc.lives.empty() ? r.chance(id == "C19" ? 70 : 25) : sc.lives[0].cfg.rand_mode;
    l.cfg.sys_mode = r.range(0, 2);
    l.cfg.sys_delay = r.chance(id == "C20" ? 70 : 30) ? r.range(1, 5000) : 0;
    l.cfg.quiet = r.chance(85);
    l.cfg.trace = r.chance(id == "C24" ? 30 : 6);
    l.cfg.keywords = crunched ? r.chance(90) : r.chance(id == "C24" || id == "C28" ? 5 : 2);
    l.cfg.randomize = r.chance(id == "C19" || id == "C20" ? 25 : 3);
    l.cfg.report_mem = r.chance(3);
  }

  void begin_life(bool batch, const std::string& file) {
    Life l;
    env(l);
    l.cfg.batch = batch;
    l.cfg.file = file;
    l.cfg.trace_for = r.chance(id == "C24" ? 12 : id == "C15" ? 4 : 1);
    l.cfg.trace_log = batch && r.chance(id == "C24" ? 12 : 2);
    if (id == "C28" && batch && r.chance(90)) l.cfg.mode = "lnpc"[r.below(4)];
    if (batch && !l.cfg.mode && r.chance(20)) l.cfg.mode_run = true;
    sc.lives.push_back(l);
    dead = false;
    setenv("TZ", l.env.tz.c_str(), 1);
    tzset();
    m.start(l.cfg);
    m.giveup = false;
    if (!m.pump(6000)) {
      if (sc.lives.back().start_fault.kind == F_NONE) { Fault f; f.kind = F_INT; f.a = r.range(8000, 40000); sc.lives.back().start_fault = f; }
      dead = true;
    }
    m.out.clear(); m.err.clear(); m.flushed = 0;
    if (m.giveup || m.wait == EXITED) dead = true;
    if (!dead) answers();
  }

  void end_life() {
    if (dead) {
      // leave the state it is in alone: probes whose outcome the generator does not know
      if (r.chance(50)) for (const char* t : { "PRINT A;B;I;J;A$", "LIST", "CONT" }) {
        Op op; op.id = next_id++; op.text = t;
        if (!strcmp(t, "CONT")) { op.fault.kind = F_INT; op.fault.a = 30000; op.loops = true; }
        L().ops.push_back(op);
      }
      return;
    }
    for (int i = r.range(1, 3); i > 0; i--) probe();
    if (dead) return;
    if (r.chance(60)) { Op op; op.id = next_id++; op.text = r.chance(90) ? "BYE" : "bye "; m.feed(op.text + "\n"); m.pump(100); L().ops.push_back(op); }
    else { m.eof = true; m.pump(100); }
  }

  void raw();

  Scenario build(uint64_t seed) {
    sc.property = id;
    sc.seed = seed;
    sc.handles = id == "C09";
    sc.leaks = id == "C22";
    switch (r.below(5)) {
      case 0: sc.clock = r.range(0, 100000); break;
      case 1: sc.clock = 86400L * r.range(1, 20000) - r.range(0, 3); break;
      case 2: sc.clock = 2147483647L + r.range(-3, 3); break;
      default: sc.clock = r.range(900000000, 2000000000);
    }
    // when summer time begins and ends
    static const int turns[] = { 1772953200 /* New York 2026-03-08 */, 1793512800 /* 2026-11-01 */, 1775311200 /* Auckland 2026-04-05 */, 1790431200 /* 2026-09-27 */ };
    if (id == "C20" && r.chance(30)) {
      int k = (int) r.below(4);
      sc.clock = turns[k] + r.range(-7300, 100);
      turn_tz = k < 2 ? "EST5EDT,M3.2.0,M11.1.0" : "NZST-12NZDT,M9.5.0,M4.1.0/3";
    }
    m.clock = sc.clock;
    if (r.chance(22)) choose_style();
    // files that exist beforehand
    if (r.chance(70)) sc.files["good"] = file_text(program());
    if (r.chance(id == "C28" ? 12 : 2) && sc.files.count("good")) { crunched = true; sc.files["good"] = crunch(sc.files["good"]); }
    if (r.chance(60)) sc.files["bad"] = bad_file();
    if (r.chance(40)) sc.files["bad2"] = bad_file();
    if (r.chance(25)) sc.files["A"] = file_text(program());
    if (id == "C05" || id == "C08") if (r.chance(30)) sc.files["B"] = file_text(program());
    if (sc.files.count("good") && r.chance(20)) {
      // lines of about the greatest length
      std::string t = sc.files["good"];
      for (int i = 0, n = r.range(1, 3); i < n; i++) {
        size_t len = (size_t) r.range(238, 254);
        std::string l = std::to_string(64800 + i) + one({ " REM ", " A$=\"", " PRINT \"", " DATA ", " ON X GOTO " });
        bool q = l.back() == '"';
        if (l.find(" ON ") != std::string::npos) {
          // RENUM can make it too long to be saved
          std::string target = std::to_string(atoi(t.c_str()));
          if (r.chance(40)) len = (size_t) r.range(100, 254);
          l += target;
          while (l.size() + 1 + target.size() <= len) l += "," + target;
          t += l + "\n";
          continue;
        }
        while (l.size() + q < len) l += (char) r.range('a', 'z');
        t += l + (q ? "\"" : "") + "\n";
      }
      sc.files["good"] = t;
    }
    if (sc.files.count("good") && r.chance(12)) {
      // numbers of more than sixteen bits
      std::string t = sc.files["good"];
      unsigned at = (unsigned) r.pick(std::vector<int>{ 65534, 65535, 65536, 65540, 70000, 99999, 100000, 1000000, 2147483640 });
      if (r.chance(20)) at = 4294967280u;
      for (int i = 0, n = r.range(1, 5); i < n; i++, at += (unsigned) r.range(1, 3)) t += std::to_string(at) + " " + (r.chance(60) ? "PRINT " + num(1, 99) : r.chance(50) ? "GOTO " + std::to_string(at) : let()) + "\n";
      sc.files["good"] = t;
    }
    if (r.chance(id == "C02" || id == "C03" || id == "C04" || id == "C05" || id == "C07" || id == "C08" || id == "C22" ? 15 : 3)) {
      int n = r.chance(60) ? (r.chance(70) ? 128 : 256) + r.range(-3, 2) : r.range(80, 300);
      std::string t;
      unsigned at = (unsigned) r.range(1, 20), st = (unsigned) r.range(2, 6);
      for (int i = 0; i < n; i++, at += st) {
        t += std::to_string(at) + " ";
        switch (r.below(6)) { case 0: t += "A=A+1"; break; case 1: t += "PRINT A;"; break; case 2: t += "GOTO " + std::to_string(at + st); break; case 3: t += "DATA " + num(1, 99); break; case 4: t += "IF A<3 THEN " + std::to_string(at + st); break; default: t += "REM " + std::to_string(i); }
        t += "\n";
      }
      sc.files["big"] = t;
    }
    m.disk = sc.files;
    if (id == "C23" || (id == "C01" && r.chance(25)) || (id == "C09" && r.chance(20)) || (id == "C22" && r.chance(20)) || (id == "C21" && r.chance(10))) { raw(); return sc; }
    marathons = r.chance(id == "C21" ? 2 : 5) ? 20 : 0;
    int lives = p.lives > 1 ? r.range(1, p.lives) : r.chance(8) ? 2 : 1;
    for (int i = 0; i < lives; i++) {
      bool batch = r.chance(id == "C24" ? 65 : id == "C28" ? 80 : id == "C22" || id == "C01" ? 8 : id == "C19" || id == "C21" || id == "C18" || id == "C17" ? 12 : 3);
      std::string f = one({ "good", "good", "A", "bad", "B" });
      if (id == "C28" && r.chance(25)) f = one({ "big", "bad2", "x", "missing" });
      if (id == "C24" && i == 0) { crunched = r.chance(12); sc.files["good"] = file_text(program()); if (crunched) sc.files["good"] = crunch(sc.files["good"]); m.disk["good"] = sc.files["good"]; batch = r.chance(50); }
      begin_life(batch, f);
      if (batch) continue;
      if (id == "C24" && !dead) { cmd("LOAD \"good\""); cmd("RUN"); }
      int n = r.range(p.min_acts, p.max_acts);
      if (!dead && r.chance(85)) { enter(program()); if (r.chance(80)) cmd("RUN"); }
      while (n-- > 0 && !dead && L().ops.size() < (L().ops.size() > 200 ? 320 : 160)) act();
      end_life();
    }
    return sc;
  }
};

// Short histories around the rules that are easy to get wrong.
void Gen::templates() {
  if (r.chance(15)) { disturb(); return; }
  std::string a = std::to_string(any_line());
  switch (r.below(24)) {
    case 0: cmd("10 FOR I=1 TO 3"); cmd("20 PRINT I:STOP"); cmd("30 NEXT I"); cmd("RUN"); cmd("NEXT"); cmd("CONT"); cmd("NEXT I"); break;
    case 1: cmd("RUN"); cmd("GOTO " + a); cmd("CONT"); break;
    case 2: cmd("RUN"); cmd(a); cmd("CONT"); cmd("GOTO " + a); break;
    case 3: cmd("FOR I=1 TO 3:PRINT I;:GOSUB " + a + ":NEXT I"); cmd("NEXT"); cmd("RETURN"); break;
    case 4: cmd("NEW"); cmd("10 GOSUB 100:PRINT \"back\""); cmd("20 END"); cmd("100 PRINT \"sub\":STOP"); cmd("110 RETURN"); cmd("RUN"); cmd("A=5:PRINT A"); cmd("CONT"); cmd("RUN"); cmd("RETURN"); break;
    case 5: cmd("NEW"); cmd("10 DATA 1,2,3"); cmd("20 READ A:PRINT A:STOP"); cmd("30 GOTO 20"); cmd("RUN"); cmd("READ B:PRINT B"); cmd("CONT"); cmd("CONT"); cmd("RUN"); break;
    case 6: cmd("NEW"); cmd("10 A=A+1:PRINT A:STOP:PRINT A"); cmd("20 GOTO 10"); cmd("RUN"); cmd("A=10"); cmd("CONT"); cmd("20 PRINT \"new\""); cmd("CONT"); cmd("PRINT A"); break;
    case 7: cmd("NEW"); cmd("10 X=7:STOP"); cmd("20 PRINT X"); cmd("RUN"); cmd("RENUM 100"); cmd("CONT"); cmd("LIST"); cmd("RUN"); break;
    case 8: cmd("NEW"); cmd("10 FOR I=1 TO 2:GOSUB 50"); cmd("20 NEXT"); cmd("30 END"); cmd("50 FOR J=1 TO 2:PRINT I;J;:NEXT:RETURN"); cmd("RUN"); cmd("GOSUB 50"); cmd("NEXT"); break;
    case 9: cmd("DEF FNA(X)=X+LOG(X)"); cmd("X=3"); cmd("PRINT FNA(-1)"); cmd("PRINT X"); cmd("PRINT FNA(1);X"); break;
    case 10: cmd("NEW"); cmd("10 DEF FNA(X)=X+LOG(X)"); cmd("20 X=4"); cmd("30 PRINT FNA(X-9)"); cmd("RUN"); cmd("PRINT X;FNA(1)"); cmd("CONT"); break;
    case 11: { int n = r.range(9, 20); while (n--) cmd("FOR I=1 TO 5"); cmd("NEXT"); break; }
    case 12: { int n = r.range(6, 12); cmd("NEW"); cmd("10 STOP"); cmd("20 RETURN"); for (int i = 0; i < n; i++) cmd("GOSUB 10"); cmd("RETURN"); cmd("RUN"); cmd("GOSUB 10"); break; }
    case 13: cmd("SAVE \"A\""); cmd("NEW"); cmd("LOAD \"A\""); cmd("LIST"); cmd("RUN"); break;
    case 14: cmd("A=1:B$=\"keep\""); cmd("SAVE \"B\""); cmd("LIST"); cmd("PRINT A;B$"); cmd("LOAD \"B\""); cmd("PRINT A;B$"); break;
    case 15: cmd("NEW"); cmd("10 ON X GOTO 20,30"); cmd("20 PRINT 20:END"); cmd("30 PRINT 30"); cmd("RENUM 7,1,3"); cmd("LIST"); cmd("X=2:GOTO 7"); break;
    case 16: cmd("10 PRINT \"one\""); cmd("RUN"); cmd("10 PRINT \"two\""); cmd("GOTO 10"); cmd("10"); cmd("RUN"); cmd("GOTO 10"); break;
    case 17: cmd("NEW"); cmd("10 STOP"); cmd("20 PRINT \"here\""); cmd("RUN"); cmd("PRINT 1/"); cmd("CONT"); cmd("RUN"); cmd("PRINT LOG(0)"); cmd("CONT"); cmd("CONT"); break;
    case 18: cmd("NEW"); cmd("10 STOP"); cmd("20 PRINT \"here\""); cmd("RUN"); cmd("SAVE \"x\""); cmd("LIST"); cmd("LOAD \"missing\""); cmd("CONT"); cmd("RUN"); cmd("NEW"); cmd("CONT"); break;
    case 19: cmd("FOR I=1 TO 3:PRINT I:STOP:NEXT"); cmd("NEXT"); cmd("CONT"); break;
    case 20: cmd("DIM M(5):M(5)=9"); cmd("PRINT M(5)"); cmd("PRINT M(6)"); cmd("CLEAR"); cmd("PRINT M(5)"); cmd("M(10)=1"); cmd("M(11)=1"); break;
    case 21: cmd("NEW"); cmd("10 PRINT \"a\";"); cmd("20 STOP"); cmd("30 PRINT \"b\",\"c\""); cmd("RUN"); cmd("PRINT \"d\";"); cmd("CONT"); break;
    case 22: cmd("NEW"); cmd("10 INPUT A:PRINT A*2:STOP"); cmd("20 GOTO 10"); cmd("RUN"); cmd("PRINT A"); cmd("CONT"); cmd("INPUT B"); cmd("CONT"); break;
    default: cmd("NEW"); cmd("10 CLEAR:FOR I=1 TO 3:CLEAR:NEXT:PRINT I"); cmd("RUN"); cmd("PRINT I"); break;
  }
}

// Arbitrary input
void Gen::raw() {
  sc.raw = true;
  int lives = r.range(1, 2);
  auto soup = [&]() {
    std::string s;
    int n = r.range(1, 25);
    for (int i = 0; i < n; i++) {
      switch (r.below(14)) {
        case 0: s += one({ "PRINT", "FOR", "NEXT", "IF", "THEN", "ELSE", "GOTO", "GOSUB", "RETURN", "ON", "READ", "DATA", "RESTORE", "DIM", "DEF", "INPUT", "LINE", "LET", "STOP", "END", "CLEAR", "CLS", "REM", "RANDOMIZE", "STEP", "TO", "AND", "OR", "NOT" }); break;
        case 1: s += " "; break;
        case 2: s += one({ "A", "B$", "M(", "T$(", "FNA(", "FNB$(", "X", "I" }); break;
        case 3: s += one({ "ABS(", "ASC(", "CHR$(", "LEFT$(", "MID$(", "RIGHT$(", "LEN(", "STR$(", "VAL(", "RND", "TIME$", "LOG(", "SQR(", "INT(", "EXP(", "TAB(", "SPC(", "TAN(", "ATN(", "SGN(" }); break;
        case 4: case 5: s += one({ "+", "-", "*", "/", "^", "=", "<", ">", "<>", "<=", ">=", "(", ")", ",", ";", ":", "\"", "?" }); break;
        case 6: s += num(0, 300); break;
        case 7: s += one({ "1E400", "1E999999999", "4294967295", "4294967296", "2147483648", "-2147483649", "99999999999999999999", ".", "1E", "1E-", "0.0000001", "65535", "65536", "1E308", "-1E308" }); break;
        case 8: s += "\"" + word() + "\""; break;
        case 9: s += (char) r.range(1, 255); break;
        case 10: s += one({ "RUN", "LIST", "SAVE \"A\"", "LOAD \"A\"", "RENUM", "NEW", "CONT", "BYE", "HELP", "COMPILE" }); break;
        default: s += " ";
      }
    }
    return s;
  };
  auto bytes = [&](int lo, int hi) {
    std::string s;
    int n = r.range(lo, hi);
    for (int i = 0; i < n; i++) s += (char) r.below(256);
    return s;
  };
  auto mutate = [&](std::string s) {
    int n = r.range(0, 3);
    while (n-- && !s.empty()) {
      size_t k = r.below(s.size());
      switch (r.below(11)) {
        case 0: case 1: s.erase(k, 1); break;
        case 2: case 3: s.insert(k, 1, (char) r.range(1, 255)); break;
        case 4: if (s.size() < 300) s.insert(k, (size_t) (r.chance(50) ? r.range(110, 130) : r.range(1, 250)), s[k]); break;
        case 5: case 6: s[k] = (char) r.range(32, 126); break;
        case 7: case 8: s.insert(k, s.substr(r.below(s.size()), r.below(20))); break;
        default: s = s.substr(0, k);
      }
    }
    return s;
  };
  for (auto& w : p.block) if (w == 0) w = 2;
  p.block[B_ERR] = 8; p.block[B_STRESS] = 6; p.block[B_DIM] = 8;
  for (auto f : { "A", "B", "good", "bad" }) if (r.chance(60)) {
    std::string t;
    switch (r.below(5)) {
      case 4: {
        // words, numbers, strings and items of about the greatest length
        for (int i = 1, n = r.range(2, 12); i <= n; i++) {
          std::string x((size_t) (r.chance(70) ? r.range(124, 130) : r.range(1, 250)), r.chance(50) ? 'A' : '7');
          std::string l = std::to_string(i) + " ";
          switch (r.below(12)) {
            case 0: l += "DATA \"" + x + "\""; break;
            case 1: l += "DATA " + x; break;
            case 2: l += "DATA " + x + ",\"" + x.substr(0, 90) + "\",Q"; break;
            case 3: l += "PRINT \"" + x + "\""; break;
            case 4: l += "PRINT " + x; break;
            case 5: l += x + "=1"; break;
            case 6: l += "PRINT LEN(\"" + x + "\")"; break;
            case 7: l += "READ A$:PRINT A$"; break;
            case 8: l += "REM " + x; break;
            case 9: l += x + "$=\"" + x.substr(0, 60) + "\""; break;
            case 10: l += "DEF FN" + x.substr(0, (size_t) r.range(1, 130)) + "(X)=X"; break;
            default: l += "PRINT 1." + x + "E1"; break;
          }
          t += l + "\n";
        }
        break;
      }
      case 0: t = bytes(0, 600); break;
      case 1: t = file_text(program()); break;
      case 2: t = mutate(file_text(program())); break;
      default: for (int i = 1; i < r.range(2, 30); i++) t += std::to_string(i) + " " + soup() + "\n";
    }
    sc.files[f] = t;
  }
  for (int i = 0; i < lives; i++) {
    Life l;
    env(l);
    l.env.group = false;
    l.cfg.batch = r.chance(20);
    l.cfg.file = one({ "A", "B", "good" });
    l.cfg.keywords = r.chance(25);
    l.cfg.trace_for = r.chance(5);
    l.cfg.trace_log = l.cfg.batch && r.chance(10);
    if (l.cfg.batch && r.chance(30)) l.cfg.mode = "lnpc"[r.below(4)];
    sc.lives.push_back(l);
    int n = r.range(5, 60);
    auto raw_line = [&](std::string s) {
      for (auto& c : s) if (c == '\n') c = ' ';
      Op op; op.id = next_id++; op.text = s;
      L().ops.push_back(op);
    };
    std::map<unsigned, std::string> pr;
    while (n-- > 0) switch (r.below(19)) {
      case 0: pr = program(); for (auto& x : pr) raw_line(std::to_string(x.first) + " " + (r.chance(80) ? x.second : mutate(x.second))); raw_line("RUN"); break;
      case 1: raw_line("RUN"); break;
      case 2: raw_line(num(1, 100) + soup()); break;
      case 3: case 4: raw_line(soup()); break;
      case 5: raw_line(bytes(1, 200)); break;
      case 6: raw_line(one({ "LOAD \"A\"", "LOAD \"B\"", "LOAD \"good\"", "LOAD \"bad\"", "SAVE \"A\"", "LIST", "CONT", "RENUM", "RENUM 1,1,0", "NEW", "COMPILE", "LIST P", "GOTO 10" })); break;
      case 7: raw_line(error_stmt()); break;
      case 8: raw_line(mutate(error_stmt())); break;
      case 9: raw_line(let()); break;
      case 10: raw_line("PRINT " + print_list()); break;
      case 11: raw_line(mutate("PRINT " + nexpr(4))); break;
      case 12: raw_line(num(1, 99) + " " + mutate(simple())); break;
      case 13: raw_line(std::string((size_t) r.range(120, 400), (char) r.range(33, 126))); break;
      case 14: raw_line("RENUM " + soup()); break;
      case 15: raw_line(mutate(syntax_err())); break;
      case 16: raw_line(r.chance(20) ? one({ "PRINT STR$(-1.23456E-300)", "PRINT STR$(-1.23456E+100);LEN(STR$(-1E-320/3))", "A$=STR$(-1/3E200):PRINT A$", "PRINT -1.23456E-300,-1E300/7" }) : one({ "PRINT 1E308*10-1E308*10", "A=1E308*10:PRINT A-A", "PRINT CHR$(A)", "DIM M(1E308)", "PRINT LEFT$(\"abc\",1E308*10)", "FOR I=1 TO 1E308*10 STEP 1E308", "ON 1E308*10 GOTO 10", "M(1E308*10)=1", "PRINT SPC(1E9)", "PRINT TAB(4E9)",
        "A=-8^.5:PRINT INT(A);SGN(A);ABS(A)", "A=-8^.5:PRINT CHR$((-8)^.5)", "PRINT NOT ((-8)^.5)", "RANDOMIZE (-8)^.5", "M((-8)^.5)=1", "PRINT MID$(\"abc\",(-8)^.5,2)", "ON (-8)^.5 GOTO 10", "PRINT TAB((-8)^.5)", "DIM M((-8)^.5)" })); break;
      case 17: { // long texts wherever a text can be
        std::string x((size_t) r.range(20, 112), (char) r.range(33, 126)), w(x.size(), (char) r.range('A', 'Z')), d(x.size(), (char) r.range('0', '9'));
        for (auto& c : x) if (c == '"') c = '!';
        switch (r.below(5)) {
          case 0: case 1: {
            raw_line("A$=\"" + x + "\"");
            int k = r.range(0, 8);
            if (r.chance(50)) raw_line("FOR I=1 TO " + std::to_string(k) + ":A$=A$+A$:NEXT"); else while (k-- > 0) raw_line("A$=A$+A$");
            for (int j = r.range(1, 3); j > 0; j--) raw_line(one({ "PRINT VAL(A$)", "PRINT VAL(A$)", "PRINT A$", "PRINT ASC(A$);LEN(A$)", "B$=LEFT$(A$,LEN(A$)-1):PRINT RIGHT$(B$,5)", "T$(1)=A$:PRINT LEN(T$(1)+A$)", "IF A$=B$ THEN PRINT 1 ELSE PRINT A$<B$", "B$=MID$(A$,2,200)+A$", "DEF FNA$(X)=A$+\"x\"", "PRINT FNA$(1)", "PRINT VAL(\"1\"+A$)", "A$=STR$(VAL(\"1\"))+A$", "PRINT A$+A$;VAL(RIGHT$(A$,300))", "CLEAR" }));
            break;
          }
          case 2: raw_line(one({ "NEXT ", "FOR ", "DIM ", "PRINT ", "LIST ", "GOTO ", "RENUM ", "READ ", "INPUT ", "DEF FN", "PRINT FN", "SAVE \"", "LOAD \"", "*", "" }) + (r.chance(60) ? w : d) + one({ "", "=1", "(20)=1", "(1)", "$", "$=\"\"", "$(30)=\"\"", "(X)=1", "(1,2)", "\"", "(-1)", "(1E30)" })); break;
          case 3: raw_line(r.chance(50) ? "READ A:DATA \"" + x.substr(0, 98) + "\"" : "READ A:DATA " + w.substr(0, 98)); break;
          default: raw_line(num(1, 99) + one({ " PRINT ", " REM ", " DATA ", " GOTO ", " A$=\"", " NEXT ", " FOR " }) + (r.chance(40) ? w : r.chance(50) ? x : d)); raw_line(one({ "RUN", "LIST", "RENUM 10000", "READ A", "SAVE \"A\"", "LOAD \"A\"" }));
        }
        break;
      }
      default: raw_line(r.chance(50) ? num(-9, 99) : word());
    }
    if (r.chance(20) && !L().ops.empty()) { L().ops.back().fault.kind = F_EOF; }
    // faults, placed blindly
    if (r.chance(70)) for (int k = r.range(1, 6); k > 0; k--) {
      if (L().ops.empty() && !l.cfg.batch) break;
      Fault f;
      static const int kinds[] = { F_INT, F_INT, F_INT, F_INT_READ, F_MALLOC_ONCE, F_MALLOC_ALL, F_OPEN_FAIL, F_WRITE_FAIL, F_CLOSE_FAIL, F_READ_FAIL, F_SHORT_READ, F_KILL, F_STDIN_ERR };
      f.kind = kinds[r.below(sizeof kinds / sizeof *kinds)];
      if ((f.kind == F_MALLOC_ONCE || f.kind == F_MALLOC_ALL || f.kind == F_KILL || f.kind == F_STDIN_ERR) && !r.chance(25)) continue;
      auto spread = [&](int bits) { return (long) (r.below(1ull << r.range(1, bits)) + 1); };
      static const int errs[] = { 28, 5, 13, 122, 27, 24 };
      switch (f.kind) {
        case F_INT: f.a = spread(16); if (r.chance(25)) f.b = r.range(1, 2000); break;
        case F_KILL: f.a = spread(15); break;
        case F_MALLOC_ONCE: case F_MALLOC_ALL: f.a = spread(6); break;
        case F_OPEN_FAIL: f.b = errs[r.below(6)]; break;
        case F_WRITE_FAIL: f.a = spread(9) - 1; f.b = errs[r.below(6)] + (r.chance(35) ? ONCE : 0); break;
        case F_READ_FAIL: f.a = spread(9) - 1; f.b = r.chance(35); break;
        case F_SHORT_READ: f.a = spread(6); break;
      }
      if (l.cfg.batch || L().ops.empty()) { L().start_fault = f; break; }
      size_t at = r.below(L().ops.size());
      if (f.kind >= F_OPEN_FAIL && f.kind <= F_SHORT_READ) {
        bool save = f.kind == F_WRITE_FAIL || f.kind == F_CLOSE_FAIL || (f.kind == F_OPEN_FAIL && r.chance(50));
        Op op; op.id = next_id++;
        op.text = std::string(save ? "SAVE \"" : "LOAD \"") + one({ "A", "B", "good" }) + "\"";
        op.fault = f;
        L().ops.insert(L().ops.begin() + (long) at, op);
      }
      else if (L().ops[at].fault.kind == F_NONE) L().ops[at].fault = f;
    }
  }
}

Scenario generate(const std::string& property, uint64_t seed, bool thorough) {
  Gen g(property, seed, thorough);
  return g.build(seed);
}

// ---------------------------------------------------------------- faults

static bool starts(const std::string& s, const char* w) {
  size_t i = 0;
  while (i < s.size() && s[i] == ' ') i++;
  return strncasecmp(s.c_str() + i, w, strlen(w)) == 0;
}

void place_faults(Scenario& sc, const Result& dry, uint64_t seed) {
  Rng r(mix64(seed) ^ 0xfa17);
  Profile p = profile(sc.property);
  if (sc.raw || !r.chance(p.fault_runs)) return;
  std::map<std::pair<int, int>, Meas> meas;
  for (auto& x : dry.meas) meas[{ x.life, x.op }] = x;
  int next_id = 1;
  for (auto& l : sc.lives) for (auto& o : l.ops) next_id = std::max(next_id, o.id + 1);
  auto pick_kind = [&]() {
    int sum = 0;
    for (int w : p.fault) sum += w;
    if (!sum) return (int) F_NONE;
    int k = (int) r.below((uint64_t) sum);
    for (int i = 0; i < F_COUNT; i++) { if (k < p.fault[i]) return i; k -= p.fault[i]; }
    return (int) F_NONE;
  };
  static const int errs[] = { 28 /* ENOSPC */, 5 /* EIO */, 13 /* EACCES */, 122 /* EDQUOT */, 27 /* EFBIG */, 24 /* EMFILE */ };
  for (size_t li = 0; li < sc.lives.size(); li++) {
    Life& l = sc.lives[li];
    int n = r.range(1, p.max_faults);
    bool terminal = false;
    while (n-- > 0) {
      int kind = pick_kind();
      std::vector<size_t> ok;
      bool start_ok = false;
      for (size_t i = 0; i < l.ops.size(); i++) {
        const Op& o = l.ops[i];
        if (o.fault.kind != F_NONE || o.loops) continue;
        auto f = meas.find({ (int) li, o.id });
        uint64_t steps = f == meas.end() ? 0 : f->second.steps, allocs = f == meas.end() ? 0 : f->second.allocs;
        bool save = !o.ans && starts(o.text, "SAVE"), load = !o.ans && starts(o.text, "LOAD");
        bool good = false;
        switch (kind) {
          case F_INT: good = steps > 250 && !save && !load; break;
          case F_INT_READ: good = o.ans; break;
          case F_KILL: good = steps > 0 && (r.chance(save ? 100 : load ? 60 : 25)); break;
          case F_OPEN_FAIL: good = save || load; break;
          case F_WRITE_FAIL: case F_CLOSE_FAIL: good = save; break;
          case F_READ_FAIL: case F_SHORT_READ: good = load; break;
          case F_MALLOC_ONCE: case F_MALLOC_ALL: good = allocs > 0; break;
          case F_STDIN_ERR: good = o.ans || r.chance(10); break;
          case F_EOF: good = o.ans || r.chance(10); break;
          case F_CLOCK: good = true; break;
        }
        if (good) ok.push_back(i);
      }
      auto s = meas.find({ (int) li, 0 });
      if (l.start_fault.kind == F_NONE && s != meas.end())
        start_ok = ((kind == F_MALLOC_ONCE || kind == F_MALLOC_ALL) && s->second.allocs > 0 && (ok.empty() || r.chance(15))) || (kind == F_KILL && r.chance(5))
          || (l.cfg.batch && (kind == F_INT || kind == F_READ_FAIL || kind == F_OPEN_FAIL || kind == F_SHORT_READ) && r.chance(60));
      if (ok.empty() && !start_ok) continue;
      Fault f;
      f.kind = kind;
      Meas x = Meas();
      size_t at = 0;
      std::string file;
      if (start_ok) { x = s->second; file = l.cfg.file; }
      else {
        // prefer operations that do much
        at = r.pick(ok);
        if (kind == F_INT || kind == F_MALLOC_ONCE || kind == F_MALLOC_ALL) for (int t = 0; t < 2; t++) {
          size_t alt = r.pick(ok);
          if (meas[{ (int) li, l.ops[alt].id }].steps > meas[{ (int) li, l.ops[at].id }].steps) at = alt;
        }
        auto f2 = meas.find({ (int) li, l.ops[at].id });
        if (f2 != meas.end()) x = f2->second;
      }
      size_t size = 200;
      switch (kind) {
        case F_INT: case F_KILL: f.a = (long) r.below(x.steps + x.steps / 8 + 1) + 1;
          // just before it waits
          if (kind == F_INT && r.chance(12)) f.a = (long) (x.steps - std::min<uint64_t>(r.below(r.chance(50) ? 40 : 250), x.steps - 1));
          // about the operations on files
          if (kind == F_KILL && x.file_last && r.chance(55)) {
            uint64_t lo = x.file_first > 3 ? x.file_first - 3 : 1, hi = x.file_last + 8;
            f.a = (long) (r.chance(50) ? lo + r.below(hi - lo + 1) : r.chance(50) ? lo + r.below(12) : hi - std::min<uint64_t>(r.below(16), hi - 1));
          }
          if (kind == F_INT && r.chance(25)) f.b = r.range(1, 2000); // and again
          break;
        case F_OPEN_FAIL: f.b = errs[r.below(6)]; break;
        case F_WRITE_FAIL: f.a = (long) (r.chance(30) ? r.below(4) : r.below(size + 100)); f.b = errs[r.below(6)] + (r.chance(35) ? ONCE : 0); break;
        case F_READ_FAIL: f.a = (long) (r.chance(30) ? r.below(4) : r.below(size + 150)); f.b = r.chance(35); break;
        case F_SHORT_READ: f.a = (long) (r.chance(50) ? r.range(1, 3) : r.range(4, 60)); break;
        case F_MALLOC_ONCE: case F_MALLOC_ALL: f.a = (long) r.below(x.allocs) + 1; break;
        case F_CLOCK: l.ops[at].dt += r.chance(30) ? 86400L * r.range(-3, 300) : r.range(-3000, 90000); if (sc.clock + l.ops[at].dt < 0) l.ops[at].dt = 0; continue;
      }
      if (start_ok) { l.start_fault = f; if (kind == F_MALLOC_ONCE || kind == F_MALLOC_ALL) break; continue; }
      l.ops[at].fault = f;
      if (kind == F_EOF && r.chance(50)) l.ops[at].text = l.ops[at].text.substr(0, r.below(l.ops[at].text.size() + 1));
      if (kind == F_KILL || kind == F_MALLOC_ONCE || kind == F_MALLOC_ALL || kind == F_EOF) { if (terminal) l.ops[at].fault = Fault(); terminal = true; }
      // what the user does next
      if (kind == F_INT || kind == F_INT_READ) {
        std::vector<Op> add;
        size_t pos = at + 1;
        while (pos < l.ops.size() && l.ops[pos].ans) pos++;
        if (kind == F_INT && at + 1 < pos && r.chance(50)) pos = at + 1;
        int conts = sc.property == "C11" ? r.range(1, 8) : r.chance(60) ? r.range(0, 2) : 0;
        uint64_t left = x.steps;
        for (int k = 0; k < conts; k++) {
          if (r.chance(30)) { Op o; o.id = next_id++; static const char* look[] = { "PRINT A;B;I;J;A$", "PRINT 1+(2+(3+4));\"a\"+\"b\"", "PRINT FNA(1)", "PRINT M(1);T$(1);X", "LIST", "FOR Z=1 TO 2:PRINT Z;:NEXT Z" }; o.text = look[r.below(sc.property == "C11" ? 5 : 6)]; add.push_back(o); }
          Op o; o.id = next_id++; o.text = "CONT";
          left = left > (uint64_t) f.a ? left - (uint64_t) f.a : left;
          if (r.chance(sc.property == "C11" ? 75 : 40)) { o.fault.kind = F_INT; o.fault.a = (long) r.below(r.chance(60) ? left + 1 : 400) + 1; f.a = o.fault.a; if (r.chance(15)) o.fault.b = r.range(1, 2000); }
          add.push_back(o);
        }
        if (sc.property == "C11") { Op o; o.id = next_id++; o.text = "CONT"; add.push_back(o); o.id = next_id++; o.text = "PRINT A;B;C;I;J;K;A$;B$"; add.push_back(o); }
        else if (r.chance(40)) { Op o; o.id = next_id++; o.text = r.chance(50) ? "PRINT A;B;I;J;A$" : "LIST"; add.push_back(o); }
        l.ops.insert(l.ops.begin() + (long) pos, add.begin(), add.end());
      }
    }
  }
}

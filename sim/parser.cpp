#include "parser.h"
#include <cmath>
#include <strings.h>

static const struct { const char* name; int type; const char* args; int fn; } BUILTINS[] = {
  { "ABS", T_NUM, "n", FN_ABS }, { "ASC", T_NUM, "s", FN_ASC }, { "ATN", T_NUM, "n", FN_ATN }, { "CHR$", T_STR, "n", FN_CHR },
  { "COS", T_NUM, "n", FN_COS }, { "EXP", T_NUM, "n", FN_EXP }, { "FIX", -1, "", 0 }, { "GET$", -1, "", 0 }, { "HEX$", -1, "", 0 },
  { "INKEY$", -1, "", 0 }, { "INT", T_NUM, "n", FN_INT }, { "LEFT$", T_STR, "sn", FN_LEFT }, { "LEN", T_NUM, "s", FN_LEN },
  { "LOG", T_NUM, "n", FN_LOG }, { "MID$", T_STR, "snn", FN_MID }, { "RIGHT$", T_STR, "sn", FN_RIGHT }, { "RND", T_NUM, "d", FN_RND },
  { "SGN", T_NUM, "n", FN_SGN }, { "SIN", T_NUM, "n", FN_SIN }, { "SPACE$", -1, "", 0 }, { "SQR", T_NUM, "n", FN_SQR },
  { "STR$", T_STR, "n", FN_STR }, { "TAN", T_NUM, "n", FN_TAN }, { "TIME$", T_STR, "d", FN_TIME }, { "USR", -1, "", 0 }, { "VAL", T_NUM, "s", FN_VAL } };

static int find_builtin(const std::string& s) {
  for (size_t i = 0; i < sizeof BUILTINS / sizeof BUILTINS[0]; i++)
    if (strcasecmp(BUILTINS[i].name, s.c_str()) == 0) return (int) i;
  return -1;
}

bool known_builtin(const std::string& s) { return find_builtin(s) >= 0; }

static int type_of(const std::string& name) { return !name.empty() && name.back() == '$' ? T_STR : T_NUM; }

void Parser::line(unsigned index, const std::string& text) {
  lex.text = text; lex.pos = 0;
  next();
  emit(A_LINE).line = index;
  if_then = 0;
  while (statement()) ;
  while (tok() == ':') {
    next();
    while (statement()) ;
  }
  match('\n');
}

bool Parser::statement() {
  bool more = false;
  switch (tok()) {
    case TK_CLEAR: next(); emit(A_CLEAR); break;
    case TK_CLS: next(); emit(A_CLS); break;
    case TK_DATA:
      do {
        std::string s;
        if (!lex.data(s)) error();
        emit(A_DATA).str = s;
        code.has_data = true;
      } while (next() == ',');
      break;
    case TK_DEF: {
      next();
      if (tok() != TK_ID) error();
      std::string name = lex.word;
      int type = type_of(name);
      if (find_builtin(name) >= 0) error();
      int s = m.lookup(name, true);
      if (s >= 0) {
        if (m.syms[s].kind == K_UNKNOWN) m.syms[s].kind = K_DEF;
        else if (m.syms[s].kind != K_DEF) error();
      }
      else s = m.insert(name, K_DEF, type);
      next();
      match('(');
      int p = numvar();
      match(')');
      match('=');
      Expr e; ex = &e;
      if (expression() != type) error();
      Atom& a = emit(A_DEF);
      a.sym = s; a.params = p; a.ex = e;
      break;
    }
    case TK_DIM:
      next();
      for (;;) {
        Item i = item();
        if (m.syms[i.sym].kind != K_ARRAY) error();
        Atom& a = emit(A_DIM); a.sym = i.sym; a.params = i.params; a.ex = i.ex;
        if (tok() != ',') break;
        next();
      }
      break;
    case TK_END: next(); emit(A_END); break;
    case TK_FOR: {
      next();
      int v = numvar();
      match('=');
      Expr e; ex = &e;
      num_expr();
      match(TK_TO);
      num_expr();
      if (tok() == TK_STEP) { next(); num_expr(); }
      else { op(E_NUM); ex->back().num = 1; }
      Atom& a = emit(A_FOR); a.sym = v; a.ex = e;
      break;
    }
    case TK_GOSUB: { next(); unsigned n = line_number(); emit(A_GOSUB).line = n; break; }
    case TK_GOTO: { next(); unsigned n = line_number(); emit(A_GOTO).line = n; break; }
    case TK_IF: {
      next();
      Expr e; ex = &e;
      num_expr();
      match(TK_THEN);
      if (tok() == TK_NUM) {
        unsigned n = line_number();
        Atom& a = emit(A_GOTRUE); a.line = n; a.ex = e;
        if_then = 0;
      }
      else {
        emit(A_IF_THEN).ex = e;
        if_then = code.at.size() - 1;
        more = true;
      }
      break;
    }
    case TK_INPUT: next(); input(false); break;
    case TK_LET: next(); assignment(); break;
    case TK_LINE: next(); match(TK_INPUT); input(true); break;
    case TK_NEXT:
      next();
      if (tok() == TK_ID) {
        for (;;) {
          int v = numvar();
          emit(A_NEXT_VAR).sym = v;
          if (tok() != ',') break;
          next();
        }
      }
      else emit(A_NEXT);
      break;
    case TK_ON: {
      next();
      Expr e; ex = &e;
      num_expr();
      int o = tok() == TK_GOTO ? A_ON_GOTO : tok() == TK_GOSUB ? A_ON_GOSUB : -1;
      if (o < 0) error();
      Atom a; a.op = o; a.ex = e;
      do { next(); a.lines.push_back(line_number()); } while (tok() == ',');
      code.at.push_back(a);
      break;
    }
    case TK_PRINT: case '?': next(); print(); break;
    case TK_RANDOMIZE:
      next();
      if (eos()) emit(A_RAND);
      else { Expr e; ex = &e; num_expr(); emit(A_SEED).ex = e; }
      break;
    case TK_READ:
      next();
      for (;;) {
        Item i = item();
        Atom& a = emit(A_READ); a.sym = i.sym; a.params = i.params; a.ex = i.ex;
        if (tok() != ',') break;
        next();
      }
      break;
    case TK_REM: lex.discard(); break;
    case TK_RESTORE:
      next();
      if (tok() == TK_NUM) { unsigned n = line_number(); emit(A_RESTORE_LINE).line = n; }
      else emit(A_RESTORE);
      break;
    case TK_RETURN: next(); emit(A_RETURN); break;
    case TK_STOP: next(); emit(A_STOP); break;
    case TK_ID: assignment(); break;
    case '\n': case ':': break;
    default: error();
  }
  if (tok() == TK_ELSE) more = else_clause();
  return more;
}

bool Parser::else_clause() {
  if (if_then == 0) {
    if (code.at.back().op == A_GOTRUE) {
      next();
      unsigned n = line_number();
      emit(A_GOTO).line = n;
      return false;
    }
    error();
  }
  next();
  code.at[if_then].op = A_IF_ELSE;
  emit(A_ELSE);
  if_then = 0;
  return true;
}

void Parser::assignment() {
  Expr e; ex = &e;
  int params;
  int s = identifier(params, K_ARRAY);
  match('=');
  if (expression() != m.syms[s].type) error();
  Atom& a = emit(A_LET); a.sym = s; a.params = params; a.ex = e;
}

Item Parser::item() {
  Item i;
  Expr* save = ex;
  ex = &i.ex;
  i.sym = identifier(i.params, K_ARRAY);
  ex = save;
  return i;
}

void Parser::input(bool line) {
  std::string prompt;
  if (tok() == TK_STR) {
    prompt = lex.word;
    int sep = next();
    if (sep == ';' || sep == ',') next();
  }
  Atom a; a.op = line ? A_LINE_INPUT : A_INPUT; a.str = prompt;
  a.items.push_back(item());
  if (line) { if (m.syms[a.items[0].sym].type != T_STR) error(); }
  else while (tok() == ',') { next(); a.items.push_back(item()); }
  code.at.push_back(a);
}

void Parser::print() {
  int sep = 0;
  while (!eos()) {
    if (tok() == TK_ID) {
      int o = strcasecmp(lex.word.c_str(), "SPC") == 0 ? A_PRINT_SPC : strcasecmp(lex.word.c_str(), "TAB") == 0 ? A_PRINT_TAB : -1;
      if (o >= 0) {
        next();
        match('(');
        Expr e; ex = &e; num_expr();
        match(')');
        emit(o).ex = e;
        sep = 0;
        continue;
      }
    }
    if (tok() == ';') { next(); sep = ';'; continue; }
    if (tok() == ',') { next(); emit(A_PRINT_COMMA); sep = ','; continue; }
    Expr e; ex = &e;
    int t = expression();
    emit(t == T_NUM ? A_PRINT_NUM : A_PRINT_STR).ex = e;
    sep = 0;
  }
  if (sep == 0) emit(A_PRINT_LN);
}

unsigned Parser::line_number() {
  if (tok() == TK_NUM) {
    double x = lex.num;
    if (x > 0 && x <= 65535 && floor(x) == x) { next(); return (unsigned) x; }
  }
  error();
}

int Parser::identifier(int& params, int kind) {
  if (tok() != TK_ID) error();
  std::string name = lex.word;
  next();
  int type = type_of(name);
  params = 0;
  if (tok() == '(') {
    do { next(); num_expr(); ++params; } while (tok() == ',');
    match(')');
  }
  if (find_builtin(name) >= 0) error();
  int s = m.lookup(name, params != 0);
  if (s >= 0) {
    if (params) {
      if (m.syms[s].kind == K_UNKNOWN) m.syms[s].kind = kind;
      else if (kind != K_UNKNOWN && m.syms[s].kind != kind) error();
    }
    return s;
  }
  return m.insert(name, params ? kind : (int) K_VAR, type);
}

int Parser::numvar() {
  Expr e; Expr* save = ex; ex = &e;
  int params;
  int s = identifier(params, K_UNKNOWN);
  ex = save;
  if (m.syms[s].kind != K_VAR || m.syms[s].type != T_NUM) error();
  return s;
}

int Parser::expression() {
  int t = and_expr();
  while (tok() == TK_OR) {
    next();
    int u = and_expr();
    if (t != T_NUM || u != T_NUM) error();
    op(E_OR);
  }
  return t;
}

int Parser::and_expr() {
  int t = not_expr();
  while (tok() == TK_AND) {
    next();
    int u = not_expr();
    if (t != T_NUM || u != T_NUM) error();
    op(E_AND);
  }
  return t;
}

int Parser::not_expr() {
  unsigned n = 0;
  while (tok() == TK_NOT) { n++; next(); }
  int t = rel_expr();
  if (n) {
    if (t != T_NUM) error();
    if (n % 2) op(E_NOT);
  }
  return t;
}

int Parser::rel_expr() {
  int t = add_expr();
  int o = tok();
  if (o == '=' || o == '<' || o == '>' || o == TK_NE || o == TK_LE || o == TK_GE) {
    next();
    if (add_expr() != t) error();
    op(t == T_STR ? E_CMPS : E_CMPN, o);
    return T_NUM;
  }
  return t;
}

int Parser::add_expr() {
  int t = mul_expr();
  while (tok() == '+' || (t == T_NUM && tok() == '-')) {
    int o = tok();
    next();
    if (mul_expr() != t) error();
    if (t == T_NUM) op(E_BIN, o); else op(E_CAT);
  }
  return t;
}

int Parser::mul_expr() {
  int t = neg_expr();
  while (tok() == '*' || tok() == '/') {
    int o = tok();
    next();
    int u = neg_expr();
    if (t != T_NUM || u != T_NUM) error();
    op(E_BIN, o);
  }
  return t;
}

int Parser::neg_expr() {
  unsigned n = 0;
  while (tok() == '-') { n++; next(); }
  int t = pow_expr();
  if (n) {
    if (t != T_NUM) error();
    if (n % 2) op(E_NEG);
  }
  return t;
}

int Parser::pow_expr() {
  int t = primary();
  if (t == T_NUM && tok() == '^') {
    next();
    if (pow_expr() != T_NUM) error();
    op(E_BIN, '^');
  }
  return t;
}

int Parser::primary() {
  if (tok() == TK_NUM) { op(E_NUM); ex->back().num = lex.num; next(); return T_NUM; }
  if (tok() == TK_STR) { op(E_STR); ex->back().str = lex.word; next(); return T_STR; }
  if (tok() == TK_ID) {
    int b = find_builtin(lex.word);
    if (b >= 0) {
      auto& B = BUILTINS[b];
      if (B.type < 0) error();
      next();
      if (B.args[0] == 'd') {
        if (tok() == '(') {
          next();
          if (tok() != ')') op(expression() == T_NUM ? E_POPN : E_POPS);
          match(')');
        }
      }
      else {
        match('(');
        for (const char* a = B.args; *a; a++) {
          if (a != B.args) match(',');
          if (*a == 'n') num_expr(); else str_expr();
        }
        match(')');
      }
      op(E_FN, B.fn);
      return B.type;
    }
    int params;
    int s = identifier(params, K_UNKNOWN);
    if (params) op(E_GETP, s, params);
    else op(m.syms[s].type == T_STR ? E_GETS : E_GETN, s);
    return m.syms[s].type;
  }
  if (tok() == '(') {
    next();
    int t = expression();
    match(')');
    return t;
  }
  error();
}

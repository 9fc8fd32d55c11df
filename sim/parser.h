// Syntax rules, for the reference model: a line of source to atoms.
#pragma once
#include "model.h"

struct ParseErr {};
enum { FN_NONE, FN_ABS, FN_ASC, FN_ATN, FN_CHR, FN_COS, FN_EXP, FN_INT, FN_LEFT, FN_LEN, FN_LOG, FN_MID, FN_RIGHT, FN_RND, FN_SGN, FN_SIN, FN_SQR, FN_STR, FN_TAN, FN_TIME, FN_VAL };

bool known_builtin(const std::string& name);

struct Parser {
  Model& m;
  Code& code;
  Lexer lex;
  size_t if_then = 0;
  Expr* ex = nullptr;  // where expression operations go
  Parser(Model& m, Code& c, bool anywhere) : m(m), code(c), lex("", anywhere) {}
  void line(unsigned index, const std::string& text);
private:
  [[noreturn]] void error() { throw ParseErr(); }
  int tok() const { return lex.token; }
  int next() { return lex.next(); }
  void match(int t) { if (tok() != t) error(); next(); }
  bool eos() const { return tok() == TK_EOF || tok() == '\n' || tok() == ':' || tok() == TK_ELSE; }
  Atom& emit(int op) { code.at.push_back(Atom()); code.at.back().op = op; return code.at.back(); }
  void op(int o, int a = 0, int b = 0) { EOp e; e.op = o; e.a = a; e.b = b; ex->push_back(e); }
  bool statement();
  bool else_clause();
  void assignment();
  void print();
  void input(bool line);
  Item item();
  unsigned line_number();
  int identifier(int& params, int kind);
  int numvar();
  int expression();
  int and_expr(); int not_expr(); int rel_expr(); int add_expr(); int mul_expr(); int neg_expr(); int pow_expr(); int primary();
  void num_expr() { if (expression() != T_NUM) error(); }
  void str_expr() { if (expression() != T_STR) error(); }
};

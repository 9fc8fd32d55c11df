// Lexical rules of the language, for the reference model.
#include "model.h"
#include <cctype>
#include <cstdlib>
#include <strings.h>

static const struct { const char* name; int tok; } KEYWORDS[] = {
  { "AND", TK_AND }, { "CLEAR", TK_CLEAR }, { "CLS", TK_CLS }, { "DATA", TK_DATA }, { "DEF", TK_DEF }, { "DIM", TK_DIM },
  { "ELSE", TK_ELSE }, { "END", TK_END }, { "FOR", TK_FOR }, { "GOSUB", TK_GOSUB }, { "GOTO", TK_GOTO }, { "IF", TK_IF },
  { "INPUT", TK_INPUT }, { "LET", TK_LET }, { "LINE", TK_LINE }, { "NEXT", TK_NEXT }, { "NOT", TK_NOT }, { "ON", TK_ON },
  { "OR", TK_OR }, { "PRINT", TK_PRINT }, { "RANDOMIZE", TK_RANDOMIZE }, { "READ", TK_READ }, { "REM", TK_REM },
  { "RESTORE", TK_RESTORE }, { "RETURN", TK_RETURN }, { "STEP", TK_STEP }, { "STOP", TK_STOP }, { "THEN", TK_THEN }, { "TO", TK_TO } };

static const int EOF_ = -1;
static const size_t WORD = 128;

static int prefix(const char* s, size_t& len) {
  for (auto& k : KEYWORDS) {
    len = strlen(k.name);
    if (strncasecmp(k.name, s, len) == 0) return k.tok;
  }
  return 0;
}

static bool al(int c) { return c >= 0 && c < 128 && isalpha(c); }
static bool dig(int c) { return c >= '0' && c <= '9'; }
static bool alnum(int c) { return al(c) || dig(c); }

int Lexer::ch() {
  if (pos >= text.size()) return '\n';
  int c = (signed char) text[pos++];
  if (c != EOF_ && (c < 0 || c >= 127)) { invalid = true; complained = true; }
  return c;
}

int Lexer::peek() {
  if (pos >= text.size()) return '\n';
  int c = (signed char) text[pos];
  if (c != EOF_ && (c < 0 || c >= 127)) { invalid = true; complained = true; }
  return c;
}

void Lexer::back(int c) {
  if (c == '\n' && pos >= text.size()) return;
  if (pos) pos--;
}

int Lexer::next() {
  invalid = false;
  int t = scan();
  if (t == TK_ERROR) complained = true;
  return token = invalid ? (int) TK_ERROR : t;
}

int Lexer::scan() {
  size_t p;
  int c;
  do { p = pos; c = ch(); } while (c == ' ' || c == '\t' || c == '\r');
  token_pos = p;

  if (al(c)) {
    word.clear();
    if (anywhere) {
      back(c);
      size_t len;
      int kw = prefix(text.c_str() + pos, len);
      if (kw) { pos += len; return kw; }
      word += (char) ch();
      while (alnum(c = peek())) {
        if (al(c) && prefix(text.c_str() + pos, len)) return TK_ID;
        if (word.size() + 2 >= WORD) return TK_ERROR;
        word += (char) ch();
      }
      if (c == '$') word += (char) ch();
      return TK_ID;
    }
    word += (char) c;
    while (alnum(c = ch())) {
      if (word.size() + 2 >= WORD) return TK_ERROR;
      word += (char) c;
    }
    if (c == '$') word += '$'; else back(c);
    for (auto& k : KEYWORDS)
      if (strcasecmp(k.name, word.c_str()) == 0) return k.tok;
    return TK_ID;
  }

  if (dig(c) || c == '.') {
    word.clear();
    auto app = [&](int ch_) { if (word.size() + 1 >= WORD) return false; word += (char) ch_; return true; };
    if (dig(c)) do { if (!app(c)) return TK_ERROR; } while (dig(c = ch()));
    if (c == '.') {
      if (!app(c)) return TK_ERROR;
      while (dig(c = ch())) if (!app(c)) return TK_ERROR;
    }
    if (c == 'e' || c == 'E') {
      if (!app(c)) return TK_ERROR;
      if ((c = ch()) == '-') { if (!app(c)) return TK_ERROR; c = ch(); }
      while (dig(c)) { if (!app(c)) return TK_ERROR; c = ch(); }
    }
    back(c);
    char* end;
    num = strtod(word.c_str(), &end);
    return *end ? TK_ERROR : TK_NUM;
  }

  if (c == '"') {
    word.clear();
    while ((c = ch()) != '"' && c != '\n' && c != EOF_) {
      if (word.size() + 1 >= WORD) return TK_ERROR;
      word += (char) c;
    }
    return c == '"' ? TK_STR : TK_ERROR;
  }

  if (c == '<') {
    if ((c = ch()) == '>') return TK_NE;
    if (c == '=') return TK_LE;
    back(c);
    return '<';
  }
  if (c == '>') {
    if ((c = ch()) == '=') return TK_GE;
    back(c);
    return '>';
  }
  return c == EOF_ ? (int) TK_EOF : c;
}

bool Lexer::data(std::string& out) {
  invalid = false;
  size_t p;
  int c;
  do { p = pos; c = ch(); } while (c == ' ' || c == '\t');
  token_pos = p;
  out.clear();
  bool bad = false;
  if (c == '"') {
    while ((c = ch()) != '"' && c != '\n' && c != EOF_) {
      if (out.size() + 1 >= WORD) { bad = true; break; }
      out += (char) c;
    }
    if (!bad && c != '"') bad = true;
  }
  else {
    while (c != '"' && c != ',' && c != ':' && c != '\n' && c != EOF_) {
      if (out.size() + 1 >= WORD) { bad = true; break; }
      out += (char) c;
      c = ch();
    }
    if (!bad) {
      back(c);
      while (!out.empty() && (out.back() == ' ' || out.back() == '\t')) out.pop_back();
    }
  }
  if (bad || invalid) { complained = true; token = TK_ERROR; return false; }
  return true;
}

#include "util.h"

static void show1(std::string& o, unsigned c) {
  char b[16];
  if (c == '\n') o += "\\n";
  else if (c == '\t') o += "\\t";
  else if (c == '\r') o += "\\r";
  else if (c == '\\') o += "\\\\";
  else if (c >= 32 && c < 127) o += (char) c;
  else if (c < 256) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
  else switch (c) {
    case W_ANY: o += "<any>"; break;
    case W_SOME: o += "<some>"; break;
    case W_SOMENL: o += "<message>"; break;
    case T_SYS: o += "<system:"; break;
    case T_SYSEND: o += ">"; break;
  }
}

std::string show(const Text& t, size_t max) {
  std::string o;
  for (size_t i = 0; i < t.size(); i++) {
    if (o.size() > max) { o += "..."; break; }
    show1(o, t[i]);
  }
  return o;
}

std::string show(const std::string& s, size_t max) { return show(text_of(s), max); }

bool matches(const Text& p, const Text& s) {
  // split at wildcards: iterative matching with backtracking to the last wildcard
  size_t i = 0, j = 0;
  size_t star = (size_t) -1, mark = 0;
  bool starnl = false;
  for (;;) {
    if (i < p.size() && (p[i] == W_ANY || p[i] == W_SOME || p[i] == W_SOMENL)) {
      if (p[i] != W_ANY) {
        // needs one character first
        if (j < s.size() && s[j] < 256 && !(p[i] == W_SOMENL && s[j] == '\n')) {
          star = i; starnl = p[i] == W_SOMENL; mark = j + 1; j++; i++;
          continue;
        }
      }
      else { star = i; starnl = false; mark = j; i++; continue; }
    }
    else if (i < p.size() && j < s.size() && p[i] == s[j]) { i++; j++; continue; }
    else if (i == p.size() && j == s.size()) return true;
    if (star == (size_t) -1) return false;
    if (mark >= s.size() || s[mark] >= 256 || (starnl && s[mark] == '\n')) return false;
    mark++;
    j = mark;
    i = star + 1;
  }
}

import sys; sys.path.insert(0,'/tmp/plant')
from lib import make
R='Basic/run.c'; S='Basic/source.c'; I='Monitor/interactive.c'; X='Shared/interrupt.c'; U='Shared/utils.c'; L='Basic/linemap.c'; O='Shared/os.c'; Y='Basic/symbol.c'; A='Basic/arrays.c'; P='System/options.c'; M='System/lbasic.c'; BC='Basic/bcode.c'; LX='Basic/lexer.c'; PA='Basic/parse.c'; UQ='Shared/stringuniq.c'
B=[]
def bug(**k): B.append(k)
bug(id='restore-miss', prop='C16', edits=[(R,"""      vm->program_data = find_basic_line(vm, i->u.basic_line.lineno);
""","""      // from the line, or else from the beginning
      vm->program_data = 0;
      if (i->u.basic_line.lineno > 0)
        vm->program_data = find_basic_line(vm, i->u.basic_line.lineno);
""")],
 needs='RESTORE to a line that does not exist, then READ without RUN',
 breaks='the failed RESTORE moves the DATA position to the beginning',
 demo=r'''
session '10 DATA 1,2,3' '20 READ A' '30 STOP' 'RUN' 'RESTORE 500' 'READ B' 'PRINT "B=";B' > out
grep -q 'B= 2' out || fail "wrong item: $(cat out)"
''')
bug(id='fn-fresh', prop='C14', edits=[(R,"""  param_sym->defined = vm->fn.param_defined;
  param_sym->val.num = vm->fn.param_val;
""","""  if (vm->fn.param_defined)
    param_sym->val.num = vm->fn.param_val;
""")],
 needs='a function whose parameter has the name of a variable never used before, read after the call',
 breaks='the variable has the value of the argument',
 demo=r'''
session 'DEF FNA(Q)=Q+1' 'PRINT FNA(4)' 'PRINT "Q=";Q' > out
grep -q 'Q= 0' out || fail "variable set: $(cat out)"
''')
bug(id='save-last', prop='C06', edits=[(S,"""  for (unsigned i = 0; i < src->used; i++)
    fprintf(fp, "%u %s\\n", src->lines[i].num, src->lines[i].text);
  bool write_failed = ferror(fp);
""","""  bool write_failed = false;
  for (unsigned i = 0; i < src->used; i++)
    write_failed = fprintf(fp, "%u %s\\n", src->lines[i].num, src->lines[i].text) < 0;
""")],
 needs='a write error in the middle of SAVE that does not come again at the end',
 breaks='SAVE reports nothing and the file lacks a part',
 demo=r'''
cat > shim.c <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
#include <errno.h>
#include <stdio.h>
#include <stdarg.h>
/* the disk is full for one write */
static int n;
ssize_t write(int fd, const void* b, size_t k) {
  static ssize_t (*real)(int, const void*, size_t);
  if (!real) real = (ssize_t (*)(int, const void*, size_t)) dlsym(RTLD_NEXT, "write");
  return real(fd, b, k);
}
FILE* fopen(const char* name, const char* mode) {
  static FILE* (*real)(const char*, const char*);
  if (!real) real = (FILE* (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
  FILE* f = real(name, mode);
  if (f && mode[0] == 'w') setvbuf(f, NULL, _IONBF, 0);
  return f;
}
int vfprintf(FILE* f, const char* fmt, va_list ap) {
  static int (*real)(FILE*, const char*, va_list);
  if (!real) real = (int (*)(FILE*, const char*, va_list)) dlsym(RTLD_NEXT, "vfprintf");
  return real(f, fmt, ap);
}
int fprintf(FILE* f, const char* fmt, ...) {
  va_list ap;
  if (f != stderr && f != stdout && ++n == 2) {
    /* a real failed write: the stream's error indicator is set */
    int keep = dup(fileno(f));
    close(fileno(f));
    va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap);
    dup2(keep, fileno(f)); close(keep);
    return r < 0 ? r : -1;
  }
  va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap);
  return r;
}
EOF
gcc -shared -fPIC -o shim.so shim.c -ldl || exit 2
printf '10 PRINT 1\n20 PRINT 2\n30 PRINT 3\n40 PRINT 4\nSAVE "p"\n' > in
LD_PRELOAD=$PWD/shim.so timeout 20 "$LB" -q < in > out 2>&1
n=$(wc -l < p)
[ "$n" = 4 ] || grep -qi 'cannot\|error\|fail' out || fail "incomplete and not reported: $(cat p) / $(cat out)"
''')
bug(id='break-loop', prop='C10', edits=[(R,"""    while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !(interrupted && can_break(vm)))
      execute(vm);
""","""    bool line_start = true; // an interrupt takes effect between lines
    while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !(line_start && interrupted && can_break(vm))) {
      line_start = vm->code_state.code->bcode->inst[vm->code_state.pc].op != B_PRINT_LN;
      const unsigned from = vm->code_state.pc;
      execute(vm);
      if (vm->code_state.pc < from && vm->code_state.code->bcode->used > 6)
        line_start = vm->code_state.code->bcode->inst[vm->code_state.pc].op == B_SOURCE_LINE;
      else if (interrupted)
        line_start = vm->code_state.pc >= vm->code_state.code->bcode->used || vm->code_state.code->bcode->inst[vm->code_state.pc].op == B_SOURCE_LINE;
    }
""")],
 needs='CTRL-C during a loop written on one line',
 breaks='the loop cannot be interrupted',
 demo=r'''
mkfifo in
(timeout 20 "$LB" -q < in > /dev/null 2>&1; echo done > ended) &
exec 3> in
printf '10 FOR I=1 TO 2 STEP 0:X=X+1:NEXT I\nRUN\n' >&3
sleep 1
p=$(pgrep -n -f "^$LB -q")
kill -INT "$p"
printf 'BYE\n' >&3
sleep 1.5
ok=0; [ -f ended ] && ok=1
kill -9 "$p" 2> /dev/null
[ $ok = 1 ] || fail "still running"
''')
bug(id='col-short', prop='C18', edits=[(R,"  unsigned col;\n","  unsigned short col;\n")],
 needs='more than 65535 characters printed on one line, then TAB',
 breaks='the print position wraps, so TAB does not start a new line',
 demo=r'''
session 'PRINT SPC(65540);TAB(20);"X"' > out
grep -q '^ *X' out && grep -c . out > n
l=$(grep -n 'X' out | head -1 | cut -d: -f1)
[ "$l" = 2 ] || fail "X is on line $l"
''')
bug(id='seed-same', prop='C19', edits=[(R,"""      srand(pop_unsigned(vm));
      break;
""","""      {
        static unsigned latest = 1;
        unsigned seed = pop_unsigned(vm);
        if (seed != latest)
          srand(seed);
        latest = seed;
      }
      break;
""")],
 needs='RANDOMIZE with the same number twice in a row',
 breaks='the sequence is not started again',
 demo=r'''
session 'RANDOMIZE 7' 'PRINT "R";RND(1)' 'RANDOMIZE 7' 'PRINT "R";RND(1)' | grep -o 'R.*' | sort -u > out
[ $(wc -l < out) = 1 ] || fail "sequences differ: $(cat out)"
''')
bug(id='cls-once', prop='C25', edits=[(O,"""  if (CMD == NULL || system(CMD) != 0) {
""","""  static int unusable; // no terminal: it will not come back
  if (CMD == NULL || unusable || (unusable = system(CMD)) != 0) {
""")],
 needs='CLS after a CLS that failed',
 breaks='the screen is never cleared again',
 demo=r'''
mkdir bin
cat > bin/clear <<'EOF'
#!/bin/sh
echo run >> log
[ $(wc -l < log) -gt 1 ]
EOF
chmod +x bin/clear
printf 'CLS\nCLS\nCLS\n' > in
PATH=$PWD/bin:$PATH timeout 20 "$LB" -q < in > out 2>&1
[ $(wc -l < log) = 3 ] || fail "ran $(wc -l < log) times"
''')
bug(id='cmd-prefix', prop='C02', edits=[(I,"""    if (commands[i].len == len && STRNICMP(commands[i].name, cmd, len) == 0)
      return commands[i].cmd;
""","""    // a command may be followed directly by a name
    if (commands[i].len == len || commands[i].len + 1u == len) {
      if (STRNICMP(commands[i].name, cmd, commands[i].len) == 0)
        return commands[i].cmd;
    }
""")],
 needs='an immediate assignment to a variable whose name is that of a command and one letter more',
 breaks='NEWS=1 reports an error or the command is executed: RUNS=1 runs the program and clears the variables',
 demo=r'''
session '10 PRINT "ran"' 'A=5' 'RUNS=1' 'PRINT "A=";A' > out
grep -q 'A= 5' out && ! grep -q ran out || fail "command executed: $(cat out)"
''')
bug(id='renum-exp', prop='C04', edits=[(I,"""          double x = lex_num(lex);
""","""          double x = strtoul(lex_word(lex), NULL, 10);
""")],
 needs='a line number written with an exponent or a point, GOTO 1E2',
 breaks='RENUM replaces it by the new number of another line',
 demo=r'''
session '1 REM one' '50 GOTO 1E2' '100 PRINT "hundred":END' 'RENUM 10' 'RUN' > out
grep -q hundred out || fail "reference broken: $(cat out)"
''')
bug(id='data-empty', prop='C16', edits=[(BC,"""  if (op == B_DATA)
    p->has_data = true;
  return i;
""","""  // an item counts once something follows it
  p->has_data = p->has_data || (p->used > 1 && p->inst[p->used - 2].op == B_DATA);
  return i;
""")],
 needs='DATA with one item at the very end of the code (an immediate READ A:DATA 5)',
 breaks='the item is not seen: the DATA of the program is read or no DATA is reported',
 demo=r'''
session 'READ A:PRINT "A=";A:DATA 5' > out
grep -q 'A= 5' out || fail "not read: $(cat out)"
''')
bug(id='blame-cut', prop='C13', edits=[(S,"""    fprintf(fp, "%u %s", source_linenum(source, line), source_text(source, line));
""","""    fprintf(fp, "%u %.100s", source_linenum(source, line), source_text(source, line));
""")],
 needs='an error in a line of more than 100 characters',
 breaks='the text of the line is reported incompletely',
 demo=r'''
l="10 PRINT \"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\":PRINT LOG(0)"
session "$l" 'RUN' > out
[ $(grep -c 'LOG(0)' out) = 1 ] || fail "cut: $(cat out)"
''')
bug(id='err-buf', prop='C23', edits=[(R,"""  va_list ap;
  va_start(ap, fmt);
  vfprintf(stderr, fmt, ap);
  va_end(ap);

  if (vm""","""  char message[160]; // in one piece
  va_list ap;
  va_start(ap, fmt);
  vsprintf(message, fmt, ap);
  va_end(ap);
  fputs(message, stderr);

  if (vm""")],
 needs='a run-time error that quotes more than about 140 characters',
 breaks='a buffer overflows',
 demo=r'''
session 'A$="xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"' 'FOR I=1 TO 7:A$=A$+A$:NEXT' 'PRINT VAL(A$)' 'PRINT "alive"' > out
grep -q alive out || fail "ended: $(tail -3 out)"
''')
bug(id='oom-wait', prop='C21', edits=[(U,"""  void* p = malloc(sz);
  if (p == NULL)
    fatal("out of memory (emalloc)\\n");
""","""  void* p = malloc(sz);
  while (p == NULL && sz <= 64) // a little will be found soon
    p = malloc(sz);
  if (p == NULL)
    fatal("out of memory (emalloc)\\n");
""")],
 needs='memory exhausted for good when a small block is wanted',
 breaks='the interpreter hangs',
 demo=r'''
cat > shim.c <<'EOF'
#define _GNU_SOURCE
#include <stddef.h>
#include <dlfcn.h>
/* no memory for small blocks of a certain size after a while */
void* malloc(size_t n) {
  static void* (*real)(size_t);
  static int k;
  if (!real) real = (void* (*)(size_t)) dlsym(RTLD_NEXT, "malloc");
  if (n == 52 && ++k) return NULL;
  return real(n);
}
EOF
gcc -shared -fPIC -o shim.so shim.c -ldl || exit 2
printf 'A$="aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"\nPRINT 1\n' > in
LD_PRELOAD=$PWD/shim.so timeout 5 "$LB" -q < in > out 2>&1
[ $? != 124 ] || fail hangs
''')
bug(id='read-atomic', prop='C16', edits=[(R,"""  if (immediate)
    vm->immediate_data = dp;
  else
    vm->program_data = dp;

  return s;
""","""  // the position moves on when the item has been converted
  const unsigned pc = vm->code_state.pc;
  const int op = vm->code_state.code->bcode->inst[pc].op;
  if (op == B_READ_NUM) {
    double x;
    const char* t = convert(s, &x);
    if (t == NULL || *t != '\\0')
      return s;
  }
  if (immediate)
    vm->immediate_data = dp;
  else
    vm->program_data = dp;

  return s;
""")],
 needs='READ of a number at an item that is not one, then another READ',
 breaks='(the item is delivered again)',
 demo='exit 1')
bug(id='code-rem', prop='C28', edits=[],needs='',breaks='',demo='exit 1') if 0 else None
bug(id='stop-else', prop='C12', edits=[(R,"""      if (vm->stopped)
        vm->stopped_program.pc++;
""","""      if (vm->stopped) {
        const BCODE* bc = vm->code_state.code->bcode;
        vm->stopped_program.pc++;
        // nothing left in a THEN part: go on after the ELSE part
        if (vm->stopped_program.pc < bc->used && bc->inst[vm->stopped_program.pc].op == B_ELSE)
          vm->stopped_program.pc++;
      }
""")],
 needs='STOP as the last statement of a THEN part with an ELSE part, then CONT',
 breaks='the ELSE part is executed as well',
 demo=r'''
session '10 IF 1 THEN PRINT "a":STOP ELSE PRINT "b"' '20 PRINT "c"' 'RUN' 'CONT' > out
grep -q '^b\|> b' out && fail "ELSE executed: $(cat out)"
grep -q c out || fail "no continuation"
''')
bug(id='for-imm', prop='C15', edits=[(R,"""    if (vm->for_stack[i].code_state.code != &vm->stored_program)
      return true;
  }
""","""    if (vm->for_stack[i].code_state.code != &vm->stored_program && i + 1 < vm->for_sp + vm->rsp)
      return true;
  }
""")],
 needs='an immediate FOR that is left unfinished as the innermost and only loop, then NEXT',
 breaks='the loop of a line that no longer exists is continued in another one',
 demo=r'''
session 'FOR I=1 TO 3' 'PRINT "x":NEXT' > out
grep -q 'NEXT without FOR' out || fail "loop kept: $(cat out)"
''')
bug(id='edit-next', prop='C02', edits=[(S,"""    if (src->lines[i].num > num) {
      spread(src, i);
""","""    if (src->lines[i].num > num) {
      if (i > 0 && src->lines[i - 1].text[0] == '\\0') {
        // use the place of an empty line
        i--;
        efree(src->lines[i].text);
      }
      else
        spread(src, i);
""")],
 needs='a line that is empty (from a file: a number and nothing else), then a new line after it',
 breaks='the empty line disappears',
 demo=r'''
printf '10\n20 PRINT 2\n' > p
session 'LOAD "p"' '15 PRINT 1' 'LIST' > out
grep -q '10 *$' out || fail "line lost: $(cat out)"
''')
bug(id='kill-order', prop='C08', edits=[(S,"""  FILE* fp = fopen(name, "w");
  if (fp == NULL) {
    fprintf(stderr, "cannot create file: %s\\n", name);
    return false;
  }
""","""  static FILE* fp; // finished when the next one begins
  if (fp) {
    fclose(fp);
    fp = NULL;
  }
  fp = fopen(name, "w");
  if (fp == NULL) {
    fprintf(stderr, "cannot create file: %s\\n", name);
    return false;
  }
"""),(S,"""  if (fclose(fp) != 0)
    write_failed = true;
  if (write_failed) {
    fprintf(stderr, "cannot write file: %s\\n", name);
    return false;
  }
  return true;
""","""  if (src->used < 3) {
    // nothing much to wait for
    if (fflush(fp) != 0)
      write_failed = true;
  }
  else {
    if (fclose(fp) != 0)
      write_failed = true;
    fp = NULL;
  }
  if (write_failed) {
    fprintf(stderr, "cannot write file: %s\\n", name);
    return false;
  }
  return true;
""")],
 needs='SAVE of a program of one or two lines',
 breaks='the file stays open',
 demo=r'''
mkfifo in
(timeout 20 "$LB" -q < in > /dev/null 2>&1) &
exec 3> in
printf '10 PRINT 1\nSAVE "p"\n' >&3
sleep 1
p=$(pgrep -n -f "^$LB -q")
n=$(ls -l /proc/$p/fd | grep -c '/p$')
printf 'BYE\n' >&3
[ "$n" = 0 ] || fail "still open"
''')
B[-1]['prop']='C09'
bug(id='kw-list', prop='C24', edits=[(M,"new_vm(opt->keywords_anywhere, opt->trace_basic, opt->trace_for, opt->trace_log)","new_vm(opt->keywords_anywhere && !opt->trace_basic, opt->trace_basic, opt->trace_for, opt->trace_log)")],
 needs='options -k and -t together with a crunched program',
 breaks='tracing changes how the program is read',
 demo=r'''
printf '10 FORI=1TO2:PRINTI:NEXTI\n' > p.bas
timeout 20 "$LB" -q -k -t p.bas > out 2>&1
grep -q 'FOR' out && fail "not run: $(cat out)"
exit 0
''')
want=sys.argv[1:]
for b in B:
    if b and (not want or b['id'] in want): make(b)

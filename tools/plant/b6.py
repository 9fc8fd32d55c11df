import sys; sys.path.insert(0,'/tmp/plant')
from lib import make
R='Basic/run.c'; S='Basic/source.c'; I='Monitor/interactive.c'; X='Shared/interrupt.c'; U='Shared/utils.c'; L='Basic/linemap.c'; O='Shared/os.c'; Y='Basic/symbol.c'; A='Basic/arrays.c'; P='System/options.c'; M='System/lbasic.c'; BC='Basic/bcode.c'; LX='Basic/lexer.c'; PA='Basic/parse.c'; UQ='Shared/stringuniq.c'
B=[]
def bug(**k): B.append(k)
bug(id='tab-deaf', prop='C10', edits=[(R,"""      while (vm->col < k && !interrupted)
        putchar(' '), vm->col++;""","""      for (; vm->col < k; vm->col++)
        putchar(' ');""")],
 needs='CTRL-C during a TAB to a huge column',
 breaks='the interrupt is not noticed until gigabytes of spaces have been printed',
 demo=r'''
mkfifo in
(timeout 20 "$LB" -q < in > /dev/null 2>&1; echo done > ended) &
exec 3> in
printf 'PRINT TAB(4000000000)\n' >&3
sleep 1
p=$(pgrep -n -f "^$LB -q")
kill -INT "$p"
printf 'BYE\n' >&3
sleep 1.5
ok=0; [ -f ended ] && ok=1
kill -9 "$p" 2> /dev/null
[ $ok = 1 ] || fail "still printing"
''')
bug(id='print-cut', prop='C11', edits=[(R,"""      for (const char* S = s; *S; S++) {
        putchar(*S);""","""      for (const char* S = s; *S && !interrupted; S++) {
        putchar(*S);""")],
 needs='CTRL-C while a string is about to be printed, then CONT',
 breaks='the string is never printed',
 demo=r'''
cat > shim.c <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
/* CTRL-C during the evaluation of SIN */
double sin(double x) { static double (*f)(double); static int n; if (!f) f = dlsym(RTLD_NEXT, "sin");
  if (n++ == 0) raise(SIGINT); return f(x); }
EOF
gcc -shared -fPIC -o shim.so shim.c -ldl -fno-builtin || exit 2
printf '10 PRINT LEFT$("ABCDEF",3+SIN(0));"Z"\n20 PRINT "E"\nRUN\nCONT\n' > in
LD_PRELOAD=$PWD/shim.so "$LB" -q < in > out 2>&1
grep -q Break out || exit 0
tr -d '\n' < out | sed 's/> //g;s/Break//g' | grep -q 'ABCZ' || fail "text lost: $(cat out)"
''')
bug(id='data-cut', prop='C11', edits=[(R,"""  while (dp < bc->used && bc->inst[dp].op != B_DATA)
    dp++;
""","""  while (dp < bc->used && bc->inst[dp].op != B_DATA && !interrupted)
    dp++;
"""),(R,"""  const char* s = bc->inst[dp++].u.str;
  if (s == NULL)
    run_error""","""  const char* s = bc->inst[dp].op == B_DATA ? bc->inst[dp].u.str : "0";
  dp++;
  if (s == NULL)
    run_error""")],
 needs='CTRL-C while READ looks for the next DATA item',
 breaks='the item read is 0',
 demo=r'''
cat > shim.c <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <math.h>
double sin(double x) { static double (*f)(double); static int n; if (!f) f = dlsym(RTLD_NEXT, "sin");
  if (n++ == 0) raise(SIGINT); return f(x); }
EOF
gcc -shared -fPIC -o shim.so shim.c -ldl -fno-builtin || exit 2
# the interrupt comes in a function whose call is followed by READ without a safe point
cat > in <<'EOF'
10 READ A(SIN(0))
20 PRINT "A IS";A(0)
30 DATA 7
RUN
CONT
EOF
LD_PRELOAD=$PWD/shim.so "$LB" -q < in > out 2>&1
grep -q 'A IS 7' out || fail "wrong item: $(cat out)"
''')
bug(id='list-near', prop='C02', edits=[(I,"""      if (lineno >= start && lineno <= end) {""","""      bool last_before = i + 1 < source_lines(src) && start > lineno && start < source_linenum(src, i + 1) && end >= source_linenum(src, i + 1) && start + 1 == source_linenum(src, i + 1);
      if (last_before || lineno >= start && lineno <= end) {""")],
 needs='LIST from a number that is one below a line of the program but is not itself a line',
 breaks='the line before the range is listed as well',
 demo=r'''
session '10 REM A' '20 REM B' 'LIST 19-' > out
grep -q 'REM A' out && fail "listed a line outside the range: $(cat out)"
exit 0
''')
bug(id='goto-cache2', prop='C03', edits=[(L,"""  unsigned h = basic_line % LINE_HASH_SIZE;
  for (const struct line_node * node = map->hash[h]; node; node = node->next) {
    if (node->basic_line == basic_line) {
      *val = node->val;
      return true;
    }
  }
  return false;""","""  // most lookups repeat the latest one
  static const LINE_MAP* latest_map;
  static unsigned latest_count, latest_line, latest_val;
  if (map == latest_map && map->count == latest_count && basic_line == latest_line) {
    *val = latest_val;
    return true;
  }
  unsigned h = basic_line % LINE_HASH_SIZE;
  for (const struct line_node * node = map->hash[h]; node; node = node->next) {
    if (node->basic_line == basic_line) {
      latest_map = map;
      latest_count = map->count;
      latest_line = basic_line;
      latest_val = *val = node->val;
      return true;
    }
  }
  return false;""")],
 needs='a program run again after a line has been replaced by a longer one, its index at the same address',
 breaks='GOTO jumps to where the line used to be',
 demo=r'''
for n in $(seq 1 80); do
  session '10 GOTO 9000' $(seq 100 $((99+n)) | sed 's/$/REM/') '8000 PRINT "NO"' '9000 PRINT "A"' 'RUN' '8000 PRINT "NO":A=1:B=2:PRINT "NEVER"' 'RUN' > out
  grep -q 'N' out && fail "wrong line run: $(cat out)"
done
exit 0
''')
bug(id='renum-top', prop='C04', edits=[(I,"""          if (x > 0 && x <= (U16)(-1) && floor(x) == x) {""","""          if (x > 0 && x < (U16)(-1) && floor(x) == x) {""")],
 needs='a reference to line 65535',
 breaks='RENUM changes the line but not the reference',
 demo=r'''
session '10 GOTO 65535' '65535 END' 'RENUM' 'LIST' > out
grep -q '10 GOTO 20' out || fail "reference not changed: $(cat out)"
''')
bug(id='renum-same', prop='C04', edits=[(I,"""              if (!source_replace(source, line, lex_token_pos(lex), lex_word(lex), num)) {
                error("internal error: renumbering: replacing line number in source line");
                goto bail;
              }
              tok = lex_refresh""","""              if (!source_replace(source, line, lex_token_pos(lex), lex_word(lex), num)) {
                error("internal error: renumbering: replacing line number in source line");
                goto bail;
              }
              if (strlen(num) == strlen(lex_word(lex))) {
                // nothing after it has moved
                tok = lex_next(lex);
                continue;
              }
              tok = lex_refresh"""),(I,"""              sprintf(num, "%u", new_basic_line);""","""              snprintf(num, sizeof num, "%u", new_basic_line);""")],
 needs='RENUM of a line with a reference whose new number has as many digits as the old one',
 breaks='the old text of the line, already released, is read on',
 demo=r'''
session '100 GOTO 200' '200 ON X GOTO 100,200,300:PRINT "A":GOSUB 300:GOSUB 100' '300 END' 'RENUM 400,1,50' 'LIST' > out
grep -q '450 ON X GOTO 400,450,500:PRINT "A":GOSUB 500:GOSUB 400' out || fail "wrong: $(cat out)"
''')
bug(id='load-cr', prop='C05', edits=[(S,"""  // treat one space as pure delimiter but preserve any other indenting
  if (*s == ' ')
    s++;
  return s;""","""  // treat one space as pure delimiter but preserve any other indenting
  if (*s == ' ')
    ++s;
  // lines from another system end in a carriage return
  char* end = strrchr(line, '\\r');
  if (end != NULL && end >= s && end[1] == '\\0')
    *end = '\\0';
  return s;""")],
 needs='a program line that ends in a carriage return',
 breaks='it is missing after SAVE and LOAD',
 demo=r'''
printf '10 REM A\r\nSAVE "p.bas"\nNEW\nLOAD "p.bas"\nLIST\n' | timeout 20 "$LB" -q > out 2>&1
grep -q $'REM A\r' out || fail "text changed: $(cat -v out)"
''')
bug(id='save-write', prop='C06', edits=[(S,"""  for (unsigned i = 0; i < src->used; i++)
    fprintf(fp, "%u %s\\n", src->lines[i].num, src->lines[i].text);
  bool write_failed = ferror(fp);
  if (fclose(fp) != 0)
    write_failed = true;""","""  bool write_failed = false;
  for (unsigned i = 0; i < src->used; i++) {
    if (i % 64 == 0)
      clearerr(fp); // start a new group of lines
    fprintf(fp, "%u %s\\n", src->lines[i].num, src->lines[i].text);
    write_failed = ferror(fp);
  }
  if (fclose(fp) != 0)
    write_failed = true;""")],
 needs='a disk error while a program of more than 64 lines is being saved, that does not happen again',
 breaks='SAVE reports success although part of the program is missing',
 demo=r'''
cat > shim.c <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <string.h>
/* the first write to the file fails, later ones succeed */
static ssize_t wr(void* c, const char* b, size_t n) { int* k = c; if ((*k)++ == 0) { errno = EIO; return 0; } return n; }
FILE* fopen(const char* n, const char* m) { static FILE* (*f)(const char*, const char*); if (!f) f = dlsym(RTLD_NEXT, "fopen");
  static int k; if (!strcmp(n, "p.bas")) { cookie_io_functions_t io = { .write = wr }; return fopencookie(&k, m, io); } return f(n, m); }
EOF
gcc -shared -fPIC -o shim.so shim.c -ldl || exit 2
a=$(printf 'x%.0s' $(seq 90))
{ for i in $(seq 10 10 1400); do echo "$i REM $a"; done; echo 'SAVE "p.bas"'; } > in
LD_PRELOAD=$PWD/shim.so timeout 20 "$LB" -q < in > out 2>&1
grep -q 'cannot write' out || fail "failure not reported: $(cat out)"
''')
bug(id='load-lock', prop='C08', edits=[(S,"""  FILE* fp = fopen(name, "r");
  if (fp == NULL) {
    fprintf(stderr, "Cannot open source file: %s\\n", name);
    return NULL;
  }
  SOURCE* src = new_source(name);
  char buf[LINE_BUFFER];
  while (fgets(buf, sizeof buf, fp)) {""","""  // nobody else should read it meanwhile
  char lock[LINE_BUFFER + 8];
  snprintf(lock, sizeof lock, "%s.lock", name);
  bool locked = rename(name, lock) == 0;
  FILE* fp = fopen(locked ? lock : name, "r");
  if (fp == NULL) {
    fprintf(stderr, "Cannot open source file: %s\\n", name);
    if (locked)
      rename(lock, name);
    return NULL;
  }
  SOURCE* src = new_source(name);
  char buf[LINE_BUFFER];
  fgetc(fp), rewind(fp);
  if (locked)
    rename(lock, name);
  while (fgets(buf, sizeof buf, fp)) {""")],
 needs='the interpreter being killed during LOAD, at one of two points',
 breaks='the saved file is no longer there under its name',
 demo=r'''
cat > shim.c <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
/* killed while the program file is being opened */
FILE* fopen(const char* n, const char* m) { static FILE* (*f)(const char*, const char*); if (!f) f = dlsym(RTLD_NEXT, "fopen");
  FILE* p = f(n, m); if (strstr(n, "p.bas")) kill(getpid(), SIGKILL); return p; }
EOF
gcc -shared -fPIC -o shim.so shim.c -ldl || exit 2
session '10 PRINT "HELLO"' 'SAVE "p.bas"' > /dev/null
printf 'LOAD "p.bas"\n' > in
LD_PRELOAD=$PWD/shim.so "$LB" -q < in > out 2>&1
[ -s p.bas ] || fail "the saved program is gone"
''')
bug(id='cont-end', prop='C12', edits=[(R,"""    else
      clear_code_state(&vm->stopped_program);
  }
}""","""    else if (failed || vm->rsp == 0)
      clear_code_state(&vm->stopped_program);
  }
}""")],
 needs='a program that stops, is continued, and ends inside a subroutine; then CONT once more',
 breaks='the program is continued again from the old place',
 demo=r'''
session '10 GOSUB 30' '20 END' '30 STOP' '40 PRINT "ON"' '50 END' 'RUN' 'CONT' 'CONT' > out
[ "$(grep -c 'ON' out)" = 1 ] || fail "continued twice: $(cat out)"
grep -q 'Cannot continue' out || fail "not refused: $(cat out)"
''')
bug(id='def-back', prop='C13', edits=[(R,"""  vm->code_state = vm->fn.code_state;
  vm->fn.code_state.code = NULL;""","""  vm->code_state.code = vm->fn.code_state.code;
  vm->code_state.pc = vm->fn.code_state.pc;
  vm->fn.code_state.code = NULL;""")],
 needs='an error on a line after a user-defined function has returned on that line',
 breaks='the error is reported for the line that defines the function',
 demo=r'''
session '10 DEF FNA(X)=X+1' '20 PRINT FNA(1):PRINT LOG(0)' 'RUN' > out
grep -A1 'Runtime error' out | grep -q '^20 ' || fail "wrong line: $(cat out)"
''')
bug(id='input-keep', prop='C17', edits=[(R,"""      puts("* More input items are expected *");
      vm->code_state.pc = vm->input_pc;
      vm->input_active = false;
      return;""","""      fputs("* More input items are expected *\\n", stdout);
      if (vm->input[0] == ',' ) { // the first item was left out on purpose: keep it
        fputs("? ", stdout);
        fflush(stdout);
        if (fgets(vm->input, sizeof vm->input, stdin) != NULL) {
          vm->inp = 0;
          break;
        }
      }
      vm->code_state.pc = vm->input_pc;
      vm->input_active = false;
      return;""")],
 needs='a reply that begins with a comma and has too few items, then another reply',
 breaks='the second reply is not taken from its first item',
 demo=r'''
session '10 INPUT A$,B$,C$' '20 PRINT "<";A$;"|";B$;"|";C$;">"' 'RUN' ',two' 'x,y,z' > out
grep -q '<x|y|z>' out || fail "wrong items: $(cat out)"
''')
bug(id='input-col', prop='C18', edits=[(R,"""      vm->inp = 0;
      vm->input_pc = vm->code_state.pc;""","""      vm->inp = 0;
      if (i->u.str == NULL)
        vm->col = 1; // the reply ended the line
      vm->input_pc = vm->code_state.pc;""")],
 needs='PRINT with a semicolon, INPUT without a prompt, then PRINT with a comma',
 breaks='print zones begin elsewhere than they did',
 demo='')
bug(id='rnd-run', prop='C19', edits=[(R,"""    reset_control_state(vm);
    vm->code_state.code = &vm->stored_program;
    vm->code_state.source_line = 0;
    vm->code_state.pc = 0;
    run(vm);
  }
}

static bool immediate_state""","""    reset_control_state(vm);
    vm->code_state.code = &vm->stored_program;
    vm->code_state.source_line = vm->code_state.pc = 0;
    vm->inp = 0;
    run(vm);
    if (vm->code_state.pc >= vm->code_state.code->bcode->used && vm->stored_program.bcode->has_data)
      srand(1); // the next run starts afresh
  }
}

static bool immediate_state""")],
 needs='a program with DATA that ends normally, and RND used after it',
 breaks='the random sequence starts again although nothing seeded it',
 demo=r'''
session '10 DATA 1' '20 A=RND' 'RANDOMIZE 5' 'PRINT "R";RND' 'RUN' 'PRINT "R";RND' > out1
session 'RANDOMIZE 5' 'PRINT "R";RND' 'A=RND' 'PRINT "R";RND' > out2
[ "$(grep -o 'R [0-9.e-]*' out1)" = "$(grep -o 'R [0-9.e-]*' out2)" ] || fail "sequence restarted: $(cat out1)"
''')
bug(id='time-year', prop='C20', edits=[(R,"""      time_t t = time(NULL);
      struct tm * tm = localtime(&t);
      char buf[12];""","""      static time_t midnight;
      static struct tm day;
      time_t t = time(NULL);
      struct tm * tm = &day;
      if (midnight == 0 || t < midnight || t >= midnight + 86400) {
        day = *localtime(&t);
        midnight = t - (day.tm_hour * 3600L + day.tm_min * 60 + day.tm_sec);
      }
      day.tm_hour = (int) ((t - midnight) / 3600);
      day.tm_min = (int) ((t - midnight) / 60 % 60);
      day.tm_sec = (int) ((t - midnight) % 60);
      char buf[12];""")],
 needs='summer time beginning or ending during the session',
 breaks='TIME$ goes on in the old offset until midnight',
 demo=r'''
cat > shim.c <<'EOF'
#include <time.h>
#include <stddef.h>
/* the end of summer time in New York on 1 November 2026 falls between two calls */
time_t time(time_t* p) { static int n; time_t t = 1793511000 + 7200 * n++; if (p) *p = t; return t; }
EOF
gcc -shared -fPIC -o shim.so shim.c || exit 2
printf 'PRINT "T ";TIME$\nPRINT "T ";TIME$\n' > in
TZ=EST5EDT,M3.2.0,M11.1.0 LD_PRELOAD=$PWD/shim.so "$LB" -q < in > out 2>&1
a=$(TZ=EST5EDT,M3.2.0,M11.1.0 date -d @1793511000 +%H:%M:%S)
b=$(TZ=EST5EDT,M3.2.0,M11.1.0 date -d @1793518200 +%H:%M:%S)
grep -q "T $a" out && grep -q "T $b" out || fail "wrong time, not $a and $b: $(cat out)"
''')
bug(id='realloc-old', prop='C21', edits=[(U,"""  p = realloc(p, sz);
  if (p == NULL)
    fatal("out of memory (erealloc)\\n");
  malloc_count++;
  return p;""","""  void* q = realloc(p, sz);
  if (q == NULL) {
    if (p == NULL)
      fatal("out of memory (erealloc)\\n");
    q = p; // make do with what there is
  }
  malloc_count++;
  return q;""")],
 needs='running out of memory just when a table grows',
 breaks='the interpreter writes beyond the end of the block',
 demo=r'''
cat > shim.c <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <stddef.h>
void* realloc(void* p, size_t n) { static void* (*f)(void*, size_t); if (!f) f = dlsym(RTLD_NEXT, "realloc");
  return p && n >= 4000 ? NULL : f(p, n); }
EOF
gcc -shared -fPIC -o shim.so shim.c -ldl -fno-builtin || exit 2
{ for i in $(seq 1 400); do echo "$i REM"; done; echo 'PRINT "ALIVE"'; } > in
LD_PRELOAD=$PWD/shim.so "$LB" -q < in > out 2>&1
grep -q 'out of memory' out || fail "carried on without memory: $(tail -3 out)"
''')
bug(id='setstr-leak', prop='C22', edits=[(R,"""  if (sym->val.str) {
    assert(sym->defined);
    efree(sym->val.str);
  }
""","""  if (sym->val.str && sym->val.str[0]) { // nothing to release in an empty string
    assert(sym->defined);
    efree(sym->val.str);
  }
""")],
 needs='a string variable that held the empty string being assigned',
 breaks='the old value is never released',
 demo=r'''
printf '10 A$=""\n20 A$="X"\n' > p.bas
timeout 20 "$LB" -q -m p.bas > out 2>&1
a=$(sed -n 's/^malloc: *//p' out); b=$(sed -n 's/^free: *//p' out)
[ -n "$a" ] && [ "$a" = "$b" ] || fail "not released: $(cat out)"
''')
bug(id='renum-buf', prop='C23', edits=[(I,"""              char num[16];
              sprintf(num, "%u", new_basic_line);""","""              static struct { char num[5]; char count; } n; // five digits at most
              char* num = n.num;
              sprintf(num, "%u", new_basic_line);
              n.count++;""")],
 needs='a reference that gets a five-digit line number, twice in a row',
 breaks='the number in the line is corrupted',
 demo=r'''
session '10 GOTO 20' '20 ON A GOTO 10,20,10' 'RENUM 20000' 'LIST' > out
cat -v out > out2
grep -q '20000 GOTO 20010$' out2 && grep -q '20010 ON A GOTO 20000,20010,20000$' out2 || fail "corrupt: $(cat out2)"
''')
bug(id='batch-line', prop='C24', edits=[(M,"""  if (vm_load_source(vm, opt->file_name)) {""","""  const bool loaded = vm_load_source(vm, opt->file_name);
  if (loaded) {
    if (source_lines(vm_stored_source(vm)) == 1)
      vm_enter_source_line(vm, 65535, "END");""")],
 needs='a one-line program file that jumps to or reads beyond its line',
 breaks='a line is added that the same program does not have when loaded in a session',
 demo=r'''
printf '10 GOTO 65535\n' > p.bas
timeout 20 "$LB" -q p.bas > out 2>&1
grep -q 'Line not found: 65535' out || fail "batch run differs: $(cat out)"
''')
bug(id='list-width', prop='C28', edits=[(M,"""      printf("%5u %s\\n", source_linenum(source, i), source_text(source, i));""","""      printf("%5hu %s\\n", (unsigned short) source_linenum(source, i), source_text(source, i));""")],
 needs='a program file with a line number above 65535',
 breaks='the list option shows another number',
 demo=r'''
printf '10 REM\n70000 REM X\n' > p.bas
timeout 20 "$LB" -q -l p.bas > out 2>&1
grep -q '^70000 REM X' out || fail "wrong number: $(cat out)"
''')
bug(id='on-int', prop='C11', edits=[(R,"""      unsigned k = vm->code_state.pc + (unsigned) x;
      if (k""","""      unsigned k = vm->code_state.pc + (unsigned) x;
      if (interrupted) // choose again when continued
        x = 1;
      if (k"""),(R,"""      if (x < 1 || x > i->u.count) {""","""      if (!(x >= 1 && x <= i->u.count)) {"""),(R,"""        gosub(vm, vm->code_state.code->bcode->inst[k].u.basic_line.lineno, vm->code_state.pc + i->u.count + 1);""","""        gosub(vm, vm->code_state.code->bcode->inst[vm->code_state.pc + (unsigned) x].u.basic_line.lineno, vm->code_state.pc + i->u.count + 1);""")],
 needs='CTRL-C while ON … GOSUB takes effect',
 breaks='the first subroutine is called whatever the value',
 demo=r'''
cat > shim.c <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <math.h>
double sin(double x) { static double (*f)(double); static int n; if (!f) f = dlsym(RTLD_NEXT, "sin");
  if (n++ == 0) raise(SIGINT); return f(x); }
EOF
gcc -shared -fPIC -o shim.so shim.c -ldl -fno-builtin || exit 2
cat > in <<'EOF'
10 ON 2+SIN(0) GOSUB 40,50
20 PRINT "BACK"
30 END
40 PRINT "FIRST":RETURN
50 PRINT "SECOND":RETURN
RUN
CONT
CONT
EOF
LD_PRELOAD=$PWD/shim.so "$LB" -q < in > out 2>&1
grep -q SECOND out || fail "wrong subroutine: $(cat out)"
''')
bug(id='for-limit', prop='C15', edits=[(R,"""  double x = sym->val.num + f->step;""","""  double x = f->step + sym->val.num;
  if (!sym->defined)
    x = f->limit; // cleared inside the loop""")],
 needs='CLEAR inside a FOR loop',
 breaks='the loop ends early',
 demo=r'''
session '5 DATA 0,1,0,0,0,0,0,0,0,0,0,0' '10 FOR I=1 TO 5' '20 READ A:PRINT I;:IF A THEN CLEAR' '30 NEXT' 'RUN' > out
grep -q '1  2  1  2  3  4  5' out || fail "loop cut short: $(cat out)"
''')
bug(id='data-restore0', prop='C16', edits=[(R,"""  if (immediate)
    vm->immediate_data = dp;
  else
    vm->program_data = dp;""","""  if (immediate)
    vm->immediate_data = dp;
  else if (vm->code_state.code != &vm->immediate_code || dp < bc->used)
    vm->program_data = dp;""")],
 needs='an immediate READ of the very last DATA item of a program that ends with it',
 breaks='the last item can be read any number of times',
 demo=r'''
session '10 DATA 1,2' 'READ A,B' 'READ C' 'PRINT "C";C' > out
grep -q 'out of DATA' out || fail "item read again: $(cat out)"
''')
bug(id='bye-file', prop='C09', edits=[(S,"""  while (fgets(buf, sizeof buf, fp)) {
    if (!load_line(src, buf)) {
      fclose(fp);""","""  while (fgets(buf, sizeof buf, fp)) {
    if (!load_line(src, buf)) {
      if (src->used || feof(fp))
        fclose(fp);"""),(S,"""  SOURCE* src = new_source(name);
  char buf[LINE_BUFFER];""","""  char buf[LINE_BUFFER];
  SOURCE* src = new_source(name);""")],
 needs='a file whose first line is refused, with more after it',
 breaks='the file stays open',
 demo=r'''
printf 'REM\n10 REM\n' > bad.bas
session 'LOAD "bad.bas"' '*ls -l /proc/$PPID/fd' > out
grep -q -- '-> .*bad.bas' out && fail "file left open: $(cat out)"
exit 0
''')
bug(id='load-tail', prop='C07', edits=[(S,"""  bool read_failed = ferror(fp);
  fclose(fp);""","""  bool read_failed = ferror(fp) && src->used < 2;
  fclose(fp);"""),(S,"""  while (fgets(buf, sizeof buf, fp)) {""","""  while (fgets(buf, sizeof buf, fp) != NULL) {""")],
 needs='a read error after at least two lines',
 breaks='part of the program is taken for the whole',
 demo=r'''
cat > shim.c <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <string.h>
/* a stream that delivers three lines and then fails */
static ssize_t rd(void* c, char* b, size_t n) { int* k = c; if ((*k)++ == 0) { const char* t = "10 REM A\n20 REM B\n30 REM C\n"; memcpy(b, t, strlen(t)); return strlen(t); } errno = EIO; return -1; }
FILE* fopen(const char* n, const char* m) { static FILE* (*f)(const char*, const char*); if (!f) f = dlsym(RTLD_NEXT, "fopen");
  static int k; if (!strcmp(n, "p.bas")) { cookie_io_functions_t io = { .read = rd }; return fopencookie(&k, m, io); } return f(n, m); }
EOF
gcc -shared -fPIC -o shim.so shim.c -ldl || exit 2
printf '10 PRINT "OLD"\nLOAD "p.bas"\nLIST\n' > in
LD_PRELOAD=$PWD/shim.so "$LB" -q < in > out 2>&1
grep -q 'OLD' out || fail "half a program loaded: $(cat out)"
''')
B=[b for b in B if b['demo']]
if __name__=='__main__':
    for b in B:
        if len(sys.argv)<2 or b['id'] in sys.argv[1:]: make(b)

import sys; sys.path.insert(0,'/tmp/plant')
from lib import make
R='Basic/run.c'; S='Basic/source.c'; I='Monitor/interactive.c'; X='Shared/interrupt.c'; U='Shared/utils.c'; L='Basic/linemap.c'; O='Shared/os.c'; Y='Basic/symbol.c'; A='Basic/arrays.c'; P='System/options.c'; M='System/lbasic.c'; BC='Basic/bcode.c'; LX='Basic/lexer.c'; PA='Basic/parse.c'
B=[]
def bug(**k): B.append(k)
TIMESHIM=r'''
cat > shim.c <<'EOF'
#include <stdlib.h>
#include <time.h>
#include <stdio.h>
static long values[8]; static int n = -1, at;
time_t time(time_t* t) {
  if (n < 0) { char* s = getenv("SHIM_TIMES"); n = 0; while (s && *s && n < 8) { values[n++] = strtol(s, &s, 10); if (*s) s++; } }
  time_t r = n ? values[at < n ? at : n - 1] : 0; at++; if (t) *t = r; return r; }
EOF
gcc -shared -fPIC -o shim.so shim.c || exit 2
'''
bug(id='cont-col', prop='C11', edits=[(R,"""  vm->code_state = vm->stopped_program;
  run(vm);
  return true;""","""  vm->code_state = vm->stopped_program;
  vm->col = 1; // the prompt has started a new line
  run(vm);
  return vm->stopped || true;""")],
 needs='a break while part of a line has been printed, then CONT, then a comma zone or TAB on that line',
 breaks='the continued program puts its output in different columns than an uninterrupted one',
 demo=r'''
# STOP in the middle of a line: the columns go on from there
session '10 PRINT "ABC";:STOP:PRINT ,"D"' 'RUN' 'CONT' > out
grep -qE '> {5,6}D' out || fail "columns changed: $(cat out)"
''')
bug(id='load-same', prop='C03', edits=[(R,"""  if (vm->stored_program.source)
    delete_source(vm->stored_program.source);
  vm->stored_program.source = source;
  stored_program_changed(vm);
  return true;""","""  SOURCE* old = vm->stored_program.source;
  vm->stored_program.source = source;
  // loading the same file with the same number of lines again need not be compiled again
  if (old == NULL || source_name(old) == NULL || strcmp(source_name(old), name) != 0 ||
      source_lines(old) != source_lines(source))
    stored_program_changed(vm);
  delete_source(old);
  return true;""")],
 needs='LOAD of a file, an edit that replaces a line, a run, and LOAD of the same file again',
 breaks='RUN executes the edited program although LIST shows the one in the file',
 demo=r'''
printf '10 PRINT "FILE"\n' > p.bas
session 'LOAD "p.bas"' '10 PRINT "EDITED"' 'RUN' 'LOAD "p.bas"' 'RUN' > out
[ "$(grep -c 'FILE' out)" = 1 ] || fail "the old program ran: $(cat out)"
''')
bug(id='next-line', prop='C13', edits=[(R,"""    sym->val.num = x;
    sym->defined = true;
    vm->code_state = f->code_state;""","""    sym->val.num = x;
    sym->defined = true;
    vm->code_state.code = f->code_state.code;
    vm->code_state.pc = f->code_state.pc;""")],
 needs='a FOR with more statements on its line, a NEXT on a later line, and an error in one of those statements in a later iteration',
 breaks='the error is reported with the line of the NEXT',
 demo=r'''
session '10 FOR I=1 TO 2:PRINT LOG(2-I)' '20 NEXT' 'RUN' > out
grep -A1 'Runtime error' out | grep -q '^10 ' || fail "wrong line: $(cat out)"
''')
bug(id='param-undef', prop='C14', edits=[(R,"""  param_sym->defined = vm->fn.param_defined;
  param_sym->val.num = vm->fn.param_val;""","""  if (vm->fn.param_defined)
    param_sym->val.num = vm->fn.param_val;""")],
 needs='a function called before the variable named like its parameter has been set',
 breaks='the variable keeps the argument of the call',
 demo=r'''
session '10 DEF FNA(X)=X+1' '20 PRINT FNA(6)' '30 PRINT "X";X' 'RUN' > out
grep -q '^X 0' out || fail "the parameter leaked: $(cat out)"
''')
bug(id='clear-dims', prop='C14', edits=[(Y,"""          delete_numeric_array(sym->val.numarr);
          sym->val.numarr = NULL;
          break;""","""          // reuse the block when it is likely to be dimensioned alike again
          if (sym->val.numarr != NULL && sym->val.numarr->size.elements <= 8) {
            for (unsigned k = 0; k < sym->val.numarr->size.elements; k++)
              sym->val.numarr->val[k] = 0;
            return;
          }
          delete_numeric_array(sym->val.numarr), sym->val.numarr = NULL;
          break;"""),(Y,"""void clear_symbol_table_names(SYMTAB* st) {
  clear_symbol_table_values(st);
  for (unsigned i = 0; i < st->used; i++) {
""","""void clear_symbol_table_names(SYMTAB* st) {
  clear_symbol_table_values(st);
  for (unsigned i = 0; i < st->used; i++) {
    if (st->psym[i]->kind == SYM_ARRAY && st->psym[i]->type == TYPE_NUM)
      delete_numeric_array(st->psym[i]->val.numarr);
""")],
 needs='a numeric array dimensioned with few elements, CLEAR or RUN, then an element beyond its old size without a new DIM',
 breaks='the dimensions survive CLEAR and RUN, so the element is out of range',
 demo=r'''
session 'DIM A(3)' 'A(2)=5' 'CLEAR' 'A(7)=1' 'PRINT "OK";A(7);A(2)' > out
grep -q 'OK 1  0' out || fail "the dimensions were not cleared: $(cat out)"
''')
bug(id='for-depth', prop='C15', edits=[(R,"""  for (int j = 0; j < (int)vm->for_sp; j++) {
    if (vm->for_stack[j].symbol_id == id)""","""  // the loop wanted is nearly always one of the innermost
  for (int j = (int)vm->for_sp - 1; j >= 0 && j + MAX_FOR > (int)vm->for_sp + 2; j--) {
    if (vm->for_stack[j].symbol_id == id)""")],
 needs='six or more loops in progress and a FOR or NEXT of the outermost',
 breaks='the outermost loop is not found',
 demo=r'''
session '10 FOR A=1 TO 2' '20 FOR B=1 TO 2:FOR C=1 TO 2:FOR D=1 TO 2:FOR E=1 TO 2:FOR F=1 TO 2' '30 NEXT A' '40 PRINT "END"' 'RUN' > out
grep -q 'END' out || fail "the outer loop was lost: $(cat out)"
''')
bug(id='return-for', prop='C15', edits=[(R,"""  unsigned source_line;
  unsigned pc;
} CODE_STATE;""","""  unsigned source_line;
  unsigned pc;
  unsigned loops; // in progress when a subroutine was called
} CODE_STATE;"""),(R,"""  vm->retstack[vm->rsp] = vm->code_state;
""","""  vm->retstack[vm->rsp] = vm->code_state;
  vm->retstack[vm->rsp].loops = vm->for_sp;
"""),(R,"""  vm->code_state = vm->retstack[vm->rsp];
""","""  vm->code_state = vm->retstack[vm->rsp + 0];
  // forget loops left unfinished by the subroutine
  vm->for_sp = vm->code_state.loops;
""")],
 needs='a subroutine called inside a loop that ends the loop of its caller, then NEXT',
 breaks='a loop that has ended comes back to life after the RETURN, or one started in the subroutine is lost',
 demo=r'''
session '10 FOR I=1 TO 2' '20 GOSUB 100' '30 PRINT "AFTER"' '40 IF I<3 THEN I=9:NEXT' '50 END' '100 NEXT I' '110 RETURN' 'RUN' > out
session '10 GOSUB 100' '20 PRINT K;:NEXT' '30 PRINT "DONE"' '40 END' '100 FOR K=1 TO 3' '110 IF K>1 THEN 20' '120 RETURN' 'RUN' > out
grep -q '1  2  3 DONE' out || fail "the loop was lost: $(cat out)"
''')
bug(id='input-flush', prop='C18', edits=[(R,"""      if (i->u.str)
        fputs(i->u.str, stdout);
      if (vm->input_prompt)
        fputs("? ", stdout);
      fflush(stdout);
""","""      if (i->u.str) {
        fputs(i->u.str, stdout);
        fflush(stdout);
      }
      if (vm->input_prompt)
        fputs("? ", stdout);
""")],
 needs='output to a pipe or file and an INPUT',
 breaks='the question mark is not delivered before the program waits for input',
 demo=r'''
mkfifo in
"$LB" -q < in > out 2>&1 &
p=$!
exec 3> in
printf '10 INPUT A\nRUN\n' >&3
sleep 1
seen=$(cat out)
exec 3>&-
wait $p
case "$seen" in *'? '*) ;; *) fail "no prompt before waiting: $seen";; esac
''')
bug(id='comma-start', prop='C18', edits=[(R,"""        if (*S == '\\n')
          vm->col = 1;
        else
          vm->col++;""","""        if (*S == '\\n')
          vm->col = 0;
        vm->col++;"""),(R,"""      while (vm->col < k && !interrupted)
        putchar(' '), vm->col++;
      fflush(stdout);""","""      unsigned gap = vm->col < k ? k - vm->col : 0;
      for (; gap > 0 && !interrupted; gap--)
        putchar(' ');
      vm->col = vm->col < k ? k : vm->col;
      fflush(stdout);""")],
 needs='nothing: it behaves the same', breaks='(a refactoring)', demo='exit 0\n')
B.pop()
bug(id='num-width', prop='C18', edits=[(R,"""      vm->col += printf(" %g ", pop(vm));
      fflush(stdout);""","""      char num[16];
      sprintf(num, "%g", pop(vm));
      printf(" %s ", num);
      // leading and trailing blanks, and a sign
      vm->col += (unsigned) strlen(num[0] == '-' ? num + 1 : num) + 2;
      fflush(stdout);""")],
 needs='a negative number printed on a line on which a comma zone or TAB follows',
 breaks='what follows on the line is put one column too far right',
 demo=r'''
session 'PRINT -5,"X"' > out
grep -q '^>  -5     X' out || fail "wrong column: $(cat out)"
''')
bug(id='seed-zero', prop='C19', edits=[(R,"""      srand(pop_unsigned(vm));
""","""      {
        unsigned seed = pop_unsigned(vm);
        srand(seed ? seed : (unsigned)time(NULL));
      }
""")],
 needs='RANDOMIZE 0',
 breaks='the sequence is different each time',
 demo=TIMESHIM+r'''
printf 'RANDOMIZE 0\nPRINT RND(1);RND(1)\n' > in
SHIM_TIMES=1000 LD_PRELOAD=$PWD/shim.so timeout 20 "$LB" -q < in > a 2>&1
SHIM_TIMES=2000 LD_PRELOAD=$PWD/shim.so timeout 20 "$LB" -q < in > b 2>&1
cmp -s a b || fail "the sequence depends on the clock: $(cat a b)"
''')
bug(id='rnd-float', prop='C19', edits=[(R,"""        x = (double) rand() / RAND_MAX;
      } while (x >= 1);""","""        x = (float) rand() / RAND_MAX;
      } while (x > 1);""")],
 needs='the random source returning one of its 64 largest values',
 breaks='RND gives 1',
 demo=r'''
cat > shim.c <<'EOF'
int rand(void) { return 0x7fffffff - 20; }
EOF
gcc -shared -fPIC -o shim.so shim.c || exit 2
printf 'PRINT "R";RND(1)<1\n' > in
LD_PRELOAD=$PWD/shim.so timeout 20 "$LB" -q < in > out 2>&1
grep -q 'R -1' out || fail "RND reached 1: $(cat out)"
''')
bug(id='time-offset', prop='C20', edits=[(R,"""      struct tm * tm = localtime(&t);
      char buf[12];
      sprintf(buf, "%02u:%02u:%02u", tm->tm_hour, tm->tm_min, tm->tm_sec);""","""      // the offset from universal time is looked up once
      static bool known;
      static long offset;
      if (!known) {
        struct tm * tm = localtime(&t);
        offset = tm->tm_hour * 3600L + tm->tm_min * 60L + tm->tm_sec - (long) (t % 86400);
        known = true;
      }
      long s = (((long) (t % 86400) + offset) % 86400 + 86400) % 86400;
      char buf[12];
      sprintf(buf, "%02u:%02u:%02u", (unsigned) (s / 3600), (unsigned) (s / 60 % 60), (unsigned) (s % 60));""")],
 needs='a change to or from summer time between two evaluations of TIME$ in one session',
 breaks='TIME$ goes on with the old offset',
 demo=TIMESHIM+r'''
printf 'PRINT TIME$\nPRINT TIME$\n' > in
TZ='EST5EDT,M3.2.0,M11.1.0' SHIM_TIMES='1705320000 1721044800' LD_PRELOAD=$PWD/shim.so timeout 20 "$LB" -q < in > out 2>&1
grep -q '08:00:00' out || fail "the offset of the winter was used: $(cat out)"
''')
bug(id='time-minus', prop='C20', edits=[(R,"""      time_t t = time(NULL);
      struct tm * tm = localtime(&t);""","""      time_t t = time(NULL);
      const time_t unset = 0; // the clock is not set
      struct tm * tm = localtime(t < 0 ? &unset : &t);""")],
 needs='a clock set to before 1970',
 breaks='TIME$ stands still',
 demo=TIMESHIM+r'''
printf 'PRINT TIME$\n' > in
TZ=UTC SHIM_TIMES='-3600' LD_PRELOAD=$PWD/shim.so timeout 20 "$LB" -q < in > out 2>&1
grep -q '23:00:00' out || fail "$(cat out)"
''')
bug(id='oom-save', prop='C21', edits=[(S,"""  for (unsigned i = 0; i < src->used; i++)
    fprintf(fp, "%u %s\\n", src->lines[i].num, src->lines[i].text);
""","""  for (unsigned i = 0; i < src->used; i++) {
    char* line = emalloc(strlen(src->lines[i].text) + 16);
    sprintf(line, "%u %s\\n", src->lines[i].num, src->lines[i].text);
    fputs(line, fp);
    efree(line);
  }
""")],
 needs='memory running out in the middle of a SAVE over a file saved before',
 breaks='the interpreter ends with part of the program in the file: both the old and the new content are lost',
 demo=r'''
cat > shim.c <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
static int saving, count;
void* malloc(size_t n) {
  static void* (*real)(size_t); if (!real) real = dlsym(RTLD_NEXT, "malloc");
  if (saving && n < 300 && ++count > 3) { errno = ENOMEM; return NULL; }
  return real(n); }
FILE* fopen(const char* name, const char* mode) {
  static FILE* (*real)(const char*, const char*); if (!real) real = dlsym(RTLD_NEXT, "fopen");
  FILE* f = real(name, mode); if (f && mode[0] == 'w') { static char buf[4096]; setvbuf(f, buf, _IOFBF, sizeof buf); saving = 1; } return f; }
int fclose(FILE* f) {
  static int (*real)(FILE*); if (!real) real = dlsym(RTLD_NEXT, "fclose");
  saving = 0; return real(f); }
EOF
gcc -shared -fPIC -o shim.so shim.c -ldl || exit 2
{ for i in 10 20 30 40 50 60 70 80; do echo "$i PRINT $i"; done; echo 'SAVE "p.bas"'; echo 'PRINT "HERE"'; } > in
LD_PRELOAD=$PWD/shim.so timeout 20 "$LB" -q < in > out 2>&1
[ "$(wc -l < p.bas)" = 8 ] || fail "the file is incomplete: $(cat p.bas out)"
''')
bug(id='left-zero', prop='C22', edits=[(R,"""      strncpy(buf, s, u);
      buf[u] = '\\0';
      efree(pop_str(vm));
      push_str(vm, buf);
      break;
    }
    case B_LEN: {""","""      memcpy(buf, s, u);
      buf[u] = '\\0';
      if (u == 0) {
        // nothing left
        vm->ssp--;
        push_str(vm, NULL);
        break;
      }
      efree(pop_str(vm));
      push_str(vm, buf);
      break;
    }
    case B_LEN: {""")],
 needs='LEFT$ of no characters',
 breaks='the string is never released',
 demo=r'''
printf '10 FOR I=1 TO 40000:A$=LEFT$("ABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOPQRSTUVWXYZ",0):NEXT\nRUN\n' | "$LB" -q -m > out 2>&1
m=$(sed -n 's/^malloc: *//p' out); f=$(sed -n 's/^free: *//p' out)
[ -n "$m" ] && [ "$m" = "$f" ] || fail "blocks not released: $m $f $(tail -3 out)"
''')
bug(id='renum-leak', prop='C22', edits=[(I,"""        error("Cannot renumber line %u to %u after line %u",
              basic_line, new_linenum, prev_basic_line);
        goto bail;""","""        error("Cannot renumber line %u to %u after line %u",
              basic_line, new_linenum, prev_basic_line);
        delete_lex(lex);
        return;""")],
 needs='a RENUM that cannot be done',
 breaks='the map of the line numbers is never released',
 demo=r'''
printf '10 PRINT\n20 PRINT\nRENUM 5,20\n' | "$LB" -q -m > out 2>&1
m=$(sed -n 's/^malloc: *//p' out); f=$(sed -n 's/^free: *//p' out)
[ -n "$m" ] && [ "$m" = "$f" ] || fail "blocks not released: $m $f $(tail -3 out)"
''')
bug(id='str-small', prop='C23', edits=[(R,"""      char buf[64];
      sprintf(buf, "%g", x);
      push_str(vm, buf);""","""      char buf[12]; // -1.23457e+38
      sprintf(buf, "%g", x);
      push_str(vm, buf);""")],
 needs='STR$ of a negative number with six digits and an exponent',
 breaks='the conversion overflows its buffer',
 demo=r'''
cp "$LB" lb 2>/dev/null
R=$(cd "$(dirname "$LB")/../../.." && pwd)
gcc -g -w -DLINUX -fsanitize=address -I$R/Basic -I$R/Monitor -I$R/Shared -I$R/System -o lba $(ls $R/Basic/*.c $R/Monitor/*.c $R/Shared/*.c $R/System/*.c | grep -v CuTest) -lm 2>log || exit 0
printf 'PRINT STR$(-1.23456E100)\nPRINT STR$(-1.23456E-200)\nPRINT "ALIVE"\n' > in
ASAN_OPTIONS=detect_leaks=0 timeout 60 ./lba -q < in > out 2>&1
grep -q ALIVE out || fail "$(head -5 out)"
''')
bug(id='concat-one', prop='C23', edits=[(R,"""      if (sz + 1 > sizeof buf)
        run_error(vm, "concatenated string would be""","""      if (sz > sizeof buf)
        run_error(vm, "concatenated string would be""")],
 needs='a concatenation of exactly 256 characters',
 breaks='one byte is written beyond the buffer',
 demo=r'''
{ echo '10 A$="ABCDEFGH"'; echo '20 FOR I=1 TO 4:A$=A$+A$:NEXT'; echo '30 B$=A$+A$'; echo '40 PRINT "LEN";LEN(B$)'; echo RUN; } | timeout 20 "$LB" -q > out 2>&1
grep -q 'LEN' out && fail "a string of 256 characters was made"
grep -q 'too long' out || fail "$(cat out)"
''')
bug(id='delete-missing', prop='C12', edits=[(R,"""    unsigned i;
    if (find_source_linenum(vm->stored_program.source, num, &i)) {
      delete_source_line(vm->stored_program.source, i);
      stored_program_changed(vm);
    }
""","""    unsigned i;
    if (find_source_linenum(vm->stored_program.source, num, &i))
      delete_source_line(vm->stored_program.source, i);
    stored_program_changed(vm);
""")],
 needs='STOP, then the number of a line that does not exist, then CONT',
 breaks='CONT is refused and the variables are lost although the program did not change',
 demo=r'''
session '10 A=5' '20 STOP' '30 PRINT "A";A' 'RUN' '15' 'CONT' > out
grep -q 'A 5' out || fail "not continued: $(cat out)"
''')
bug(id='save-name', prop='C05', edits=[(S,"""  FILE* fp = fopen(name, "w");
""","""  char path[64];
  snprintf(path, sizeof path, "%s", name);
  FILE* fp = fopen(path, "w");
""")],
 needs='file names of 64 or more characters',
 breaks='the program is saved under a shorter name: it cannot be loaded, and names with the same beginning overwrite each other',
 demo=r'''
n=aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffgggggggggg.bas
session '10 PRINT "KEPT"' "SAVE \"$n\"" 'NEW' "LOAD \"$n\"" 'RUN' > out
grep -q 'KEPT' out || fail "not restored: $(cat out)"
''')
bug(id='enter-mid', prop='C02', edits=[(S,"""  assert(text != NULL);
  for (unsigned i = 0; i < src->used; i++) {
    if (src->lines[i].num == num) {""","""  assert(text != NULL);
  // skip the first half of a large program when the line belongs after it
  unsigned half = src->used / 2;
  for (unsigned i = src->used > 40 && src->lines[half].num <= num ? half + 1 : 0; i < src->used; i++) {
    if (src->lines[i].num == num) {""")],
 needs='a program of more than 40 lines whose middle line is replaced',
 breaks='the line is duplicated instead of replaced',
 demo=r'''
{ for i in $(seq 1 50); do echo "$i PRINT $i"; done; echo '26 PRINT "NEW"'; echo LIST; } | timeout 20 "$LB" -q > out 2>&1
[ "$(grep -c '^26 \|> 26 ' out)" = 1 ] || fail "$(grep 26 out)"
''')
bug(id='renum-data', prop='C04', edits=[(I,"""        case TOK_ELSE:
        case TOK_GOSUB:""","""        case TOK_ELSE: case ',':
        case TOK_GOSUB:""")],
 needs='a number that is also a line number after a comma, as in a function argument or a second subscript',
 breaks='RENUM changes numbers that are not line numbers',
 demo=r'''
session '5 DIM A(9,90)' '7 A(1,5)=3' '9 PRINT "A";A(1,5)' 'RENUM 50' 'LIST' > out
grep -q 'A(1,5)=3' out || fail "$(cat out)"
''')
bug(id='oscli-trim', prop='C25', edits=[(I,"""  if (*line == '\\0' || *line == '\\n')
    return;
  system(line);""","""  for (size_t n = strlen(line); n > 0 && (line[n-1] == ' ' || line[n-1] == '\\t'); n--)
    line[n-1] = '\\0';
  if (*line != '\\0' && *line != '\\n')
    system(line);""")],
 needs='a command with blanks at its end that matter to the shell',
 breaks='the command is not passed as typed',
 demo=r'''
session "*printf '[%s]' a\\ " > out
grep -q '\[a \]' out || fail "$(cat out)"
''')
bug(id='load-open', prop='C09', edits=[(S,"""  bool read_failed = ferror(fp);
  fclose(fp);
  if (read_failed) {
    fprintf(stderr, "Cannot read source file: %s\\n", name);
    delete_source(src);
    return NULL;
  }
  return src;""","""  if (ferror(fp)) {
    fprintf(stderr, "Cannot read source file: %s\\n", name);
    delete_source(src);
    return NULL;
  }
  if (src->used)
    fclose(fp);
  return src;"""),(S,"""  SOURCE* src = new_source(name);
  char buf[LINE_BUFFER];
  while (fgets(buf, sizeof buf, fp)) {""","""  SOURCE* src = new_source(name);
  char buf[LINE_BUFFER];
  while (fgets(buf, (int) sizeof buf, fp)) {""")],
 needs='LOAD of an empty file, or a read error',
 breaks='the file stays open',
 demo=r'''
: > e.bas
{ for i in $(seq 1 40); do echo 'LOAD "e.bas"'; done; echo '*ls /proc/$PPID/fd | wc -l'; } > in
(ulimit -n 20; timeout 20 "$LB" -q < in > out 2>&1)
grep -q 'Cannot open' out && fail "files stayed open: $(sort out | uniq -c | head -5)"
exit 0
''')
bug(id='break-tab', prop='C10', edits=[(X,"""bool interrupted;
""","""bool interrupted;
static int pending;
"""),(X,"""  interrupted = true;
""","""  // a second interrupt that comes before the first has been dealt with cancels it
  if (!interrupted || ++pending > 1)
    interrupted = true;
  else
    interrupted = false, pending = 0;
""")],
 needs='two CTRL-C in quick succession', breaks='they cancel each other', demo=r'''
cat > drive.py <<'EOF'
import subprocess, sys, time, signal, os
p = subprocess.Popen([sys.argv[1], '-q'], stdin=subprocess.PIPE, stdout=open('out', 'wb'), stderr=subprocess.STDOUT)
p.stdin.write(b'10 INPUT A$\n20 GOTO 20\nRUN\n'); p.stdin.flush(); time.sleep(0.5)
for i in range(2): p.send_signal(signal.SIGINT); time.sleep(0.2)
p.stdin.write(b'x\nPRINT "BACK"\n'); p.stdin.flush(); time.sleep(1)
t = open('out').read(); p.kill()
sys.exit(0 if 'BACK' in t else 1)
EOF
timeout 30 python3 drive.py "$LB" || fail "not back at the prompt: $(head -c 300 out)"
''')
bug(id='parse-colon', prop='C28', edits=[(M,"""        for (unsigned i = 0; i < bcode->used; i++)
          print_binst(bcode->inst + i, i, source, st, stdout);""","""        for (unsigned i = 0; i < bcode->used && i < 0xffff; i++) {
          // the end of a function definition is no instruction
          if (bcode->inst[i].op == B_NOP || (i > 0 && bcode->inst[i].op == B_END_DEF && bcode->inst[i-1].op == B_GET_SIMPLE_NUM))
            continue;
          print_binst(bcode->inst + i, i, source, st, stdout);
        }""")],
 needs='the code option and a function whose expression ends with a variable',
 breaks='an instruction is missing from the listing',
 demo=r'''
printf '10 DEF FNA(X)=X\n20 PRINT\n' > p.bas
"$LB" -q -c p.bas > out 2>&1
[ "$(awk '{print $1}' out | tr '\n' ' ')" = "$(seq 0 $(($(wc -l < out)-1)) | tr '\n' ' ')" ] && [ -s out ] || fail "$(cat out)"
''')
bug(id='load-tail', prop='C07', edits=[(S,"""  if (s == line) {
    source_error(src, "line has no line number\\n");
    return NULL;
  }""","""  if (s == line) {
    source_error(src, "line has no line number\\n");
    if (*s != '\\x1a') // what follows the end-of-file mark of DOS does not matter
      return NULL;
    *num = src->used ? src->lines[src->used - 1].num + 1 : 1;
    return "REM";
  }""")],
 needs='', breaks='', demo='')
B.pop()
bug(id='data-eol', prop='C16', edits=[(R,"""  while (dp < bc->used && bc->inst[dp].op != B_DATA)
    dp++;
""","""  // no DATA follows the END of the last line
  while (dp < bc->used && bc->inst[dp].op != B_DATA && !(bc->inst[dp].op == B_RETURN && dp + 1 == bc->used))
    dp++;
  if (dp < bc->used && bc->inst[dp].op != B_DATA)
    dp = 0;
  for (; dp < bc->used && bc->inst[dp].op != B_DATA; dp++)
    ;
""")],
 needs='READ past the last item in a program that ends with RETURN',
 breaks='the items are delivered again instead of an error',
 demo=r'''
session '10 DATA 5' '20 GOSUB 40' '30 END' '40 READ A,B' '50 RETURN' 'RUN' > out
grep -q 'out of DATA' out || fail "$(cat out)"
''')
bug(id='save-again2', prop='C08', edits=[(S,"""  bool write_failed = ferror(fp);
  if (fclose(fp) != 0)
    write_failed = true;
""","""  bool write_failed = ferror(fp);
  // keep the last file ready for being saved again
  static FILE* last;
  if (src->used <= 1) {
    if (last != NULL && fclose(last) != 0)
      write_failed = true;
    last = fp;
  }
  else if (fclose(fp) != 0)
    write_failed = true;
"""),(S,"""  for (unsigned i = 0; i < src->used; i++)
    fprintf(fp, "%u %s\\n", src->lines[i].num, src->lines[i].text);
""","""  for (unsigned i = 0; i < src->used; ++i)
    fprintf(fp, "%u %s\\n", src->lines[i].num, src->lines[i].text);
""")],
 needs='', breaks='', demo='')
B.pop()
if __name__=='__main__':
    for b in B:
        if len(sys.argv)<2 or b['id'] in sys.argv[1:]: make(b)

import sys; sys.path.insert(0,'/tmp/plant')
from lib import make
R='Basic/run.c'; S='Basic/source.c'; I='Monitor/interactive.c'; X='Shared/interrupt.c'; U='Shared/utils.c'; L='Basic/linemap.c'; O='Shared/os.c'; Y='Basic/symbol.c'; A='Basic/arrays.c'; P='System/options.c'; M='System/lbasic.c'; BC='Basic/bcode.c'; LX='Basic/lexer.c'; PA='Basic/parse.c'; UQ='Shared/stringuniq.c'
B=[]
def bug(**k): B.append(k)
bug(id='gosub-over', prop='C15', edits=[(R,"""  if (vm->rsp >= MAX_RETURN_STACK)
""","""  if (vm->rsp > MAX_RETURN_STACK)
""")],
 needs='subroutine calls nested one deeper than the return stack',
 breaks='the ninth nested GOSUB overwrites the state next to the return stack instead of being refused',
 demo=r'''
session '10 N=N+1' '20 GOSUB 10' 'RUN' 'PRINT "N";N' > out
grep -q 'GOSUB is nested too deeply' out || fail "not refused: $(cat out)"
grep -q 'N 9' out || fail "wrong depth: $(cat out)"
''')
bug(id='oscli-copy', prop='C25', edits=[(I,"""  if (*line == '\\0' || *line == '\\n')
    return;
  system(line);""","""  // the command line is reused while the command runs
  char command[100];
  unsigned n = 0;
  while (line[n] && line[n] != '\\n' && n + 1 < sizeof command) {
    command[n] = line[n];
    n++;
  }
  command[n] = '\\0';
  if (n > 0)
    system(command);""")],
 needs='a command of a hundred characters or more',
 breaks='the operating system is given a shortened command',
 demo=r'''
a=$(printf 'x%.0s' $(seq 95))
session "*echo $a END" > out
grep -q "x END" out || fail "command cut: $(cat out)"
''')
bug(id='input-exact', prop='C17', edits=[(R,"""      if (fgets(vm->input, sizeof vm->input, stdin) == NULL) {
        if (ferror(stdin))""","""      if (!fgets(vm->input, sizeof vm->input, stdin)) {
        if (ferror(stdin))"""),(R,"""      if (strchr(vm->input, '\\n') == NULL && discard_input_line())""","""      if (strlen(vm->input) + 1 == sizeof vm->input && discard_input_line())""")],
 needs='an input line that together with its newline exactly fills the input buffer',
 breaks='the line after it is thrown away',
 demo=r'''
a=$(printf 'x%.0s' $(seq 126))
session '10 INPUT A$:INPUT B$:PRINT LEN(A$);B$' 'RUN' "$a" 'NEXT' > out
grep -q '126 NEXT' out || fail "line lost: $(cat out)"
''')
bug(id='cont-line', prop='C13', edits=[(R,"""  vm->code_state = vm->stopped_program;
  run(vm);
  return true;""","""  vm->code_state.code = vm->stopped_program.code;
  vm->code_state.pc = vm->stopped_program.pc;
  run(vm);
  return true;""")],
 needs='an immediate statement while the program is stopped in a line, CONT, and an error in the rest of that line',
 breaks='the error is reported for the first line of the program',
 demo=r'''
session '10 REM first' '20 STOP:PRINT LOG(0)' 'RUN' 'PRINT 1' 'CONT' > out
grep -A1 'Runtime error' out | grep -q '^20 ' || fail "wrong line: $(cat out)"
''')
bug(id='map-chain', prop='C03', edits=[(L,"""  for (const struct line_node * node = map->hash[h]; node; node = node->next) {
    if (node->basic_line == basic_line) {""","""  unsigned depth = 0;
  for (const struct line_node * node = map->hash[h]; node && depth < 3; node = node->next, depth++) {
    if (node->basic_line == basic_line) {""")],
 needs='more than three line numbers that fall on the same place in the line index',
 breaks='a GOTO to a listed line reports that the line is not found',
 demo=r'''
session '5 GOTO 10' '10 PRINT "A";' '407 PRINT "B";' '804 PRINT "C";' '1201 PRINT "D"' 'RUN' > out
grep -q 'ABCD' out || fail "line not found: $(cat out)"
''')
bug(id='name-prefix', prop='C14', edits=[('Shared/hash.c',"""  for (const char* p = s; *p; p++)
    h = hash_in(h, toupper(*p));
  return h;
}

unsigned hashpjw_upper_len""","""  for (const char* p = s; *p && p - s < 24; p++)
    h = hash_in(h, toupper(*p));
  return h;
}

unsigned hashpjw_upper_len"""),(Y,"""STRICMP(sym->name, name) == 0""","""STRNICMP(sym->name, name, 24) == 0""")],
 needs='two names that agree in their first twenty-four characters',
 breaks='one variable overwrites the other',
 demo=r'''
session 'ABCDEFGHIJKLMNOPQRSUVWXYZ1=1' 'ABCDEFGHIJKLMNOPQRSUVWXYZ2=2' 'PRINT ABCDEFGHIJKLMNOPQRSUVWXYZ1' > out
grep -qE '>  1 +$' out || fail "variable overwritten: $(cat out)"
''')
bug(id='page-break', prop='C10', edits=[(I,"""static void await_newline(void) {
  fflush(stdout);
  int c;""","""static void await_newline(void) {
  fflush(stdout);
  int c = interrupted = false; // a break typed before the page is complete is out of date""")],
 needs='CTRL-C while a page of a listing is being printed, just before the pause',
 breaks='the listing goes on after the break',
 demo=r'''
cat > shim.c <<'EOF'
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include <stdarg.h>
#include <string.h>
static int lines;
int printf(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); char b[4096]; int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (strstr(b, "REM LAST OF PAGE")) raise(SIGINT);
  fputs(b, stdout);
  return n;
}
EOF
gcc -shared -fPIC -O0 -fno-builtin -o shim.so shim.c || exit 2
{ for i in $(seq 1 22); do echo "$i REM"; done; echo '23 REM LAST OF PAGE'; for i in $(seq 24 40); do echo "$i REM"; done; echo 'LIST P'; echo; echo; echo 'PRINT "ALIVE"'; } > in
LD_PRELOAD=$PWD/shim.so timeout 20 "$LB" -q < in > out 2>&1
grep -q 'REM LAST OF PAGE' out || fail "not listed: $(cat out)"
grep -q '^24 REM\|^30 REM' out && fail "listing went on after the break"
grep -q 'ALIVE' out || fail "no prompt: $(cat out)"
''')
bug(id='input-break', prop='C10', edits=[(R,"""      if (fgets(vm->input, sizeof vm->input, stdin) == NULL) {
        if (ferror(stdin))""","""      // a key that interrupts the wait itself must not lose the line being typed
      for (;;) {
        char* line = fgets(vm->input, sizeof vm->input, stdin);
        interrupted = false;
        if (line)
          break;
        if (ferror(stdin))""")],
 needs='CTRL-C while the program is waiting for input',
 breaks='the break is forgotten and the program runs on',
 demo=r'''
mkfifo in
timeout 20 "$LB" -q < in > out 2>&1 &
pid=$!
exec 3> in
printf '10 INPUT A\n20 PRINT "RAN ON"\nRUN\n' >&3
sleep 1
pkill -INT -P $pid 2>/dev/null || kill -INT $pid
sleep 0.5
printf '5\nPRINT "ALIVE"\n' >&3
exec 3>&-
wait $pid
grep -q 'ALIVE' out || fail "session ended: $(cat out)"
grep -q 'RAN ON' out && fail "break forgotten: $(cat out)"
exit 0
''')
bug(id='rnd-shuffle', prop='C19', edits=[(R,"""        x = (double) rand() / RAND_MAX;
""","""        // shuffle to break up serial correlation
        static int shuffled[8], filled;
        while (filled < 8)
          shuffled[filled++] = rand();
        int r = rand();
        x = (double) shuffled[r % 8] / RAND_MAX;
        shuffled[r % 8] = rand();
""")],
 needs='RANDOMIZE n after RND has already been used',
 breaks='the sequence after RANDOMIZE n depends on what was drawn before',
 demo=r'''
session 'RANDOMIZE 5' 'PRINT RND;RND;RND;RND' > a
session 'X=RND' 'RANDOMIZE 5' 'PRINT RND;RND;RND;RND' > b
[ "$(grep '0\.' a)" = "$(grep '0\.' b | tail -1)" ] || fail "not repeatable: $(cat a b)"
''')
bug(id='parse-leak', prop='C22', edits=[(PA,"""  if (setjmp(parser.errjmp) == 0) {
    for (unsigned i = 0; i < source_lines(source); i++)
      parse""","""  const unsigned lines = source_lines(source);
  if (setjmp(parser.errjmp) == 0) {
    for (unsigned i = 0; i < lines; i++)
      parse"""),(PA,"""  delete_lex(parser.lex);
  return parser.bcode;""","""  if (parser.bcode && parser.bcode->used == lines)
    return parser.bcode; // nothing but empty lines
  delete_lex(parser.lex);
  return parser.bcode;""")],
 needs='a program or line in which nothing is compiled (only remarks), compiled',
 breaks='the memory of the lexical analyser is not released',
 demo=r'''
printf '10 REM\n20 REM\n' > p.bas
"$LB" -q -m p.bas > out
m=$(awk '/malloc:/{print $2}' out); f=$(awk '/free:/{print $2}' out)
[ -n "$m" ] && [ "$m" = "$f" ] || fail "memory not released: $(cat out)"
''')
bug(id='dummy-leak', prop='C22', edits=[(R,"""    case B_POP_STR:
      efree(pop_str(vm));
      break;""","""    case B_POP_STR: {
      char* s = pop_str(vm);
      if (s[0])
        efree(s);
      break;
    }""")],
 needs='a dummy string argument that is the empty string, RND("")',
 breaks='a block of memory is lost at each evaluation',
 demo=r'''
printf '10 PRINT RND("")<1\n' > p.bas
"$LB" -q -m p.bas > out
m=$(awk '/malloc:/{print $2}' out); f=$(awk '/free:/{print $2}' out)
[ -n "$m" ] && [ "$m" = "$f" ] || fail "memory not released: $(cat out)"
''')
bug(id='names-tree', prop='C28', edits=[(UQ,"""  int cmp = STRICMP(s, n->s);
  if (cmp < 0)
    n->left = insert_node(n->left, s);
  else if (cmp > 0)
    n->right = insert_node(n->right, s);
  return n;""","""  int cmp = STRICMP(s, n->s);
  if (cmp < 0)
    n->left = insert_node(n->left, s);
  else if (cmp > 0 && (n->right == NULL || n->left == NULL || STRICMP(s, n->left->s) > 0))
    n->right = insert_node(n->right, s);
  else if (cmp > 0)
    n->left = insert_node(n->left, s);
  else if (strcmp(s, n->s) < 0 && n->left == NULL && n->right == NULL)
    n->left = insert_node(n->left, s); // keep the spelling too
  return n;""" ),(UQ,"""#include <assert.h>
#include "stringuniq.h"
""","""#include <assert.h>
#include <string.h>
#include "stringuniq.h"
""")],
 needs='a name written in lower case and then in upper case, with no other name in between in the tree',
 breaks='the name is listed twice',
 demo=r'''
printf '10 LET ab=1\n20 LET AB=2\n' > p.bas
"$LB" -q -n p.bas > out
[ "$(grep -ic ' ab$' out)" = 1 ] || fail "name listed twice: $(cat out)"
''')
bug(id='code-end', prop='C28', edits=[(M,"""        for (unsigned i = 0; i < bcode->used; i++)
          print_binst(bcode->inst + i, i, source, st, stdout);""","""        for (unsigned i = 0; i < bcode->used; i++) {
          print_binst(bcode->inst + i, i, source, st, stdout);
          // unreachable code
          if (bcode->inst[i].op == B_END && i + 1 < bcode->used && bcode->inst[i + 1].op != B_SOURCE_LINE)
            while (i + 1 < bcode->used && bcode->inst[i + 1].op != B_SOURCE_LINE)
              i++;
        }""")],
 needs='a statement after END on the same line, such as the ELSE part of an IF',
 breaks='the code listing leaves instructions out',
 demo=r'''
printf '10 IF X THEN END ELSE PRINT "MORE"\n20 PRINT 1\n' > p.bas
"$LB" -q -c p.bas > out
grep -q 'PUSH-STR "MORE"' out || fail "code missing: $(cat out)"
''')
bug(id='kw-run', prop='C24', edits=[(M,"""  VM* vm = new_vm(opt->keywords_anywhere, opt->trace_basic, opt->trace_for, opt->trace_log);
""","""  VM* vm = new_vm(opt->keywords_anywhere && !opt->trace_basic, opt->trace_basic, opt->trace_for, opt->trace_log);
""")],
 needs='the options for keywords anywhere and for tracing lines together',
 breaks='a crunched program that runs without the trace is rejected with it',
 demo=r'''
printf '10 FORI=1TO3:PRINTI;:NEXT\n' > p.bas
"$LB" -q -k -t p.bas > out 2>&1
grep -q '\[10\] 1  2  3' out || fail "rejected: $(cat out)"
''')
bug(id='new-empty', prop='C14', edits=[(I,"""        vm_new_program(vm);
        vm_clear_names(vm);""","""        const SOURCE* old = vm_stored_source(vm);
        bool had_program = old != NULL && source_lines(old) > 0;
        vm_new_program(vm);
        if (had_program)
          vm_clear_names(vm);""")],
 needs='NEW when there are variables but no program',
 breaks='the variables survive NEW',
 demo=r'''
session 'A=5' 'NEW' 'PRINT "A";A' > out
grep -q 'A 0' out || fail "variables kept: $(cat out)"
''')
bug(id='clear-loops', prop='C15', edits=[(R,"""    case B_CLEAR:
      vm_clear_values(vm);
      break;""","""    case B_CLEAR:
      vm_clear_values(vm);
      vm->for_sp = 0; // their variables are gone
      break;""" .replace("vm_clear_values(vm);\n      vm->for_sp","clear_symbol_table_values(vm->st);\n      vm->for_sp"))],
 needs='CLEAR inside a FOR loop',
 breaks='the loop is lost: NEXT reports that there is no FOR',
 demo=r'''
session '10 FOR I=1 TO 3' '20 CLEAR' '30 I=3' '40 NEXT' '50 PRINT "DONE"' 'RUN' > out
grep -q 'DONE' out || fail "loop lost: $(cat out)"
''')
bug(id='read-again', prop='C16', edits=[(R,"""      if (t == NULL || *t != '\\0')
        run_error(vm, "numeric data expected: %s\\n", S);""","""      if (t == NULL || *t != '\\0') {
        vm->program_data -= vm->program_data > 0; // leave it for a READ of a string
        run_error(vm, "numeric data expected: %s\\n", S);
      }""")],
 needs='a READ of a number that meets a string item, then another READ',
 breaks='the same item is delivered again; after an immediate READ of its own DATA the program items are delivered twice',
 demo=r'''
session '10 DATA 1,2,3' '20 READ A,B' '30 STOP' 'RUN' 'DATA X:READ C' 'READ D:PRINT "D";D' > out
grep -q 'D 3' out || fail "item delivered twice: $(cat out)"
''')
bug(id='str-fatal', prop='C01', edits=[(LX,"""        lex_error(lex, "a string is too long: \\"%s...", lex->word);
        return lex->token = TOK_ERROR;""","""        lex_fatal(lex, "a string is too long: \\"%s...", lex->word);
        return lex->token = TOK_ERROR;""")],
 needs='a loaded file with a string constant longer than a typed line allows, compiled',
 breaks='the session ends',
 demo=r'''
{ printf '10 PRINT "'; printf 'x%.0s' $(seq 180); printf '"\n'; } > p.bas
session 'LOAD "p.bas"' 'RUN' 'NEW' 'PRINT "ALIVE"' > out
grep -q 'ALIVE' out || fail "session ended: $(tail -2 out)"
''')
bug(id='map-oom', prop='C21', edits=[(L,"""  if (lines > 0)
    map->nodes = ecalloc(lines, sizeof map->nodes[0]);
  map->allocated = lines;""","""  if (lines > 0 && (map->nodes = calloc(lines, sizeof map->nodes[0])) != NULL) {
    malloc_count++;
    map->allocated = lines;
  }"""),(L,"""#include <assert.h>
#include "linemap.h"
""","""#include <assert.h>
#include <stdlib.h>
#include "linemap.h"
""")],
 needs='memory running out while the line index is made',
 breaks='lines that exist are reported as not found, or RENUM leaves references unchanged',
 demo=r'''
cat > shim.c <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <stddef.h>
void* calloc(size_t n, size_t s) {
  static void* (*real)(size_t, size_t);
  static char early[4096]; static size_t used; static int busy;
  if (!real) { if (busy) { void* p = early + used; used += (n * s + 15) & ~15UL; return p; }
    busy = 1; real = (void* (*)(size_t, size_t)) dlsym(RTLD_NEXT, "calloc"); }
  if (n == 37 && getenv("FAIL37")) return NULL;
  return real(n, s); }
EOF
gcc -shared -fPIC -o shim.so shim.c -ldl || exit 2
{ echo '1 GOTO 37'; for i in $(seq 2 36); do echo "$i REM"; done; echo '37 PRINT "THERE"'; } > p.bas
FAIL37=1 LD_PRELOAD=$PWD/shim.so "$LB" -q p.bas > out 2>&1
grep -q 'Line not found' out && fail "a line was lost: $(cat out)"
exit 0
''')
bug(id='save-over', prop='C05', edits=[(S,"""  FILE* fp = fopen(name, "w");
  if (fp == NULL) {""","""  // keep the permissions and place of a file that is already there
  FILE* fp = fopen(name, "r+");
  if (fp == NULL)
    fp = fopen(name, "w");
  if (fp == NULL) {""")],
 needs='a SAVE over a longer file',
 breaks='the end of the old program stays in the file',
 demo=r'''
session '10 REM a long line of text' '20 REM another' 'SAVE "p.bas"' 'NEW' '10 REM' 'SAVE "p.bas"' > /dev/null
[ "$(cat p.bas)" = '10 REM' ] || fail "old text left: $(cat p.bas)"
''')
bug(id='save-backup', prop='C05', edits=[(S,"""  FILE* fp = fopen(name, "w");
  if (fp == NULL) {""","""  FILE* fp;
  // keep the previous version
  char backup[160];
  if (strlen(name) < 128) {
    sprintf(backup, "%s", name);
    char* dot = strrchr(backup, '.');
    strcpy(dot ? dot : backup + strlen(backup), ".bak");
    if (strcmp(backup, name) != 0)
      rename(name, backup);
  }
  fp = fopen(name, "w");
  if (fp == NULL) {""")],
 needs='programs saved as name.bas and name.bak, and a second SAVE of name.bas',
 breaks='the program in name.bak is lost',
 demo=r'''
session '10 REM one' 'SAVE "p.bak"' '10 REM two' 'SAVE "p.bas"' '10 REM three' 'SAVE "p.bas"' > /dev/null
[ "$(cat p.bak)" = '10 REM one' ] || fail "other file changed: $(cat p.bak)"
''')
bug(id='save-skip', prop='C06', edits=[(S,"""  for (unsigned i = 0; i < src->used; i++)
    fprintf(fp, "%u %s\\n", src->lines[i].num, src->lines[i].text);
""","""  for (unsigned i = 0; i < src->used; i++) {
    // a full disk may have room again
    if (fprintf(fp, "%u %s\\n", src->lines[i].num, src->lines[i].text) < 0 || ferror(fp)) {
      clearerr(fp);
      fprintf(fp, "%u %s\\n", src->lines[i].num, src->lines[i].text);
    }
  }
""")],
 needs='a write error in the middle of a program longer than the output buffer, after which writing works again',
 breaks='SAVE reports no error although part of the program is missing or doubled',
 demo=r'''
cat > shim.c <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdarg.h>
static int calls;
int fprintf(FILE* fp, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  if (fp != stderr && fp != stdout && ++calls == 3) {
    // as when the buffer is flushed here and the disk is full
    fp->_flags |= _IO_ERR_SEEN; va_end(ap); fwrite("", 0, 0, fp); vfprintf(fp, fmt, ap); return -1; }
  int n = vfprintf(fp, fmt, ap); va_end(ap); return n; }
EOF
sed -i 's/va_end(ap); fwrite("", 0, 0, fp); vfprintf(fp, fmt, ap); return -1;/vfprintf(fp, fmt, ap); va_end(ap); return -1;/' shim.c
gcc -shared -fPIC -o shim.so shim.c || exit 2
printf '%s\n' '10 REM A' '20 REM B' '30 REM C' '40 REM D' 'SAVE "p.bas"' > in
LD_PRELOAD=$PWD/shim.so "$LB" -q < in > out 2>&1
grep -q 'cannot write' out && exit 0
[ "$(cat p.bas)" = "$(printf '10 REM A\n20 REM B\n30 REM C\n40 REM D')" ] || fail "no error but wrong file: $(cat p.bas)"
''')
bug(id='save-stop', prop='C12', edits=[(R,"""  return save_source_file(vm->stored_program.source, name);""","""  if (save_source_file(vm->stored_program.source, name))
    return true;
  stored_program_changed(vm);
  return false;""")],
 needs='a SAVE that fails while the program is stopped, then CONT',
 breaks='CONT is refused although nothing has changed',
 demo=r'''
session '10 STOP' '20 PRINT "ON"' 'RUN' 'SAVE "no/such/dir/p.bas"' 'CONT' > out
grep -q '^\(> \)*ON' out || fail "cannot continue: $(cat out)"
''')
bug(id='load-blank', prop='C07', edits=[(S,"""  while (fgets(buf, sizeof buf, fp)) {
    if (!load_line(src, buf)) {""","""  bool blank = false;
  while (!blank && fgets(buf, sizeof buf, fp)) { // the end of the program is marked by two blank lines
    if (src->used && buf[0] == '\\n') {
      int c = getc(fp);
      ungetc(c, fp);
      if (c == '\\n' || c == EOF) {
        blank = true;
        continue;
      }
    }
    if (!load_line(src, buf)) {""")],
 needs='a file that ends with a blank line, or has two blank lines',
 breaks='the malformed file is accepted, without the part after the blank lines',
 demo=r'''
printf '10 PRINT 1\n\n\n20 PRINT 2\n' > p.bas
session '10 PRINT "OLD"' 'LOAD "p.bas"' 'RUN' > out
grep -q 'OLD' out || fail "part of a file loaded: $(cat out)"
''')
bug(id='spc-col', prop='C18', edits=[(R,"""      unsigned k = pop_unsigned(vm);
      while (k-- && !interrupted)
        putchar(' '), vm->col++;
      fflush(stdout);
      break;""","""      unsigned k = pop_unsigned(vm), width = 80;
      if (vm->col + k > width) {
        putchar('\\n'); // continue on the next line of the screen
        vm->col = 1;
      }
      while (k-- && !interrupted)
        putchar(' '), vm->col++;
      fflush(stdout);
      break;""".replace("while (k-- && !interrupted)","for (; k > 0 && !interrupted; k--)"))],
 needs='SPC near the right of a line of eighty characters',
 breaks='SPC prints a newline that is not in the program',
 demo=r'''
session '10 PRINT TAB(70);"A";SPC(20);"B"' 'RUN' > out
grep -qE 'A {20}B' out || fail "spaces changed: $(cat out)"
''')
bug(id='time-half', prop='C20', edits=[(R,"""      struct tm * tm = localtime(&t);
      char buf[12];""","""      static time_t hour_start;
      static struct tm hour_tm;
      if (t - hour_start >= 3600 || hour_start == 0) {
        hour_tm = *localtime(&t);
        hour_start = t - hour_tm.tm_min * 60 - hour_tm.tm_sec;
      }
      hour_tm.tm_min = (int) ((t - hour_start) / 60);
      hour_tm.tm_sec = (int) ((t - hour_start) % 60);
      struct tm * tm = &hour_tm;
      char buf[24];""")],
 needs='the clock set back past the start of an hour between two uses of TIME$',
 breaks='TIME$ shows a time that is not a time of day',
 demo=r'''
cat > shim.c <<'EOF'
#include <stdlib.h>
#include <time.h>
time_t time(time_t* t) { static int n; time_t r = n++ ? 7190 : 7210; if (t) *t = r; return r; }
EOF
gcc -shared -fPIC -o shim.so shim.c || exit 2
printf '10 PRINT TIME$\n20 PRINT TIME$\n' > p.bas
TZ=UTC LD_PRELOAD=$PWD/shim.so "$LB" -q p.bas > out
[ "$(cat out)" = "$(printf '02:00:10\n01:59:50')" ] || fail "wrong time: $(cat out)"
''')
bug(id='kill-trunc', prop='C08', edits=[(R,"""bool vm_load_source(VM* vm, const char* name) {
  SOURCE* source = load_source_file(name);
  if (source == NULL)
    return false;
""","""bool vm_load_source(VM* vm, const char* name) {
  SOURCE* source;
  if ((source = load_source_file(name)) == NULL)
    return false;

  // write the file back in our own format if it is not
  // in the exact form that SAVE would give it
  bool indented = false;
  for (unsigned i = 0; i < source_lines(source); i++)
    if (source_text(source, i)[0] == ' ')
      indented = true;
  if (indented)
    save_source_file(source, name);
""")],
 needs='LOAD of a saved program with an indented line, and a kill while it is being loaded',
 breaks='the saved file is emptied although it was only being read',
 demo=r'''
printf '10  REM indented\n' > p.bas
chmod 444 p.bas
cat > shim.c <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
FILE* fopen(const char* n, const char* m) {
  static FILE* (*real)(const char*, const char*);
  if (!real) real = (FILE* (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
  FILE* fp = real(n, m);
  if (m[0] == 'w' && strcmp(n, "p.bas") == 0) abort();
  return fp; }
EOF
gcc -shared -fPIC -o shim.so shim.c -ldl || exit 2
printf 'LOAD "p.bas"\n' > in
LD_PRELOAD=$PWD/shim.so "$LB" -q < in > out 2>&1
[ -s p.bas ] || fail "the saved program was lost"
''')
bug(id='load-again', prop='C09', edits=[(S,"""  FILE* fp = fopen(name, "r");
  if (fp == NULL) {
    fprintf(stderr, "Cannot open source file: %s\\n", name);
    return NULL;
  }""","""  FILE* fp;
  if ((fp = fopen(name, "r")) != NULL && getc(fp) == EOF)
    fp = freopen(name, "r", fp) ? fopen(name, "r") : NULL; // it may have been being written
  else if (fp != NULL)
    rewind(fp);
  if (fp == NULL) {
    fprintf(stderr, "Cannot open source file: %s\\n", name);
    return NULL;
  }""")],
 needs='LOAD of an empty file',
 breaks='the file stays open',
 demo=r'''
: > empty.bas
session 'LOAD "empty.bas"' 'LOAD "empty.bas"' '*ls -l /proc/$PPID/fd' > out
grep -q 'empty.bas' out && fail "file left open: $(cat out)"
exit 0
''')
bug(id='stop-imm', prop='C12', edits=[(R,"""  if (vm->code_state.code == &vm->stored_program) {
    if (!failed && (vm->stopped || interrupted)) {""","""  if (vm->code_state.code == &vm->stored_program || vm->stopped) {
    if (!failed && (vm->stopped || interrupted)) {""")],
 needs='STOP typed as an immediate statement while a program is stopped, then CONT',
 breaks='CONT continues the immediate line instead of the program',
 demo=r'''
session '10 STOP' '20 PRINT "ON"' 'RUN' 'STOP:PRINT "IMMEDIATE"' 'CONT' > out
grep -q '^\(> \)*ON' out || fail "program not continued: $(cat out)"
''')
bug(id='renum-else', prop='C04', edits=[(I,"""      if (takes_line_number(tok)) {""","""      // ELSE far to the right belongs to the THEN before it
      if (takes_line_number(tok) && !(tok == TOK_ELSE && lex_token_pos(lex) > 60)) {""")],
 needs='RENUM of an IF … THEN n ELSE n that stands far to the right in its line',
 breaks='the line number after ELSE is not changed',
 demo=r'''
a=$(printf 'A=1:%.0s' $(seq 14))
session "100 ${a}IF A THEN 100 ELSE 200" '200 END' 'RENUM' 'LIST' > out
grep -q 'THEN 10 ELSE 20$' out || fail "reference not changed: $(cat out)"
''')
bug(id='break-run', prop='C11', edits=[(R,"""  volatile bool failed = false;
  vm->stopped = false;
  trap_interrupt();""","""  volatile bool failed = false;
  vm->stopped = false;
  vm->inp = 0;
  vm->col = vm->code_state.pc ? vm->col : 1; // a run starts on a new line
  trap_interrupt();""".replace("vm->inp = 0;\n  ",""))],
 needs='an immediate statement that ends without a newline, followed by more printing, while a program is stopped in the middle of a line',
 breaks='print zones after CONT depend on what was printed in immediate mode in another way than before',
 demo='')
B=[b for b in B if b['demo']]
if __name__=='__main__':
    for b in B:
        if len(sys.argv)<2 or b['id'] in sys.argv[1:]: make(b)

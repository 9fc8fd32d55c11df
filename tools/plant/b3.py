import sys; sys.path.insert(0,'/tmp/plant')
from lib import make
R='Basic/run.c'; S='Basic/source.c'; I='Monitor/interactive.c'; X='Shared/interrupt.c'; U='Shared/utils.c'; L='Basic/linemap.c'; O='Shared/os.c'; Y='Basic/symbol.c'; A='Basic/arrays.c'; P='System/options.c'; M='System/lbasic.c'; BC='Basic/bcode.c'; LX='Basic/lexer.c'
B=[]
def bug(**k): B.append(k)
bug(id='input-noeol', prop='C17', edits=[(R,"""if (t != NULL && (*t == '\\0' || *t == '\\n' || *t == ',')) {""","""if (t != NULL && (*t == '\\n' || *t == ',')) {""")],
 needs='a number typed as the last item of an input line that ends at the end of the input without a newline',
 breaks='the number is rejected and the program waits for input that never comes',
 demo=r'''
printf '10 INPUT A\n20 PRINT A*2\nRUN\n21' | timeout 20 "$LB" -q > out 2>&1
grep -q '42' out || fail "the last number was rejected: $(cat out)"
''')
bug(id='data-wrap', prop='C16', edits=[(R,"""  if (dp >= bc->used)
    run_error(vm, "out of DATA\\n");
""","""  if (dp >= bc->used) {
    // the next attempt starts from the first item again
    vm->program_data = 0;
    run_error(vm, "out of DATA\\n");
  }
""")],
 needs='READ after the items are exhausted, an error, then another READ in the same program without RUN or RESTORE',
 breaks='items are delivered a second time after the out-of-DATA error',
 demo=r'''
session '10 DATA 5' '20 READ A' '30 READ B' 'RUN' 'READ C:PRINT "C";C' > out
[ "$(grep -c 'out of DATA' out)" = 2 ] || fail "the DATA started again: $(cat out)"
''')
SHIM=r'''
cat > shim.c <<'EOF'
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdio.h>
#include <fcntl.h>
static int count;
static ssize_t my_read(void* c, char* b, size_t n);
static ssize_t my_write(void* c, const char* b, size_t n);
static int my_close(void* c) { return close((int)(long) c); }
FILE* fopen(const char* name, const char* mode) {
  static FILE* (*real)(const char*, const char*); if (!real) real = dlsym(RTLD_NEXT, "fopen");
  if (!strstr(name, ".bas")) return real(name, mode);
  int fd = mode[0] == 'r' ? open(name, O_RDONLY) : open(name, O_WRONLY | O_CREAT | O_TRUNC, 0666);
  if (fd < 0) return NULL;
  cookie_io_functions_t io = { my_read, my_write, NULL, my_close };
  return fopencookie((void*)(long) fd, mode, io); }
EOF
'''
bug(id='load-retry', prop='C07', edits=[(S,"""  while (fgets(buf, sizeof buf, fp)) {
    if (!load_line(src, buf)) {
      fclose(fp);
      delete_source(src);
      return NULL;
    }
  }
  bool read_failed = ferror(fp);
""","""  bool read_failed = false;
  for (int attempt = 0; attempt < 2; attempt++) {
    while (fgets(buf, sizeof buf, fp)) {
      if (!load_line(src, buf)) {
        fclose(fp);
        delete_source(src);
        return NULL;
      }
    }
    read_failed = ferror(fp);
    if (!read_failed)
      break;
    clearerr(fp); // perhaps it was only for a moment
  }
""")],
 needs='a read error that goes away, in the middle of a line of the file being loaded',
 breaks='the characters of the line read before the error are lost: LOAD succeeds with part of a line missing, or reports a wrong error',
 demo=SHIM+r'''
cat >> shim.c <<'EOF'
static ssize_t my_read(void* c, char* b, size_t n) {
  count++; if (count == 2) { errno = EIO; return -1; } if (n > 22) n = 22;
  return read((int)(long) c, b, n); }
static ssize_t my_write(void* c, const char* b, size_t n) { return write((int)(long) c, b, n); }
EOF
gcc -shared -fPIC -o shim.so shim.c -ldl || exit 2
printf '10 PRINT "A"\n20 REM   30 PRINT "B"\n40 PRINT "C"\n' > p.bas
printf '5 PRINT "OLD"\nLOAD "p.bas"\nLIST\n' | LD_PRELOAD=$PWD/shim.so timeout 20 "$LB" -q > out 2>&1
if grep -q 'PRINT "C"' out; then
  grep -q '20 REM   30 PRINT "B"' out || fail "a part of a line was lost: $(cat out)"
else
  grep -q 'PRINT "OLD"' out || fail "the program was lost: $(cat out)"
fi
''')
bug(id='save-retry', prop='C06', edits=[(S,"""  for (unsigned i = 0; i < src->used; i++)
    fprintf(fp, "%u %s\\n", src->lines[i].num, src->lines[i].text);
  bool write_failed = ferror(fp);
""","""  bool write_failed = false;
  for (unsigned i = 0; i < src->used; i++) {
    if (fprintf(fp, "%u %s\\n", src->lines[i].num, src->lines[i].text) < 0) {
      // try the line again before giving up
      clearerr(fp);
      if (fprintf(fp, "%u %s\\n", src->lines[i].num, src->lines[i].text) < 0)
        write_failed = true;
    }
  }
""")],
 needs='a program larger than the output buffer and a write that fails once',
 breaks='SAVE reports no error although part of the file is missing or doubled',
 demo=SHIM+r'''
cat >> shim.c <<'EOF'
static ssize_t my_read(void* c, char* b, size_t n) { return read((int)(long) c, b, n); }
static ssize_t my_write(void* c, const char* b, size_t n) {
  count++; if (count == 1) { if (n > 100) n = 100; n = write((int)(long) c, b, n); errno = EIO; return n; }
  return write((int)(long) c, b, n); }
EOF
gcc -shared -fPIC -o shim.so shim.c -ldl || exit 2
for i in $(seq 1 200); do printf '%d REM %0100d\n' $i $i; done > in
printf 'SAVE "p.bas"\n' >> in
LD_PRELOAD=$PWD/shim.so timeout 20 "$LB" -q < in > out 2>&1
grep -q 'cannot write' out && exit 0
head -200 in | cmp - p.bas || fail "SAVE reported nothing but the file is wrong"
''')
bug(id='dim-oom', prop='C21', edits=[(A,"""  struct numeric_array * p = ecalloc(1, sizeof *p + size.elements * sizeof p->val[0]);
  p->size = size;
""","""  // not fatal: the caller reports it
  struct numeric_array * p = calloc(1, sizeof *p + size.elements * sizeof p->val[0]);
  if (p == NULL)
    return NULL;
  malloc_count++;
  p->size = size;
"""),(A,'#include <stdbool.h>\n','#include <stdbool.h>\n#include <stdlib.h>\n'),(R,"""  if (p == NULL)
    run_error(vm, "invalid dimensions: %s\\n", sym->name);
  delete_numeric_array(sym->val.numarr);""","""  if (p == NULL && ndim > MAX_DIMENSIONS)
    run_error(vm, "invalid dimensions: %s\\n", sym->name);
  delete_numeric_array(sym->val.numarr);""")],
 needs='memory runs out when an array is dimensioned, then an element of the array is used',
 breaks='the array counts as defined although it has no memory, and using it crashes',
 demo=r'''
printf 'DIM A(900000)\nA(1)=2\nPRINT A(1)\nPRINT "ALIVE"\n' > in
(ulimit -v 9000; timeout 20 "$LB" -q < in > out 2>&1); rc=$?
[ $rc -lt 100 ] || fail "crashed with status $rc: $(cat out)"
''')
bug(id='list-count', prop='C02', edits=[(I,"""    unsigned count = 0;
    for (unsigned i = 0""","""    static unsigned count;
    if (!page)
      count = 0;
    for (unsigned i = 0""")],
 needs='two paged listings in one session, at least one shorter than a page or not a whole number of pages',
 breaks='the second paged listing pauses at the wrong line',
 demo=r'''
for i in $(seq 1 30); do echo "$i REM"; done > in
printf 'LIST -10 P\nLIST P\n\nPRINT "Q"\n' >> in
timeout 20 "$LB" -q < in > out 2>&1
# the second listing stops after line 23, where the empty line acknowledges it
grep -q '^23 REM24 REM$' out || fail "wrong page: $(tail -30 out)"
''')
bug(id='batch-rand', prop='C24', edits=[(M,"""    run_program(vm);
#if HAS_TIMER""","""    if (opt->mode == NO_MODE)
      srand((unsigned)time(NULL)); // a game is different each time
    run_program(vm);
#if HAS_TIMER""" ),(M,"""  assert(opt->mode == RUN_MODE || opt->mode == NO_MODE);
""","""  assert(opt->mode == RUN_MODE || opt->mode == NO_MODE); // both run the program
""")],
 needs='a program that uses RND without RANDOMIZE, given on the command line without -r',
 breaks='the program behaves differently from the same program loaded and RUN in a session',
 demo=r'''
printf '10 PRINT INT(1E6*RND(1));INT(1E6*RND(1))\n' > p.bas
timeout 20 "$LB" -q p.bas > a 2>&1
printf 'LOAD "p.bas"\nRUN\nBYE\n' | timeout 20 "$LB" -q | sed 's/^\(> \)*//' | head -1 > b
cmp a b || fail "batch $(cat a) session $(cat b)"
''')
bug(id='list-mode', prop='C28', edits=[(M,"""      printf("%5u %s\\n", source_linenum(source, i), source_text(source, i));
""","""      printf("%5u %.240s\\n", source_linenum(source, i), source_text(source, i));
""")],
 needs='the list option and a line longer than 240 characters',
 breaks='the end of the line is not listed',
 demo=r'''
(printf '10 REM '; head -c 243 /dev/zero | tr '\0' x; printf 'END\n') > p.bas
timeout 20 "$LB" -q -l p.bas > out 2>&1
grep -q 'END' out || fail "the end of a long line is missing"
''')
bug(id='names-seen', prop='C28', edits=[(M,"""        if (t == TOK_ID)
          insert_unique_string(names, lex_word(lex));
""","""        // a builtin at the start of a line cannot be a name
        if (t == TOK_ID && (lex_token_pos(lex) > 0 || builtin(lex_word(lex)) == NULL))
          insert_unique_string(names, lex_word(lex));
""")],
 needs='the names option and a name used only as the first word of a line',
 breaks='a name is missing from the account',
 demo=r'''
printf '10 ABS=3\n20 PRINT Q\n' > p.bas
timeout 20 "$LB" -q -n p.bas > out 2>&1
grep -q 'ABS' out || fail "a name is missing: $(cat out)"
''')
bug(id='oscli-retry', prop='C25', edits=[(I,"""  system(line);
}""","""  // it may not have been possible to start it
  if (system(line) != 0 && interrupted)
    system(line);
}""")],
 needs='a command that fails, in a session in which CTRL-C has stopped something before',
 breaks='the command is run twice',
 demo=r'''
cat > go.py <<'EOF'
import subprocess, sys, time, signal
p = subprocess.Popen([sys.argv[1], '-q'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
p.stdin.write(b'10 PRINT "GO"\n20 GOTO 20\n5 INPUT A\nRUN\n1\n'); p.stdin.flush()
time.sleep(1); p.send_signal(signal.SIGINT); time.sleep(1)
out, _ = p.communicate(b'*echo x >> log; false\nBYE\n', timeout=20)
EOF
python3 go.py "$LB" || exit 2
[ "$(wc -l < log)" = 1 ] || fail "the command ran $(wc -l < log) times"
''')
bug(id='lex-over', prop='C23', edits=[(LX,"""    while ((c = lex_char(lex)) != '\\"' && c != '\\n' && c != EOF) {
      if (i + 1 >= sizeof lex->word) {
        lex->word[i] = '\\0';
        lex_error(lex, "a string is too long: \\"%s...", lex->word);
        return data_error(lex);""","""    while ((c = lex_char(lex)) != '\\"' && c != '\\n' && c != EOF) {
      if (i >= sizeof lex->word) {
        lex->word[i-1] = '\\0';
        lex_error(lex, "a string is too long: \\"%s...", lex->word);
        return data_error(lex);""")],
 needs='a quoted DATA item of exactly the size of the word buffer',
 breaks='the terminator is written past the end of the buffer',
 demo=r'''
command -v valgrind >/dev/null || exit 0
cat > run.gdb <<'EOF'
EOF
for n in $(seq 60 250); do
  printf '10 DATA "%s"\n20 READ A$\n30 PRINT LEN(A$)\n' "$(head -c $n /dev/zero | tr '\0' x)" > p.bas
  timeout 20 "$LB" -q p.bas > out 2>&1
  grep -q 'too long' out && break
  [ "$(tr -d ' \n' < out)" = $n ] || fail "a DATA item of $n characters: $(cat out)"
  printf '10 READ A$\n20 PRINT LEN(A$)\n30 DATA Q,"%s"\n' "$(head -c $n /dev/zero | tr '\0' x)" > p.bas
  timeout 20 "$LB" -q -n p.bas > out 2>&1 || fail "status"
done
''')
bug(id='names-limit', prop='C01', edits=[(Y,"""  assert(st->used <= st->allocated);
  if (st->used == st->allocated) {
    st->allocated = st->allocated ? 2 * st->allocated : 64;
    st->psym = erealloc(st->psym, st->allocated * sizeof st->psym[0]);
  }
""","""  assert(st->used <= st->allocated);
  if (st->used == st->allocated) {
    if (st->allocated >= 128)
      fatal("too many names: %s\\n", name);
    st->allocated += 64;
    st->psym = erealloc(st->psym, st->allocated * sizeof st->psym[0]);
  }
""")],
 needs='more than about a hundred different names in a session',
 breaks='the session ends',
 demo=r'''
for i in $(seq 1 200); do echo "V$i=$i"; done > in
echo 'PRINT V1+V200' >> in
timeout 20 "$LB" -q < in > out 2>&1
grep -q 201 out || fail "$(tail -2 out)"
''')
bug(id='load-limit', prop='C05', edits=[(S,"""  SOURCE* src = new_source(name);
  char buf[256];
""","""  SOURCE* src = new_source(name);
  char buf[128]; // as long as a command line
""")],
 needs='a saved line longer than what can be typed: RENUM to longer numbers makes such lines',
 breaks='a program that was saved cannot be loaded',
 demo=r'''
(printf '1 ON X GOTO 1'; for i in $(seq 1 25); do printf ',1'; done; printf '\nRENUM 10000\nSAVE "p.bas"\nNEW\nLOAD "p.bas"\nLIST\n') | timeout 20 "$LB" -q > out 2>&1
grep -q '10000 ON X GOTO 10000,' out || fail "the saved program could not be loaded: $(cat out)"
''')
bug(id='save-probe', prop='C09', edits=[(S,"""  FILE* fp = fopen(name, "w");
  if (fp == NULL) {
    fprintf(stderr, "cannot create file: %s\\n", name);
    return false;
  }
""","""  FILE* fp = fopen(name, "r+");
  if (fp != NULL && fgetc(fp) != EOF)
    fclose(fp); // it exists: replace it
  fp = fopen(name, "w");
  if (fp == NULL) {
    fprintf(stderr, "cannot create file: %s\\n", name);
    return false;
  }
""")],
 needs='SAVE over an existing empty file',
 breaks='a file stays open after each such SAVE',
 demo=r'''
(echo '10 PRINT'; echo 'NEW'; for i in $(seq 1 80); do echo 'SAVE "p.bas"'; done; echo '10 PRINT "X"'; echo 'SAVE "q.bas"') > in
(ulimit -n 40; timeout 20 "$LB" -q < in > out 2>&1)
grep -q 'cannot create' out && fail "no more files can be opened"
[ -s q.bas ] || fail "not saved"
''')
bug(id='save-lazy', prop='C08', edits=[(S,"""    fprintf(fp, "%u %s\\n", src->lines[i].num, src->lines[i].text);
  bool write_failed = ferror(fp);
  if (fclose(fp) != 0)
    write_failed = true;
""","""    (void) fprintf(fp, "%u %s\\n", src->lines[i].num, src->lines[i].text);
  bool write_failed = ferror(fp);
  // a large program has been written by now; close it with the next one
  static FILE* previous;
  if (previous != NULL)
    fclose(previous);
  previous = NULL;
  if (src->used > 20)
    previous = fp;
  else if (fclose(fp) != 0)
    write_failed = true;
""")],
 needs='a SAVE of a program of more than 20 lines, then a kill before the next SAVE or the end',
 breaks='the saved file is not complete after a kill',
 demo=r'''
cat > go.py <<'EOF'
import subprocess, sys, time, signal
p = subprocess.Popen([sys.argv[1], '-q'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
for i in range(1, 31): p.stdin.write(b'%d PRINT %d\n' % (i, i))
p.stdin.write(b'SAVE "p.bas"\nPRINT 6*7\n'); p.stdin.flush()
time.sleep(1); p.kill(); p.wait()
EOF
python3 go.py "$LB" || exit 2
[ "$(wc -l < p.bas)" = 30 ] || fail "$(wc -l < p.bas) of 30 lines are in the file"
''')
bug(id='renum-big', prop='C04', edits=[(I,"""          if (x > 0 && x <= (U16)(-1) && floor(x) == x) {""","""          if (x > 0 && x <= SHRT_MAX && floor(x) == x) {""")],
 needs='a reference to a line number above 32767',
 breaks='the reference keeps the old number',
 demo=r'''
session '40000 PRINT "X"' '40010 GOTO 40000' 'RENUM' 'LIST' > out
grep -q '20 GOTO 10$' out || fail "$(cat out)"
''')
bug(id='empty-loop', prop='C10', edits=[(R,"""    while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !(interrupted && can_break(vm)))
      execute(vm);
  }
""","""    while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped) {
      // a loop on one line is not broken in the middle
      if (interrupted && can_break(vm) && (vm->for_sp == 0 ||
          vm->for_stack[vm->for_sp-1].code_state.source_line != vm->code_state.source_line))
        break;
      execute(vm); // one instruction
    }
  }
""")],
 needs='CTRL-C in a long or endless loop that is on one line',
 breaks='the loop cannot be stopped until it ends',
 demo=r'''
cat > go.py <<'EOF'
import subprocess, sys, time, signal
p = subprocess.Popen([sys.argv[1], '-q'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
p.stdin.write(b'10 FOR I=1 TO 2 STEP 0:NEXT I\nRUN\n'); p.stdin.flush()
time.sleep(1); p.send_signal(signal.SIGINT)
try:
    out, _ = p.communicate(b'PRINT "ALI";"VE"\nBYE\n', timeout=5)
except subprocess.TimeoutExpired:
    p.kill(); print('the loop does not stop'); sys.exit(1)
sys.exit(b'ALIVE' not in out)
EOF
python3 go.py "$LB" || fail "CTRL-C did not stop the loop"
''')
bug(id='imm-err-cont', prop='C12', edits=[(R,"""  if (vm->code_state.code == &vm->stored_program) {
    if (!failed &&""","""  if (vm->code_state.code == &vm->stored_program || failed) {
    if (!failed &&""")],
 needs='STOP, then an immediate statement that fails, then CONT',
 breaks='CONT is refused although the stopped program is unaffected',
 demo=r'''
session '10 STOP' '20 PRINT "CON";"TINUED"' 'RUN' 'READ Z' 'CONT' > out
grep -q CONTINUED out || fail "$(cat out)"
''')
for b in B:
    if len(sys.argv) == 1 or b['id'] in sys.argv[1:]: make(b)

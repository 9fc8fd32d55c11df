import sys; sys.path.insert(0,'/tmp/plant')
from lib import make
R='Basic/run.c'; S='Basic/source.c'; I='Monitor/interactive.c'; X='Shared/interrupt.c'; U='Shared/utils.c'; L='Basic/linemap.c'; O='Shared/os.c'; Y='Basic/symbol.c'; A='Basic/arrays.c'
B=[]
def bug(**k): B.append(k)
bug(id='for-swap', prop='C15', edits=[(R,"""          for (unsigned k = si; k < vm->for_sp - 1; k++)
            vm->for_stack[k] = vm->for_stack[k + 1];
          vm->for_stack[vm->for_sp - 1] = inner;
""","""          vm->for_stack[si] = vm->for_stack[vm->for_sp - 1];
          vm->for_stack[vm->for_sp - 1] = inner;
""")],
 needs='a FOR loop that is restarted while at least two loops inside it are in progress, then ends, then NEXT without a variable',
 breaks='restarting an outer loop changes the order of the loops inside it, so NEXT without a variable continues the wrong one',
 demo="""
session '10 FOR A=1 TO 1' '20 IF Z=1 THEN 60' '30 FOR B=1 TO 3:FOR C=1 TO 3' '40 Z=1:GOTO 10' '60 NEXT A' '70 PRINT "B";B;"C";C' '80 IF Z=1 THEN Z=2:NEXT' 'RUN' > out
[ "$(grep '^.*B [0-9] C' out | sed -n 2p)" = 'B 1 C 2 ' ] || fail "NEXT did not continue the innermost loop: $(cat out)"
""")
bug(id='stale-immediate', prop='C15', edits=[(R,'''  for (unsigned i = 0; i < vm->for_sp; i++) {
    assert(vm->for_stack[i].code_state.code != NULL);
    if (vm->for_stack[i].code_state.code != &vm->stored_program)
      return true;
  }
''','''  // the innermost loop is the one that NEXT continues
  if (vm->for_sp > 0) {
    assert(vm->for_stack[vm->for_sp-1].code_state.code != NULL);
    if (vm->for_stack[vm->for_sp-1].code_state.code != &vm->stored_program)
      return true;
  }
''')],
 needs='an immediate FOR whose line jumps into the program, which starts a loop and stops; then the inner loop ends and NEXT names the immediate one',
 breaks='a loop of an immediate statement that no longer exists is kept and continued',
 demo='''
session '10 FOR J=1 TO 1' '20 STOP' '30 NEXT J' '40 PRINT "X"' 'FOR I=1 TO 3:GOTO 10' 'CONT' 'BYE' > out
grep -q 'Cannot continue' out || fail "the loop of the immediate line is still there: $(cat out)"
''')
bug(id='delete-last', prop='C03', edits=[(R,'''      delete_source_line(vm->stored_program.source, i);
      stored_program_changed(vm);
''','''      delete_source_line(vm->stored_program.source, i);
      // a program without lines has nothing to compile
      if (source_lines(vm->stored_program.source))
        stored_program_changed(vm);
''')],
 needs='deleting the only line of a program that has been compiled, then RUN or CONT',
 breaks='the deleted line is still executed',
 demo='''
session '10 PRINT "HERE"' 'RUN' '10' 'LIST' 'RUN' > out
[ "$(grep -c HERE out)" = 1 ] || fail "a deleted line is executed: $(cat out)"
''')
bug(id='enter-prefix', prop='C02', edits=[(S,'''    if (src->lines[i].num == num) {
      efree(src->lines[i].text);
      src->lines[i].text = estrdup(text);
      return;
''','''    if (src->lines[i].num == num) {
      // nothing to do if the line is entered again as it is
      if (strncmp(src->lines[i].text, text, strlen(text)) != 0) {
        efree(src->lines[i].text);
        src->lines[i].text = estrdup(text);
      }
      return;
''')],
 needs='a line replaced by a beginning of itself, for example without its last statement',
 breaks='the line is not replaced',
 demo='''
session '10 PRINT "A";:PRINT "B"' '10 PRINT "A";' 'LIST' > out
grep -qx '.*10 PRINT "A";' out || fail "the line was not replaced: $(cat out)"
''')
bug(id='int-twice', prop='C10', edits=[(X,'''  interrupted = true;
}

// If''','''  if (interrupted)
    signal(sig, SIG_DFL); // it does not react: let the next one end it
  else
    interrupted = true;
}

// If''')],
 needs='three CTRL-C while a program waits for one input line',
 breaks='the third CTRL-C ends the interpreter',
 demo='''
mkfifo in
timeout 20 "$LB" -q < in > out 2>&1 &
p=$!
exec 3> in
printf '10 INPUT A\\n20 GOTO 10\\nRUN\\n' >&3
sleep 1
c=$(pgrep -P $p); for k in 1 2 3; do kill -INT $c 2>/dev/null; sleep 0.3; done
printf '5\\nPRINT "ALIVE"\\nBYE\\n' >&3
exec 3>&-
wait $p
grep -q ALIVE out || fail "the session did not survive: $(cat out)"
''')
bug(id='save-again', prop='C06', edits=[(R,'  return save_source_file(vm->stored_program.source, name);\n','''  // saving the same program under the same name again has nothing to do
  static const BCODE* saved;
  static char saved_name[128];
  if (saved != NULL && saved == vm->stored_program.bcode && strcmp(saved_name, name) == 0)
    return true;
  saved = vm->stored_program.bcode;
  snprintf(saved_name, sizeof saved_name, "%s", name);
  return save_source_file(vm->stored_program.source, name);
''')],
 needs='a compiled program whose SAVE fails, and SAVE under the same name again once there is room',
 breaks='the second SAVE reports success without writing anything',
 demo='''
printf '10 PRINT 1\\n' > p.bas
chmod 777 .
mkdir d
session '10 PRINT 1' 'RUN' 'SAVE "d/x/p.bas"' '*mkdir d/x' 'SAVE "d/x/p.bas"' > out
grep -q '10 PRINT 1' d/x/p.bas || fail "the second SAVE did not write the file: $(cat out)"
''')
bug(id='empty-file', prop='C09', edits=[(S,'''  SOURCE* src = new_source(name);
  char buf[256];
  while (fgets(buf, sizeof buf, fp)) {
''','''  int c = getc(fp);
  SOURCE* src = new_source(name);
  if (c == EOF && !ferror(fp))
    return src; // empty file: no lines
  ungetc(c, fp);
  char buf[256];
  while (fgets(buf, sizeof buf, fp)) {
''')],
 needs='loading an empty file',
 breaks='an empty file stays open after LOAD',
 demo='''
: > e.bas
session 'LOAD "e.bas"' 'LOAD "e.bas"' '*ls -l /proc/$PPID/fd | grep -c e.bas > count' 'BYE' > out
[ "$(cat count)" = 0 ] || fail "files are still open: $(cat count)"
''')
bug(id='trace-col', prop='C24', edits=[(R,'        printf("[%u]", source_linenum','        vm->col += printf("[%u]", source_linenum')],
 needs='tracing a program that uses comma zones or TAB after part of a line has been printed',
 breaks='the trace marks move the print position of the program',
 demo='''
printf '10 PRINT "A",\\n20 PRINT "B"\\n' > p.bas
timeout 20 "$LB" -q -t p.bas > out 2>&1
sed 's/\\[[0-9]*\\]//g' out > got
timeout 20 "$LB" -q p.bas > want 2>&1
cmp -s got want || fail "tracing changes more than the marks: $(cat out)"
''')
bug(id='shell-tabs', prop='C25', edits=[(I,'  system(line);\n}\n','''  for (char* s = line; *s; s++)
    if (*s == '\\t')
      *s = ' ';
  system(line);
}
''')],
 needs='an operating-system command with a tab in it',
 breaks='the command is not passed on as typed',
 demo='''
printf '*printf "%%s" "a\\tb" > f\\nBYE\\n' | timeout 20 "$LB" -q > out 2>&1
[ "$(od -An -c f | tr -d ' ')" = 'a\\tb' ] || fail "the command was changed: $(od -c f)"
''')
bug(id='renum-list', prop='C04', edits=[(I,'            if (lookup_line_mapping(map, basic_line, &new_basic_line)) {\n','''            if (!lookup_line_mapping(map, basic_line, &new_basic_line))
              break; // no such line
            else if (basic_line != new_basic_line) {
''')],
 needs='an ON list with a missing line before others',
 breaks='references after a missing line are not renumbered',
 demo='''
session '10 ON A GOTO 5,20,30' '20 PRINT 2' '30 PRINT 3' 'RENUM 100,1,10' 'LIST' > out
grep -q 'GOTO 5,110,120' out || fail "references were not renumbered: $(cat out)"
''')
bug(id='renum-partial', prop='C04', edits=[(I,'''      insert_line_mapping(map, basic_line, new_linenum);
      prev''','''      insert_line_mapping(map, basic_line, new_linenum);
      set_source_linenum(source, line, new_linenum);
      prev'''),(I,'''  // update the line number of each source line
  for (unsigned line = 0; line < source_lines(source); line++) {
    unsigned new_basic_line;
    if (lookup_line_mapping(map, source_linenum(source, line), &new_basic_line))
      set_source_linenum(source, line, new_basic_line);
  }

''','')],
 needs='a RENUM that is refused part way through, because numbers become too large',
 breaks='a refused RENUM leaves the first lines renumbered',
 demo='''
session '10 PRINT 1' '20 PRINT 2' '30 PRINT 3' 'RENUM 65000,1,500' 'LIST' > out
grep -q '10 PRINT 1' out || fail "a refused RENUM changed the program: $(cat out)"
''')
bug(id='cont-failed', prop='C12', edits=[(R,'''    else
      clear_code_state(&vm->stopped_program);
  }
}
''','''    else if (!failed)
      clear_code_state(&vm->stopped_program);
  }
}
''')],
 needs='a program that stops, is continued and then fails, and CONT',
 breaks='CONT after a run-time error continues from an earlier STOP',
 demo='''
session '10 STOP' '20 PRINT "TWO"' '30 PRINT LOG(0)' 'RUN' 'CONT' 'CONT' > out
[ "$(grep -c TWO out)" = 1 ] || fail "CONT after an error continued the program: $(cat out)"
''')
bug(id='break-col', prop='C11', edits=[(R,'''  else if (interrupted)
    puts("Break");
''','''  else if (interrupted) {
    puts("Break");
    vm->col = 1;
  }
''')],
 needs='CTRL-C in the middle of an output line that goes on with a comma zone or TAB after CONT',
 breaks='the print position is lost by a break, so the continued program prints differently',
 demo='''
mkfifo in
timeout 20 "$LB" -q < in > out 2>&1 &
p=$!
exec 3> in
printf '10 PRINT "ABC";\\n20 INPUT A\\n30 PRINT "DE","F"\\nRUN\\n' >&3
sleep 1
kill -INT $(pgrep -P $p); sleep 0.3
printf '5\\nCONT\\nBYE\\n' >&3
exec 3>&-
wait $p
# with the position kept, the zone after ABCDE ends at the next multiple of 8 after column 5
grep -q 'DE   F' out || fail "print position lost: $(cat -A out)"
''')
bug(id='run-clear', prop='C14', edits=[(I,'''      vm_clear_values(vm);
      trap_interrupt();
      run_program(vm);
''','''      trap_interrupt();
      run_program(vm);
'''),(R,'''    reset_control_state(vm);
    vm->code_state.code = &vm->stored_program;
''','''    vm_clear_values(vm);
    reset_control_state(vm);
    vm->code_state.code = &vm->stored_program;
''')],
 needs='RUN when there is no program, with variables set',
 breaks='RUN does not clear the variables when no program has been entered',
 demo='''
session 'A=5' 'RUN' 'PRINT "A=";A' > out
grep -q 'A= 0' out || fail "RUN did not clear the variables: $(cat out)"
''')
bug(id='array-clear', prop='C14', edits=[(Y,'''          delete_numeric_array(sym->val.numarr);
          sym->val.numarr = NULL;
          break;
        case TYPE_STR:
          delete_string_array''','''          if (sym->val.numarr && sym->val.numarr->size.dimensions == 1) {
            // keep the array, as it is likely to be dimensioned again
            for (unsigned i = 0; i < sym->val.numarr->size.elements; i++)
              sym->val.numarr->val[i] = 0;
            return;
          }
          delete_numeric_array(sym->val.numarr);
          sym->val.numarr = NULL;
          break;
        case TYPE_STR:
          delete_string_array'''),(Y,'  clear_symbol_table_values(st);\n  for (unsigned i = 0; i < st->used; i++) {\n','''  clear_symbol_table_values(st);
  for (unsigned i = 0; i < st->used; i++) {
    if (st->psym[i]->kind == SYM_ARRAY && st->psym[i]->type == TYPE_NUM)
      delete_numeric_array(st->psym[i]->val.numarr);
''')],
 needs='a numeric array smaller than 10 dimensioned, then CLEAR or RUN, then used undimensioned beyond its old size',
 breaks='the size of an array survives CLEAR',
 demo='''
session 'DIM A(3)' 'CLEAR' 'A(7)=1:PRINT "OK";A(7)' > out
grep -q 'OK 1' out || fail "the array is still there after CLEAR: $(cat out)"
''')
bug(id='def-line', prop='C13', edits=[(R,'        source_line = vm->code_state.source_line;\n','        source_line = i[-1].op == B_SOURCE_LINE ? i[-1].u.source_line : 0;\n')],
 needs='an error in a function whose DEF is not the first statement of its line',
 breaks='errors in a user-defined function are blamed on the first line of the program',
 demo='''
session '10 REM' '20 A=1:DEF FNA(X)=LOG(X)' '30 PRINT FNA(0)' 'RUN' > out
grep -q '^20 A=1' out || fail "wrong line: $(cat out)"
''')
bug(id='gosub-push', prop='C13', edits=[(R,'''  unsigned pc = find_basic_line(vm, basic_line); // must exist before pushing return
  push_return(vm, return_pc);
''','''  push_return(vm, return_pc);
  unsigned pc = find_basic_line(vm, basic_line);
''')],
 needs='GOSUB to a missing line, several times or followed by an immediate RETURN',
 breaks='a failed GOSUB leaves a return address behind',
 demo='''
session '10 GOSUB 500' '20 PRINT "TWO"' 'RUN' 'RETURN' > out
grep -q TWO out && fail "a GOSUB that failed can be returned from: $(cat out)"
grep -q 'RETURN without' out || fail "no error: $(cat out)"
''')
bug(id='def-leak', prop='C22', edits=[(R,'''        delete_def(sym->val.def);
        sym->val.def = NULL;
        sym->defined = false;
''','''        sym->val.def = NULL;
        sym->defined = false;
''')],
 needs='a DEF that is executed again',
 breaks='the old definition is never released',
 demo='''
printf '10 FOR I=1 TO 5\\n20 DEF FNA(X)=X+I\\n30 NEXT\\n' > p.bas
timeout 20 "$LB" -q -m p.bas > out 2>&1
a=$(grep -io 'malloc[^0-9]*[0-9]*' out | grep -o '[0-9]*$'); f=$(grep -io 'free[^0-9]*[0-9]*' out | grep -o '[0-9]*$')
[ -n "$a" ] && [ "$a" = "$f" ] || fail "memory is not released: $(cat out)"
''')
bug(id='strarr-leak', prop='C22', edits=[(A,'    for (unsigned i = 0; i < p->size.elements; i++)\n      efree(p->val[i]);\n','    for (unsigned i = p->size.base; i < p->size.max[0]; i++)\n      efree(p->val[i]);\n')],
 needs='a string array whose last element or second row is set',
 breaks='the last element of a string array is never released',
 demo='''
printf '10 DIM A$(3)\\n20 A$(3)="X"\\n' > p.bas
timeout 20 "$LB" -q -m p.bas > out 2>&1
a=$(grep -io 'malloc[^0-9]*[0-9]*' out | grep -o '[0-9]*$'); f=$(grep -io 'free[^0-9]*[0-9]*' out | grep -o '[0-9]*$')
[ -n "$a" ] && [ "$a" = "$f" ] || fail "memory is not released: $(cat out)"
''')
bug(id='load-equal', prop='C07', edits=[(S,'  if (num <= latest)\n','  if (num < latest)\n')],
 needs='a file in which a line number occurs twice in a row',
 breaks='LOAD accepts a file with the same line number twice',
 demo='''
printf '10 PRINT 1\\n10 PRINT 2\\n' > p.bas
session '5 PRINT "OLD"' 'LOAD "p.bas"' 'LIST' > out
grep -q '5 PRINT "OLD"' out || fail "a malformed file was loaded: $(cat out)"
''')
bug(id='rnd-pair', prop='C19', edits=[(R,'        x = (double) rand() / RAND_MAX;\n','''        // each random number from the system is good for two
        static int spare = -1;
        int k = spare >= 0 ? spare : rand();
        spare = spare >= 0 ? -1 : (int) (((unsigned) k * 2654435761u) & RAND_MAX);
        x = (double) k / RAND_MAX;
''')],
 needs='RANDOMIZE n after an odd number of RND calls',
 breaks='the first RND after RANDOMIZE n depends on what ran before',
 demo='''
session 'RANDOMIZE 7' 'PRINT "A";RND(1);RND(1)' 'PRINT RND(1)' 'RANDOMIZE 7' 'PRINT "A";RND(1);RND(1)' > out
[ "$(grep 'A ' out | sort -u | wc -l)" = 1 ] || fail "the same seed gives another sequence: $(cat out)"
''')
bug(id='strdup-null', prop='C21', edits=[(U,'''      t = emalloc(strlen(s) + 1);
      strcpy(t, s);
''','''      malloc_count++;
      t = strdup(s);
''')],
 needs='memory running out while a string is copied',
 breaks='running out of memory is not noticed: text is lost or the interpreter crashes',
 files={'m.c':'''#include <stdlib.h>
#include <string.h>
#include <unistd.h>
/* memory is used up once the text MARK has been copied */
static int out;
void* __libc_malloc(size_t);
void* malloc(size_t n) { return out ? NULL : __libc_malloc(n); }
char* strdup(const char* s) { char* p = malloc(strlen(s) + 1); return p ? strcpy(p, s) : NULL; }
char* strcpy(char* d, const char* s) { memcpy(d, s, strlen(s) + 1); return d; }
int system(const char* c) { (void) c; out = 1; return 0; }
'''},
 demo='''
gcc -shared -fPIC -fno-builtin -o m.so "$HERE/m.c" || exit 2
printf '10 PRINT 1\\nRUN\\n*\\n*x\\n20 PRINT 2\\nLIST\\nBYE\\n' | LD_PRELOAD=$T/m.so timeout 20 "$LB" -q > out 2>&1
rc=$?
[ $rc = 1 ] && grep -qi 'memory' out || fail "status $rc: $(cat out)"
''')
bug(id='restore-imm', prop='C16', edits=[(R,'''      vm->program_data = 0;
      vm->immediate_data = 0;
      break;
    case B_RESTORE_LINE''','''      if (vm->code_state.code == &vm->immediate_code)
        vm->immediate_data = 0;
      else
        vm->program_data = 0;
      break;
    case B_RESTORE_LINE''')],
 needs='an immediate RESTORE while the program is stopped, then CONT',
 breaks='RESTORE in immediate mode does not restart the DATA of the program',
 demo='''
session '10 DATA 1,2,3' '20 READ A:PRINT "A";A' '30 STOP' '40 READ A:PRINT "A";A' 'RUN' 'RESTORE' 'CONT' > out
[ "$(grep -c 'A 1' out)" = 2 ] || fail "RESTORE had no effect: $(cat out)"
''')
bug(id='prompt-tty', prop='C18', edits=[(I,'    fputs("> ", stdout);\n    fflush(stdout);\n','    fputs("> ", stdout);\n    if (isatty(STDIN_FILENO)) // somebody is there to see it\n      fflush(stdout);\n'),(I,'#include <assert.h>\n','#include <assert.h>\n#include <unistd.h>\n')],
 needs='input and output that are pipes',
 breaks='when input comes from a pipe, output is not visible while the interpreter waits for a command',
 demo='''
mkfifo in
timeout 20 "$LB" -q < in > out 2>&1 &
p=$!
exec 3> in
printf '10 PRINT 1\\nLIST\\n' >&3
sleep 1
cp out seen
printf 'BYE\\n' >&3
exec 3>&-
wait $p
[ "$(tail -c 2 seen)" = '> ' ] || fail "not visible while waiting: $(cat seen)"
''')
bug(id='time-gm', prop='C20', edits=[(R,'      struct tm * tm = localtime(&t);\n','      struct tm * tm = gmtime(&t);\n')],
 needs='a local time zone other than UTC',
 breaks='TIME$ gives UTC, not local time',
 demo='''
for k in 1 2 3; do
  a=$(TZ=XYZ-5:30 date +%H:%M:%S); o=$(TZ=XYZ-5:30 session 'PRINT TIME$'); b=$(TZ=XYZ-5:30 date +%H:%M:%S)
  case "$o" in *"$a"*|*"$b"*) exit 0;; esac
done
fail "TIME\\$ is not the local time: $o, it is $b"
''')
bug(id='long-eof', prop='C01', edits=[(I,'''  int c;
  while ((c = getchar()) != EOF && c != '\\n')
    ;
  return false;
''','''  while (getchar() != '\\n')
    ;
  return false;
''')],
 needs='input that ends in the middle of an overlong line',
 breaks='the interpreter loops for ever instead of ending at the end of its input',
 demo='''
head -c 300 /dev/zero | tr '\\0' 'A' | timeout 5 "$LB" -q > out 2>&1
[ $? = 0 ] || fail "it does not end at the end of input"
''')
bug(id='break-line', prop='C10', edits=[(R,'''  return vm->sp == 0 &&''','''  return vm->code_state.code->bcode->inst[vm->code_state.pc].op == B_SOURCE_LINE &&
         vm->sp == 0 &&''')],
 needs='CTRL-C in a loop within one line',
 breaks='a loop within one line cannot be interrupted',
 demo='''
mkfifo in
timeout -s KILL 20 "$LB" -q < in > out 2>&1 &
p=$!
exec 3> in
printf '10 FOR I=1 TO 1E15:NEXT\\nRUN\\n' >&3
sleep 1
kill -INT $(pgrep -P $p); sleep 1
printf 'PRINT "ALIVE"\\nBYE\\n' >&3
exec 3>&-
sleep 1
r=0; grep -q ALIVE out || r=1
kill -KILL $(pgrep -P $p) 2>/dev/null
wait $p 2>/dev/null
[ $r = 0 ] || fail "CTRL-C did not stop it: $(cat out)"
''')
bug(id='goto-cache', prop='C03', edits=[(L,'''  unsigned h = basic_line % LINE_HASH_SIZE;
  for (const struct line_node * node = map->hash[h]; node; node = node->next) {
    if (node->basic_line == basic_line) {
      *val = node->val;
      return true;
    }
  }
  return false;
''','''  // the same line is often looked up again and again
  static const LINE_MAP* last_map;
  static unsigned last_line, last_val, last_count;
  if (map == last_map && map->count == last_count && basic_line == last_line) {
    *val = last_val;
    return true;
  }
  unsigned h = basic_line % LINE_HASH_SIZE;
  for (const struct line_node * node = map->hash[h]; node; node = node->next) {
    if (node->basic_line == basic_line) {
      last_map = map;
      last_count = map->count;
      last_line = basic_line;
      *val = last_val = node->val;
      return true;
    }
  }
  return false;
''')],
 needs='a program changed without changing the number of its lines and run again, when the new index lies where the old one was',
 breaks='GOTO goes to where the line was in the old program',
 demo='''
session '10 GOTO 30' '20 PRINT 1' '30 PRINT "THIRTY"' 'RUN' '10 PRINT "X":PRINT "Y":PRINT "Z":GOTO 30' 'RUN' '10 GOTO 30' 'RUN' > out
[ "$(grep -c THIRTY out)" = 3 ] || fail "GOTO went elsewhere: $(cat out)"
''')
B=[b for b in B if b]
only=sys.argv[1:]
for b in B:
    if not only or b['id'] in only: make(b)
print(' '.join(b['id'] for b in B))

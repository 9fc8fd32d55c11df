import sys; sys.path.insert(0,'/tmp/plant')
from lib import make
R='Basic/run.c'; S='Basic/source.c'; I='Monitor/interactive.c'
B=[]
def bug(**k): B.append(k)
bug(id='return-line', prop='C13', edits=[(R,'  vm->code_state = vm->retstack[vm->rsp];\n','  vm->code_state.code = vm->retstack[vm->rsp].code;\n  vm->code_state.pc = vm->retstack[vm->rsp].pc;\n')],
 needs='a run-time error (or STOP) later on the same line as a GOSUB, after the subroutine has returned',
 breaks='RETURN restores the position but not the source line, so an error after the GOSUB on that line is blamed on the RETURN line',
 demo='''
session '10 GOSUB 100:PRINT "BACK":PRINT LOG(0)' '20 END' '100 PRINT "SUB"' '110 RETURN' 'RUN' > out
grep -qx '10 GOSUB 100:PRINT "BACK":PRINT LOG(0)' out || fail "the error is not reported on line 10: $(cat out)"
''')
bug(id='next-swap', prop='C15', edits=[(R,'''    for (unsigned k = si; k < vm->for_sp; k++)
      vm->for_stack[k] = vm->for_stack[k + 1];
''','''    if ((unsigned) si < vm->for_sp)
      vm->for_stack[si] = vm->for_stack[vm->for_sp];
''')],
 needs='three loops in progress, the outermost ended by a NEXT naming it, then NEXT without a variable',
 breaks='removing a finished loop from below the top of the FOR stack changes the order of the loops above it, so NEXT without a variable continues the wrong loop',
 demo='''
session '10 FOR A=1 TO 1' '20 FOR B=1 TO 3' '30 FOR C=1 TO 3' '40 IF D=0 THEN D=1:NEXT A' '50 PRINT "C";C;"B";B' '60 IF C<3 THEN NEXT' '70 PRINT "END";B;C' 'RUN' > out
grep -q 'END 1  3' out || fail "NEXT did not continue the innermost loop: $(cat out)"
''')
bug(id='find-for-code', prop='C15', edits=[(R,'    if (vm->for_stack[j].symbol_id == id)\n','    if (vm->for_stack[j].symbol_id == id && vm->for_stack[j].code_state.code == vm->code_state.code)\n')],
 needs='a program stopped inside nested loops, then an immediate NEXT naming the outer loop variable',
 breaks='an immediate NEXT for an outer loop of the stopped program is refused with NEXT without FOR',
 demo='''
session '10 FOR A=1 TO 3' '20 FOR B=1 TO 3' '30 PRINT "AT";A;B' '40 IF A=1 THEN STOP' '50 NEXT B,A' 'RUN' 'NEXT A' > out
grep -q 'AT 2  1' out || fail "immediate NEXT A did not continue the loop: $(cat out)"
''')
bug(id='same-line-case', prop='C03', edits=[(R,'''  if (vm->stored_program.source == NULL)
    vm->stored_program.source = new_source(NULL);
  enter_source_line(vm->stored_program.source, num, text);
''','''  if (vm->stored_program.source == NULL)
    vm->stored_program.source = new_source(NULL);
  // entering the same line again does not change the program
  unsigned i;
  bool same = find_source_linenum(vm->stored_program.source, num, &i) &&
              STRICMP(source_text(vm->stored_program.source, i), text) == 0;
  enter_source_line(vm->stored_program.source, num, text);
  if (same)
    return;
''')],
 needs='a compiled program in which a line is replaced by one that differs from it only in the case of letters, for example within a string',
 breaks='the old line is still executed although LIST shows the new one',
 demo='''
session '10 PRINT "Yes"' 'RUN' '10 PRINT "YES"' 'LIST' 'RUN' > out
[ "$(grep -c '^> YES' out)" = 1 ] || fail "RUN does not run the line as listed: $(cat out)"
''')
bug(id='load-first', prop='C07', edits=[(R,'''  if (vm->stored_program.source)
    delete_source(vm->stored_program.source);
  vm->stored_program.source = source;
  stored_program_changed(vm);
  return true;
''','''  if (vm->stored_program.source)
    delete_source(vm->stored_program.source);
  vm->stored_program.source = source;
  return true;
'''),(R,'bool vm_load_source(VM* vm, const char* name) {\n','bool vm_load_source(VM* vm, const char* name) {\n  stored_program_changed(vm);\n')],
 needs='a LOAD that fails while a program is stopped or has left variables',
 breaks='a failed LOAD discards the compiled program, so CONT is refused and the variables are lost',
 demo='''
session '10 A=5:STOP:PRINT "GO";A' 'RUN' 'LOAD "nosuch.bas"' 'CONT' > out
grep -q 'GO 5' out || fail "CONT after a failed LOAD: $(cat out)"
''')
bug(id='save-indent', prop='C05', edits=[(S,r'''    fprintf(fp, "%u %s\n", src->lines[i].num, src->lines[i].text);
''',r'''    fprintf(fp, isspace(src->lines[i].text[0]) ? "%u%s\n" : "%u %s\n", src->lines[i].num, src->lines[i].text);
''')],
 needs='a line whose text starts with a space, saved and loaded again',
 breaks='one space of indentation is lost each time the program is saved and loaded',
 demo='''
session '10   PRINT "A"' 'SAVE "p.bas"' 'NEW' 'LOAD "p.bas"' 'LIST' > out
grep -q '10   PRINT' out || fail "indentation is lost: $(cat out)"
''')
bug(id='spread-full', prop='C02', edits=[(S,'''  assert(pos < src->used);
  ensure_space(src);
  assert(src->used < src->allocated);
  src->used++;
''','''  assert(pos < src->used);
  src->used++;
''')],
 needs='a program of exactly 128 lines (or a larger power of two) into which a line is then inserted in the middle',
 breaks='the line table overflows its allocation',
 demo='''
for i in $(seq 1 128); do echo "$((i*10)) REM"; done > in
{ echo '15 PRINT "IN"'; for i in $(seq 1 300); do echo "A$i\\$=\\"$i\\""; done; echo 'LIST'; echo 'RUN'; echo 'BYE'; } >> in
MALLOC_PERTURB_=165 MALLOC_CHECK_=3 timeout 20 "$LB" -q < in > out 2>&1
rc=$?
if command -v valgrind >/dev/null; then timeout 120 valgrind -q --error-exitcode=9 "$LB" -q < in >/dev/null 2>&1 || fail "memory is corrupted"; fi
[ $rc = 0 ] && grep -q '^> IN' out || fail "inserting a line failed, status $rc"
''')
bug(id='page-flush', prop='C18', edits=[(I,'''static void await_newline(void) {
  fflush(stdout);
''','''static void await_newline(void) {
''')],
 needs='LIST P of more than a page with the output going to a pipe or file',
 breaks='the page is not shown before the interpreter waits for it to be acknowledged',
 demo='''
for i in $(seq 1 30); do echo "$i REM"; done > in
echo 'LIST P' >> in
mkfifo q
timeout 20 "$LB" -q < q > out 2>&1 &
exec 3> q
cat in >&3
for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20; do sleep 0.1; grep -q '23 REM' out && break; done
ok=0; grep -q '23 REM' out && ok=1
echo >&3; exec 3>&-
wait
[ $ok = 1 ] || fail "the page is not visible"
''')
bug(id='cls-col', prop='C25', edits=[(R,'''      clear_screen();
      vm->col = 1;
''','''      clear_screen();
''')],
 needs='CLS while the print position is not at the start of a line, followed by TAB or a comma',
 breaks='the print position after CLS is the one from before it',
 demo='''
mkdir bin; printf '#!/bin/sh\\nexit 1\\n' > bin/clear; chmod +x bin/clear
PATH=$T/bin:$PATH session '10 PRINT "ABC";:CLS:PRINT TAB(6);"X"' 'RUN' > out
grep -qx '     X' out || fail "TAB after CLS: $(cat out)"
''')
bug(id='rnd-one', prop='C19', edits=[(R,'''      do {
        x = (double) rand() / RAND_MAX;
      } while (x >= 1);
''','''      x = (double) rand() / RAND_MAX;
''')],
 needs='the random source returning its largest value',
 breaks='RND yields 1',
 files={'r.c':'#include <stdlib.h>\nstatic int n;\nint rand(void) { return n++ == 0 ? RAND_MAX : 1000000 * (n % 50); }\n'},
 demo='''
gcc -shared -fPIC -o r.so "$HERE/r.c" || exit 2
printf '%s\\n' '10 X=RND(1):IF X>=1 THEN PRINT "ONE"' 'RUN' | LD_PRELOAD=$T/r.so timeout 20 "$LB" -q > out 2>&1
grep -q ONE out && fail "RND gave 1"
exit 0
''')
CLK={'c.c':'#include <time.h>\n#include <stdio.h>\n#include <stdlib.h>\n/* the clock reads what the file "clock" says */\ntime_t time(time_t* t) { long v = 0; FILE* f = fopen("clock", "r"); if (f) { if (fscanf(f, "%ld", &v) != 1) v = 0; fclose(f); } if (t) *t = v; return v; }\n'}
bug(id='time-cache', prop='C20', edits=[(R,'''      time_t t = time(NULL);
      struct tm * tm = localtime(&t);
      char buf[12];
''','''      static time_t latest;
      static char buf[12];
      time_t t = time(NULL);
      if (t <= latest) {
        push_str(vm, buf);
        break;
      }
      latest = t;
      struct tm * tm = localtime(&t);
''')],
 needs='the clock being set back between two evaluations of TIME$',
 breaks='TIME$ stays at the later time until the clock has caught up',
 files=CLK,
 demo='''
gcc -shared -fPIC -o c.so "$HERE/c.c" || exit 2
echo 50000 > clock
printf '%s\\n' 'PRINT TIME$' '*echo 40000 > clock' 'PRINT TIME$' | TZ=UTC LD_PRELOAD=$T/c.so timeout 20 "$LB" -q > out 2>&1
grep -q '13:53:20' out && grep -q '11:06:40' out || fail "TIME$ after the clock was set back: $(cat out)"
''')
bug(id='rand-once', prop='C20', edits=[(R,'      srand((unsigned)time(NULL));\n','''{
      static bool seeded;
      if (!seeded)
        srand((unsigned)time(NULL));
      seeded = true;
}
''')],
 needs='RANDOMIZE without a number executed more than once in a session',
 breaks='the second RANDOMIZE does not reseed from the clock',
 files=CLK,
 demo='''
gcc -shared -fPIC -o c.so "$HERE/c.c" || exit 2
echo 50000 > clock
printf '%s\\n' 'RANDOMIZE:PRINT RND(1)' 'RANDOMIZE:PRINT RND(1)' | LD_PRELOAD=$T/c.so timeout 20 "$LB" -q > out 2>&1
[ "$(grep -o '0\\.[0-9]*' out | sort -u | wc -l)" = 1 ] || fail "the same time gave different numbers: $(cat out)"
''')
bug(id='immediate-data', prop='C16', edits=[(R,'    vm->immediate_data = 0;\n    vm->code_state.code = &vm->immediate_code;\n','    vm->code_state.code = &vm->immediate_code;\n')],
 needs='two immediate lines with DATA of their own',
 breaks='the second immediate READ does not start at the first item of its own line',
 demo='''
session 'DATA 1,2:READ A:PRINT A' 'DATA 3,4:READ A:PRINT A' > out
grep -q ' 3 ' out || fail "READ of the second line: $(cat out)"
''')
bug(id='list-int', prop='C10', edits=[(I,'i < source_lines(src) && !interrupted; i++','i < source_lines(src); i++')],
 needs='CTRL-C during a LIST',
 breaks='LIST cannot be interrupted',
 demo='''
for i in $(seq 1 200); do echo "$i REM"; done > in
echo 'LIST P' >> in
mkfifo q
"$LB" -q < q > out 2>&1 &
P=$!
exec 3> q
cat in >&3
for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20; do sleep 0.1; grep -q '23 REM' out && break; done
kill -INT $P; sleep 0.2
printf '\\nPRINT 6*7\\n\\n\\n\\n\\n\\n\\n\\n\\n\\n' >&3; exec 3>&-
wait $P
grep -q '46 REM' out && fail "LIST went on after CTRL-C"
exit 0
''')
for b in B:
    print(make(b))

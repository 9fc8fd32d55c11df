import sys; sys.path.insert(0,'/tmp/plant')
from lib import make
R='Basic/run.c'; S='Basic/source.c'; I='Monitor/interactive.c'; X='Shared/interrupt.c'; U='Shared/utils.c'; L='Basic/linemap.c'; O='Shared/os.c'; Y='Basic/symbol.c'; A='Basic/arrays.c'; P='System/options.c'; M='System/lbasic.c'; BC='Basic/bcode.c'; LX='Basic/lexer.c'; PA='Basic/parse.c'
B=[]
def bug(**k): B.append(k)
bug(id='int-count', prop='C10', edits=[(X,"""static void interrupt(int sig) {
  interrupted = true;
""","""static void interrupt(int sig) {
  static unsigned char ignored; // a second one before the first has been seen
  interrupted = ++ignored < 12;
""")],
 needs='the twelfth CTRL-C of a session',
 breaks='it is forgotten: the program runs on',
 demo=r'''
mkfifo in
(timeout 60 "$LB" -q < in > out 2>&1) &
exec 3> in
printf '10 GOTO 10\n' >&3
sleep 0.3
p=$(pgrep -n -f "^$LB -q")
for i in $(seq 1 14); do
  printf 'RUN\n' >&3
  sleep 0.15
  kill -INT "$p"
  sleep 0.1
  [ "$(grep -c Break out)" -ge 1 ] || true
done
printf 'BYE\n' >&3
sleep 0.5
if kill -0 "$p" 2>/dev/null; then kill -9 "$p"; fi
n=$(grep -o Break out | wc -l)
[ "$n" -ge 13 ] || fail "$n breaks"
''')
bug(id='save-memo', prop='C05', edits=[(R,"""  return save_source_file(vm->stored_program.source, name);
""","""  // do not write the same program to the same file again
  static char last[20];
  static const SOURCE* saved;
  static bool changed;
  if (saved == vm->stored_program.source && vm->stored_program.bcode && !changed && strcmp(last, name) == 0)
    return true;
  if (!save_source_file(vm->stored_program.source, name))
    return false;
  saved = vm->stored_program.source;
  changed = vm->stored_program.bcode == NULL;
  last[0] = '\\0';
  if (strlen(name) < sizeof last)
    strcpy(last, name);
  return true;
""")],
 needs='RUN, SAVE, edit a line, RUN, SAVE under the same name',
 breaks='the second SAVE writes nothing',
 demo=r'''
session '10 PRINT 1' 'RUN' 'SAVE "p"' '20 PRINT 2' 'RUN' 'SAVE "p"' > out
[ "$(wc -l < p)" = 2 ] || fail "old program in the file: $(cat p)"
''')
bug(id='pad-flag', prop='C11', edits=[(R,"""      while (k-- && !interrupted)
        putchar(' '), vm->col++;
      fflush(stdout);
      break;
    }
    case B_PRINT_TAB: {""","""      while (k-- && !interrupted)
        putchar(' ');
      vm->col += k + 1;
      fflush(stdout);
      break;
    }
    case B_PRINT_TAB: {""")],
 needs='any SPC: wrong count of columns', breaks='', demo='exit 1')
B.pop()
bug(id='next-def', prop='C14', edits=[(R,"""  param_sym->defined = vm->fn.param_defined;
  param_sym->val.num = vm->fn.param_val;
}""","""  param_sym->defined = vm->fn.param_defined;
  // a loop variable goes on from where it is
  if (vm->for_sp == 0 || vm->for_stack[vm->for_sp - 1].symbol_id != vm->fn.param_id)
    param_sym->val.num = vm->fn.param_val;
}""")],
 needs='a function whose parameter has the name of the innermost loop variable, called with another value in the loop',
 breaks='the loop variable is changed',
 demo=r'''
session 'DEF FNA(I)=I*2' 'FOR I=1 TO 2:PRINT FNA(I+5);I;:NEXT' 'PRINT "end"' > out
grep -q '12  1  14  2' out || fail "loop disturbed: $(cat out)"
''')
bug(id='for-push', prop='C13', edits=[(R,"""        if (vm->for_sp >= MAX_FOR) {
          dump_for_stack(vm, "overflow");
          run_error(vm, "FOR is nested too deeply\\n");
        }
        si = vm->for_sp++;
""","""        if (vm->for_sp >= MAX_FOR) {
          dump_for_stack(vm, "overflow");
          vm->for_sp = 0; // start again
          run_error(vm, "FOR is nested more than %d deep\\n", MAX_FOR);
        }
        si = vm->for_sp++;
""")],
 needs='an immediate FOR too many while a program with eight loops is stopped, then CONT',
 breaks='the loops of the program are gone',
 demo=r'''
session '10 FOR A=1 TO 2:FOR B=1 TO 1:FOR C=1 TO 1:FOR D=1 TO 1' '20 FOR E=1 TO 1:FOR F=1 TO 1:FOR G=1 TO 1:FOR H=1 TO 1' '30 STOP' '40 NEXT:NEXT:NEXT:NEXT:NEXT:NEXT:NEXT:NEXT' '50 PRINT "A=";A' 'RUN' 'FOR I=1 TO 2' 'CONT' > out
grep -q 'NEXT without' out && fail "loops lost: $(cat out)"
[ "$(grep -c Stopped out)" = 2 ] || fail "loop not continued: $(cat out)"
''')
bug(id='trace-col2', prop='C24', edits=[(R,"""        printf("[%u]", source_linenum(vm->code_state.code->source, i->u.source_line));
        fflush(stdout);
""","""        const unsigned marked = printf("[%u]", source_linenum(vm->code_state.code->source, i->u.source_line));
        fflush(stdout);
        if (marked <= 3) // [0]: immediate
          vm->col = 1;
""")],
 needs='tracing, PRINT that ends in ; and another immediate PRINT with TAB',
 breaks='the print position is forgotten at immediate lines when tracing',
 demo=r'''
printf 'PRINT "abcdefgh";\nPRINT TAB(4);"x"\n' > in
timeout 20 "$LB" -q -t < in > out 2>&1
timeout 20 "$LB" -q < in > out2 2>&1
[ "$(sed 's/\[[0-9]*\]//g' out)" = "$(cat out2)" ] || fail "differs: $(cat out) / $(cat out2)"
''')
bug(id='ins-extra', prop='C17', edits=[(R,"""      while ((c = vm->input[vm->inp]) == ' ' || c == '\\t' || c == '\\n' || c == '\\r')
        vm->inp++;
      if (c != '\\0')""","""      while ((c = vm->input[vm->inp]) == ' ' || c == '\\t' || c == '\\n' || c == '\\r' || c == ',')
        vm->inp++;
      if (c != '\\0')""")],
 needs='an input line with a comma after the last item and nothing behind it',
 breaks='the extra (empty) item is not reported',
 demo=r'''
printf 'INPUT A\n5,\nPRINT A\n' > in
timeout 20 "$LB" -q < in > out 2>&1
grep -q 'Extra' out || fail "not reported: $(cat out)"
''')
bug(id='stop-source', prop='C12', edits=[(R,"""  if (vm->stopped_program.code == NULL)
    return false;
""","""  if (vm->stopped_program.code == NULL || vm->code_state.code == NULL)
    return false;
  // nothing left but the end of the program
  if (vm->stopped_program.code->bcode && vm->stopped_program.pc + 1 >= vm->stopped_program.code->bcode->used)
    vm->rsp = 0;
""")],
 needs='STOP as the last statement of the program within a GOSUB, CONT, then RETURN',
 breaks='the subroutine returns are dropped',
 demo=r'''
session '10 GOSUB 30' '20 PRINT "back":END' '30 STOP' 'RUN' 'CONT' 'RETURN' > out
grep -q 'back' out || fail "return lost: $(cat out)"
''')
bug(id='goto-trace', prop='C03', edits=[(R,"""  if (vm->stored_program.source) {
    unsigned i;
    if (find_source_linenum(vm->stored_program.source, num, &i)) {
      delete_source_line(vm->stored_program.source, i);
      stored_program_changed(vm);
    }
  }""","""  if (vm->stored_program.source) {
    unsigned i;
    if (find_source_linenum(vm->stored_program.source, num, &i)) {
      // a comment does not affect the code
      const char* text = source_text(vm->stored_program.source, i);
      const bool comment = strncmp(text, "REM ", 4) == 0;
      delete_source_line(vm->stored_program.source, i);
      if (!comment)
        stored_program_changed(vm);
    }
  }""")],
 needs='deleting a comment line after the program has run, then RUN with an error or STOP after it',
 breaks='the code refers to source lines by index: wrong lines are reported; GOTO to the deleted line works',
 demo=r'''
session '10 REM start' '20 PRINT "a"' '30 STOP' '40 PRINT "b"' 'RUN' '10' 'CONT' > out
grep -q '^> b' out && fail "continued a changed program: $(cat out)"
session '10 REM start' '20 PRINT "a"' '30 STOP' '40 PRINT "b"' 'RUN' '10' 'RUN' > out
[ "$(grep -c '30 STOP' out)" = 2 ] || fail "wrong line: $(cat out)"
''')
bug(id='oom-load', prop='C21', edits=[(U,"""  void* p = calloc(count, size);
  if (p == NULL)
    fatal("out of memory (ecalloc)\\n");
""","""  void* p = calloc(count, size);
  if (p == NULL && (p = malloc(count * size)) == NULL)
    fatal("out of memory (ecalloc)\\n");
""")],
 needs='one failing calloc with reused memory',
 breaks='the block is not cleared',
 demo=r'''
cat > shim.c <<'EOF'
#define _GNU_SOURCE
#include <stddef.h>
#include <string.h>
#include <dlfcn.h>
#include <errno.h>
static char arena[1 << 16];
void* malloc(size_t n) {
  static void* (*real)(size_t);
  if (!real) real = (void* (*)(size_t)) dlsym(RTLD_NEXT, "malloc");
  void* p = real(n);
  if (p) memset(p, 0x5a, n);
  return p;
}
void* calloc(size_t n, size_t m) {
  static size_t used;
  static int k;
  if (n * m > 200 && n * m < 4000 && ++k == 2) return NULL;
  void* p = arena + used;
  used += (n * m + 15) / 16 * 16;
  return used > sizeof arena ? NULL : p;
}
void free(void* p) { }
EOF
gcc -shared -fPIC -fno-builtin -o shim.so shim.c -ldl || exit 2
printf 'DIM A(50)\nDIM B(50)\nDIM C(50)\nPRINT A(3);B(3);C(3)\nPRINT "ok"\n' > in
LD_PRELOAD=$PWD/shim.so timeout 5 "$LB" -q < in > out 2>&1
c=$?
grep -q ' 0  0  0' out || { [ $c = 1 ] && grep -qi 'memory' out; } || fail "status $c: $(cat out)"
''')
bug(id='names-case', prop='C28', edits=[],needs='',breaks='',demo='') if 0 else None
bug(id='seed-neg', prop='C19', edits=[(R,"""      srand(pop_unsigned(vm));
      break;
""","""      {
        // spread small seeds
        unsigned seed = pop_unsigned(vm);
        static unsigned turn;
        srand(seed < 3 ? seed + turn++ % 2 : seed);
      }
      break;
""")],
 needs='RANDOMIZE 0, 1 or 2 for the second time',
 breaks='the sequence differs',
 demo=r'''
session 'RANDOMIZE 2' 'PRINT "R";RND(1)' 'RANDOMIZE 2' 'PRINT "R";RND(1)' | grep -o 'R.*' | sort -u > out
[ $(wc -l < out) = 1 ] || fail "sequences differ: $(cat out)"
''')
bug(id='time-keep', prop='C20', edits=[(R,"""      srand((unsigned)time(NULL));
""","""      {
        static time_t latest;
        const time_t now = time(NULL);
        if (now > latest)
          latest = now;
        srand((unsigned)latest);
      }
""")],
 needs='RANDOMIZE after the clock has been put back',
 breaks='the seed is the later time',
 demo=r'''
cat > shim.c <<'EOF'
#include <time.h>
time_t time(time_t* p) { static int n; time_t t = n++ == 0 ? 2000 : 1000; if (p) *p = t; return t; }
EOF
gcc -shared -fPIC -o shim.so shim.c || exit 2
printf 'RANDOMIZE\nA=RND(1)\nRANDOMIZE\nPRINT "same";A=RND(1)\n' > in
LD_PRELOAD=$PWD/shim.so timeout 5 "$LB" -q < in > out 2>&1
grep -q 'same 0' out || fail "sequence of the old time: $(cat out)"
''')
bug(id='page-last', prop='C02', edits=[(I,"""        count++;
        if (page && count % PAGE == PAGE-1 && i + 1 < source_lines(src))
          await_newline();
        else
          putchar('\\n');
""","""        count++;
        if (page && count % PAGE == PAGE-1 && i + 1 < source_lines(src)) {
          await_newline();
          if (i + 2 == source_lines(src))
            break;
        }
        else
          putchar('\\n');
""")],
 needs='LIST P of a program with exactly one line more than a page',
 breaks='the last line is not listed',
 demo=r'''
(for i in $(seq 1 23) 24; do echo "$i REM $i"; done; echo 'LIST P'; echo; echo; echo BYE) > in
timeout 5 "$LB" -q < in > out 2>&1
n=$(grep -o 'REM [0-9]*' out | sort -u | wc -l)
[ "$n" = 24 ] || fail "$n lines"
''')
bug(id='os-line', prop='C25', edits=[(I,"""  line = skip_space(line);
  if (*line == '\\0' || *line == '\\n')
    return;
  system(line);
""","""  line = skip_space(line);
  if (*line == '\\0' || *line == '\\n')
    return;
  // not a BASIC command given by mistake
  if (strncmp(line, "RUN", 3) != 0 || isalnum((unsigned char) line[3]))
    system(line);
""")],
 needs='*RUN', breaks='the command is not executed',
 demo=r'''
mkdir bin
printf '#!/bin/sh\necho ran > log\n' > bin/RUN
chmod +x bin/RUN
printf '*RUN it\n' > in
PATH=$PWD/bin:$PATH timeout 20 "$LB" -q < in > out 2>&1
[ -f log ] || fail "not executed"
''')
bug(id='defs-many', prop='C14', edits=[(R,"""      if (i->u.param.params != 1)
        run_error(vm, "unexpected number of parameters: %s\\n", sym->name);
      const BCODE* bcode""","""      static unsigned char definitions;
      if (i->u.param.params != 1 || ++definitions > 200)
        run_error(vm, "unexpected number of parameters: %s\\n", sym->name);
      const BCODE* bcode""")],
 needs='more than 200 DEF statements executed in a session',
 breaks='DEF fails',
 demo=r'''
session '10 FOR I=1 TO 250:DEF FNA(X)=X+I:NEXT' '20 PRINT FNA(1)' 'RUN' > out
grep -q 251 out || fail "$(cat out)"
''')
want=sys.argv[1:]
for b in B:
    if b and (not want or b['id'] in want): make(b)

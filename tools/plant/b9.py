import sys; sys.path.insert(0,'/tmp/plant')
from lib import make
R='Basic/run.c'; S='Basic/source.c'; I='Monitor/interactive.c'; X='Shared/interrupt.c'; U='Shared/utils.c'; L='Basic/linemap.c'; O='Shared/os.c'; Y='Basic/symbol.c'; A='Basic/arrays.c'; P='System/options.c'; M='System/lbasic.c'; BC='Basic/bcode.c'; LX='Basic/lexer.c'; PA='Basic/parse.c'; T='Basic/token.c'; H='Shared/hash.c'
B=[]
def bug(**k): B.append(k)
bug(id='sym-front', prop='C14', edits=[(Y,"""  for (SYMBOL* sym = st->hash[h]; sym; sym = sym->next) {
    if (match_paren(sym->kind, paren) && STRICMP(sym->name, name) == 0)
      return sym;
  }
  return NULL;
""","""  SYMBOL* prev = NULL;
  for (SYMBOL* sym = st->hash[h]; sym; prev = sym, sym = sym->next) {
    if (match_paren(sym->kind, paren) && STRICMP(sym->name, name) == 0) {
      // names in use move to the front
      if (prev && prev != st->hash[h]) {
        st->hash[h]->next = sym->next;
        sym->next = st->hash[h];
        st->hash[h] = sym;
      }
      return sym;
    }
  }
  return NULL;
""")],
 needs='four names in one bucket of the symbol table, looked up in a certain order',
 breaks='a name is lost: the same name later is a new variable',
 demo=r'''
{ python3 - <<'E'
def h(s):
    x=0
    for c in s:
        x=(x<<4)+ord(c)
        g=x&0xf0000000
        if g: x^=g>>24; x^=g
    return x%293
d={}
import string
for a in string.ascii_uppercase:
    for b in string.digits+string.ascii_uppercase:
        for c in string.digits:
            d.setdefault(h(a+b+c),[]).append(a+b+c)
n=[x for x in max(d.values(),key=len) if not any(k in x for k in ('OR','ON','IF','TO'))][:6]
for i,v in enumerate(n): print('%d %s=%d'%(i+1,v,i+1))
import itertools
k=100
for v in itertools.permutations(n[:4]):
    print('%d PRINT %s'%(k,';'.join(v))); k+=1
for v in itertools.permutations(n[:4]):
    print('%d IF %s<>0 THEN IF %s<>0 THEN IF %s<>0 THEN IF %s=0 THEN PRINT "LOST"'%(k,*v)); k+=1
E
} > p.bas
"$LB" -q p.bas > out
grep -q LOST out && fail lost
python3 - <<'E' || fail values
L=[sorted(l.split()) for l in open('out') if l.strip()]
import sys
sys.exit(0 if all(x==L[0] for x in L) and '0' not in L[0] else 1)
E
''')
bug(id='hash-case', prop='C14', edits=[(H,"""  for (const char* p = s; *p; p++)
    h = hash_in(h, toupper(*p));
  return h;
}

unsigned hashpjw_upper_len""","""  unsigned n = 0;
  for (const char* p = s; *p; p++, n++)
    h = hash_in(h, n < 8 ? toupper(*p) : *p);
  return h;
}

unsigned hashpjw_upper_len""")],
 needs='a name of more than eight characters written once in capitals, once not',
 breaks='the two are different variables',
 demo=r'''
printf '10 ACCOUNTTOTAL=5\n20 PRINT accounttotal;AccountTotal\n' > p.bas
"$LB" -q p.bas > out
grep -q '5 *5' out || fail "$(cat out)"
''')
bug(id='else-cross', prop='C28', edits=[(PA,"""  emit_source_line(parser->bcode, B_SOURCE_LINE, line_index);
  parser->if_then = 0;
""","""  emit_source_line(parser->bcode, B_SOURCE_LINE, line_index);
""")],
 needs='a line that begins an IF without an ELSE and a later line with an ELSE of its own without IF',
 breaks='the stray ELSE is not reported; it becomes the ELSE of the earlier line',
 demo=r'''
printf '10 IF 1 THEN PRINT 1\n20 PRINT 2 ELSE PRINT 3\n' > p.bas
"$LB" -q -p p.bas > out 2>&1 && fail "stray ELSE accepted"
grep -q 'unexpected ELSE' out || fail "no message"
''')
bug(id='else-else', prop='C28', edits=[(PA,"""  patch_opcode(parser->bcode, parser->if_then, B_IF_ELSE);
  emit(parser->bcode, B_ELSE);
  parser->if_then = 0;
  return true;
""","""  patch_opcode(parser->bcode, parser->if_then, B_IF_ELSE);
  parser->if_then = emit(parser->bcode, B_ELSE);
  return true;
""")],
 needs='two ELSEs for one IF',
 breaks='the second ELSE is accepted and turns the first into an IF that takes a value nobody pushed',
 demo=r'''
printf '10 IF 1 THEN PRINT 1 ELSE PRINT 2 ELSE PRINT 3\n20 PRINT 4\n' > p.bas
"$LB" -q p.bas > out 2>&1
grep -q 'unexpected ELSE' out || fail "second ELSE accepted: $(cat out)"
''')
bug(id='on-many', prop='C03', edits=[(PA,"""    on_line(parser);
    count++;
  }
""","""    on_line(parser);
    if (count < 15)
      count++;
  }
""")],
 needs='ON ... GOTO with more than fifteen line numbers and a value beyond the fifteenth',
 breaks='the line numbers after the fifteenth are never chosen',
 demo=r'''
{ printf '5 ON 17 GOTO 10'; for i in $(seq 11 30); do printf ',%d' $i; done; printf '\n6 PRINT "NONE":END\n'; for i in $(seq 10 30); do printf '%d PRINT %d:END\n' $i $i; done; } > p.bas
"$LB" -q p.bas > out
grep -q 26 out || fail "$(cat out)"
''')
bug(id='data-trim', prop='C16', edits=[(LX,"""    while (i > 0 && (lex->word[i-1] == ' ' || lex->word[i-1] == '\\t'))
      i--;
""","""    while (i > 1 && (lex->word[i-1] == ' ' || lex->word[i-1] == '\\t') && lex->word[i-2] != '\\t')
      i--;
""")],
 needs='an unquoted DATA item followed by a tab and then more space',
 breaks='a tab remains at the end of the item',
 demo=r'''
printf '10 DATA AB\t \t,C\n20 READ A$\n30 PRINT "<";A$;">"\n' > p.bas
"$LB" -q p.bas > out
grep -q '<AB>' out || fail "$(cat out)"
''')
bug(id='def-empty', prop='C23', edits=[(BC,"""  if (ops[j.op].format == BF_STR)
    j.u.str = estrdup(j.u.str);
""","""  if (ops[j.op].format == BF_STR && j.u.str[0])
    j.u.str = estrdup(j.u.str);
""")],
 needs='a DEF with an empty string in it',
 breaks='two programs own the same block: it is released twice',
 demo=r'''
session '10 DEF FNA$(X)=STR$(X)+""' '20 PRINT FNA$(2)' 'RUN' 'NEW' '10 PRINT "AFTER"' 'RUN' > out 2>&1
grep -q AFTER out || fail "died: $(cat out)"
''')
bug(id='parse-crunch', prop='C28', edits=[(M,"""      BCODE* bcode = parse_source(source, st, opt->keywords_anywhere);
""","""      BCODE* bcode = parse_source(source, st, opt->keywords_anywhere && opt->mode == CODE_MODE);
""")],
 needs='-p with -k and a crunched program',
 breaks='the program is reported as wrong',
 demo=r'''
printf '10 FORI=1TO3:PRINTI:NEXTI\n' > p.bas
"$LB" -q -k -p p.bas > out 2>&1 || fail "$(cat out)"
''')
bug(id='names-bad', prop='C28', edits=[(M,"""      while (t != '\\n' && t != TOK_REM) {
""","""      while (t != '\\n' && t != TOK_REM && t != TOK_ERROR) {
""")],
 needs='-n of a line with something in it that is not a token, then a name',
 breaks='the names after it are left out',
 demo=r'''
printf '10 A=1E:ZEBRA=3\n' > p.bas
"$LB" -q -n p.bas > out 2>/dev/null
grep -q ZEBRA out || fail "$(cat out)"
''')
bug(id='names-data', prop='C28', edits=[(M,"""        if (t == TOK_ID)
          insert_unique_string(names, lex_word(lex));
        t = lex_next(lex);
""","""        if (t == TOK_ID)
          insert_unique_string(names, lex_word(lex));
        if (t == TOK_DATA)
          while ((t = lex_next(lex)) != '\\n') // these are not names
            ;
        else
          t = lex_next(lex);
""")],
 needs='-n of a line with a statement after DATA',
 breaks='the names of that statement are left out',
 demo=r'''
printf '10 DATA 1,2:ZEBRA=3\n' > p.bas
"$LB" -q -n p.bas > out 2>/dev/null
grep -q ZEBRA out || fail "$(cat out)"
''')
bug(id='sym-values', prop='C14', edits=[(Y,"""  st->used = 0;
  st->next_id = 0;

  for (unsigned h = 0; h < SYMBOL_HASH_SIZE; h++)
    st->hash[h] = NULL;
""","""  // the table itself need not be emptied if nothing is in it
  if (st->used > 64)
    for (unsigned h = 0; h < SYMBOL_HASH_SIZE; h++)
      st->hash[h] = NULL;
  else
    for (unsigned i = 0; i < SYMBOL_HASH_SIZE / 2; i++)
      st->hash[i] = st->hash[SYMBOL_HASH_SIZE - 1 - i] = NULL;

  st->used = 0;
  st->next_id = 0;
""")],
 needs='NEW with a name in the middle bucket of the symbol table',
 breaks='the next use of the name uses a released symbol',
 demo=r'''
N=$(python3 - <<'E'
def h(s):
    x=0
    for c in s:
        x=(x<<4)+ord(c)
        g=x&0xf0000000
        if g: x^=g>>24; x^=g
    return x%293
import string
print(next(a+b+c for a in string.ascii_uppercase for b in string.ascii_uppercase for c in string.digits if h(a+b+c)==146 and a+b not in('OR','ON','IF','TO')))
E
)
vsession() { printf '%s\n' "$@" | timeout 100 valgrind -q --error-exitcode=9 "$LB" -q 2>&1; }
for k in 1; do
vsession "10 $N=5" 'RUN' 'NEW' "PRINT \"V\";$N" "10 Q1=1:Q2=2:Q3=3" "20 $N=9:PRINT Q1;Q2;Q3;$N" RUN 'PRINT "END"' > out 2>&1
grep -q END out || fail "died"
grep -q Invalid out && fail "uses released memory"
grep -q '^> V0' out || grep -q 'V *0' out || fail "value survives: $(cat out)"
tr -s ' ' < out | grep -q '1 2 3 9' || fail "mixed up: $(cat out)"
done
''')
bug(id='trace-off', prop='C24', edits=[(M,"""    interact(opt.keywords_anywhere, opt.trace_basic, opt.trace_for, opt.quiet);
""","""    interact(opt.keywords_anywhere && !opt.trace_for, opt.trace_basic, opt.trace_for, opt.quiet);
""")],
 needs='an interactive session with -k and -f and a crunched program',
 breaks='the program is a syntax error',
 demo=r'''
printf '10 FORI=1TO3:PRINTI:NEXTI\nRUN\nBYE\n' | "$LB" -q -k -f > out 2>&1
grep -q 'Error' out && fail "$(cat out)"
exit 0
''')
bug(id='str-dim2', prop='C14', edits=[(A,"""    case 2: {
      unsigned size1 = p->max[1] - p->base + 1;
      unsigned base1 = (indexes[0] - p->base) * size1;
      *offset = base1 + indexes[1] - p->base;
      break;
    }
""","""    case 2: {
      unsigned size1 = p->max[1] - p->base + 1;
      unsigned base1 = (indexes[0] - p->base) * size1;
      *offset = (base1 + indexes[1] - p->base) % 32768;
      break;
    }
""")],
 needs='a table of more than 32768 elements',
 breaks='elements beyond share the place of the first ones',
 demo=r'''
printf '10 DIM A(200,200)\n20 A(0,0)=1:A(163,5)=2\n30 FOR I=0 TO 200:FOR J=0 TO 200:S=S+A(I,J):NEXT:NEXT:PRINT "S";S\n' > p.bas
"$LB" -q p.bas > out 2>&1
grep -q 'S *3' out || fail "$(cat out)"
''')
bug(id='elements-edge', prop='C23', edits=[(A,"""  p->elements = elements;
""","""  p->elements = dimensions == 2 && max[1] == base ? 1 : elements;
""")],
 needs='DIM A(0,n): a table of one row',
 breaks='the table has one element in all: the others lie outside the block',
 demo=r'''
printf '10 DIM A(0,300),B(300)\n20 FOR I=0 TO 300:A(0,I)=7:NEXT\n30 FOR I=0 TO 300:S=S+B(I):NEXT:PRINT "S";S\n' > p.bas
timeout 200 valgrind -q "$LB" -q p.bas > out 2>&1
grep -q Invalid out && fail "outside the block"
grep -q 'S *0' out || fail "$(cat out)"
''')
bug(id='caret', prop='C28', edits=[(PA,"""  space(len + lex_token_pos(lex), stderr);
""","""  space(len + (lex_token_pos(lex) < 80 ? lex_token_pos(lex) : 80), stderr);
""")],
 needs='a syntax error after the eightieth character of a line',
 breaks='the mark points at the wrong place',
 demo=r'''
printf '10 A=1:REM\n20 B=1+2+3+4+5+6+7+8+9+10+11+12+13+14+15+16+17+18+19+20+21+22+23+24+25+26+27+28+29+30+31+32+33+34+35+)\n' > p.bas
"$LB" -q -p p.bas > out 2>&1
python3 - <<'E' || fail "$(cat out)"
import sys
L=open('out').read().split('\n')
i=next(k for k,l in enumerate(L) if l.strip()=='^')
sys.exit(0 if L[i-1][L[i].index('^')]==')' else 1)
E
''')
bug(id='fn-type', prop='C28', edits=[(PA,"""  match(parser, '=');
  if (type == TYPE_STR)
    string_expression(parser);
  else
    numeric_expression(parser);
  emit(parser->bcode, B_END_DEF);
""","""  match(parser, '=');
  if (type == TYPE_STR)
    string_expression(parser);
  else
    expression(parser);
  emit(parser->bcode, B_END_DEF);
""")],
 needs='a DEF of a numeric function whose expression is a string',
 breaks='the error is not reported, the function delivers a string for a number',
 demo=r'''
printf '10 DEF FNA(X)="ABC"\n20 PRINT "OK"\n' > p.bas
"$LB" -q p.bas > out 2>&1
grep -q 'numeric expression expected' out || fail "$(cat out)"
''')
bug(id='next-list', prop='C15', edits=[(PA,"""    while (lex_token(parser->lex) == ',') {
      lex_next(parser->lex);
      sym = numeric_simple_variable(parser);
      emit_var(parser->bcode, B_NEXT_VAR, sym->id);
    }
""","""    SYMBOL* first = sym;
    while (lex_token(parser->lex) == ',') {
      lex_next(parser->lex);
      SYMBOL* prev = sym;
      sym = numeric_simple_variable(parser);
      if (sym != first || sym == prev)
        emit_var(parser->bcode, B_NEXT_VAR, sym->id);
    }
""")],
 needs='NEXT J,I,J with two loops on J',
 breaks='the outer J is not continued',
 demo=r'''
printf '10 NEXT J,I,J\n' > p.bas
"$LB" -q -c p.bas > out 2>&1
[ "$(grep -c NEXT-VAR out)" = 3 ] || fail "$(cat out)"
''')
bug(id='opt-rand', prop='C19', edits=[(P,"""      srand((unsigned)time(NULL));
""","""      srand((unsigned)time(NULL) & 0xffff0000);
""")],
 needs='-z at two times within eighteen hours',
 breaks='the same numbers',
 demo=r'''
printf '10 PRINT RND(1)\n' > p.bas
"$LB" -q -z p.bas > a; sleep 1.2; "$LB" -q -z p.bas > b
cmp -s a b && fail "same numbers"
exit 0
''')
want=sys.argv[1:]
for b in B:
    if b and (not want or b['id'] in want): make(b)

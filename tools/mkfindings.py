import subprocess
m={ # subject prefix -> (property, what failed)
"close the source file":("C09","LOAD never closed the source file: each LOAD leaked a handle and later LOADs failed"),
"report a read error during LOAD":("C07","a read error during LOAD was taken as end of file: the program was silently truncated"),
"LOAD of a malformed":("C07","LOAD of a file with a blank, overlong, unnumbered or misordered line ended the session"),
"report an error when SAVE":("C06","SAVE onto a full disk reported nothing and left a truncated file"),
"SAVE without a program":("C06","SAVE with no program reported nothing and saved nothing"),
"reject line number 0":("C02","entering line 0 ended the session or stored a line that could not be loaded again"),
"line numbers that are too large":("C02","line numbers of 2^32 and more wrapped round and replaced other lines"),
"invalid characters and DATA":("C23","an invalid character or unterminated DATA string ended the session"),
"RENUM updates every":("C04","RENUM updated only the first target of an ON list and none after THEN GOTO/GOSUB"),
"RENUM leaves DATA":("C04","RENUM changed DATA items that looked like line references"),
"RENUM that cannot":("C04","RENUM that would reorder or duplicate lines was carried out, corrupting the program"),
"RENUM makes the program":("C03","after RENUM the old compiled program was run"),
"INPUT at the end":("C17","INPUT at end of input looped forever or reused the previous line"),
"the rest of an overlong":("C17","the rest of an overlong INPUT line was taken as the next input or command"),
"invalid input for an array":("C17","each invalid input for an array element left its subscripts on the stack"),
"a run-time error leaves":("C13","values, strings, an active function call and the stopped state of a failed statement were left behind"),
"CTRL-C stops a program between":("C11","a break inside an expression or function left its stack in use by immediate statements"),
"CONT after a break in the last":("C11","CONT after a break in the last statement read past the end of the code"),
"GOSUB to a missing":("C13","GOSUB to a missing line left a return on the stack"),
"too many subscripts":("C23","three or more subscripts aborted the interpreter"),
"using a built-in":("C23","a built-in function name used as a variable aborted the interpreter"),
"a dimension of":("C23","a dimension of 4294967295 overflowed and corrupted memory"),
"a function used in the program":("C14","a function used in the program could not be defined in immediate mode"),
"CTRL-C while RUN":("C10","CTRL-C while RUN was compiling the program was lost"),
"CTRL-C stops PRINT":("C10","PRINT SPC/TAB with a huge count could not be interrupted"),
"run-time errors in string":("C22","run-time errors in string functions and string assignments leaked strings"),
"CHR$ of 128":("C23","CHR$ of 128 to 255 converted a number to a char that cannot hold it (undefined arithmetic)"),
"CTRL-C does not stop":("C11","a break between INPUT items let an immediate INPUT replace the line being assigned"),
"CONT after a break just":("C11","CONT after a break just before STOP skipped the STOP"),
"CLS clears":("C25","CLS cleared the screen before earlier output had been delivered"),
"RENUM leaves comments":("C04","RENUM changed line numbers in comments and complained about unbalanced quotes in them"),
"a string operand of ^":("C13","a string operand of ^ inside the ignored argument of RND was left on the stack, so later statements failed"),
"SAVE refuses a line":("C05","a line that RENUM had made longer than 254 characters was saved without complaint, and LOAD then refused the file"),
"DIM that fails":("C13","a DIM that fails (negative, fractional or too large dimension) lost the array that existed"),
"NEXT defines":("C15","after CLEAR inside a loop NEXT advanced a variable that still read as unset"),
}
out=["# Genuine defects found by the checks. Lines 'fixed:' record repaired ones and suppress nothing.",
"# Lines 'known: property=<id> key=<key> <what fails>' would list unrepaired ones (none at present)."]
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
used=set()
for l in log:
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    b=s[5:]
    ks=[k for k in m if b.startswith(k)]
    if len(ks)!=1: print("??",s,ks); continue
    used.add(ks[0]); p,w=m[ks[0]]
    out.append(f"fixed: property={p} {h} {w}")
print(set(m)-used)
open("/verif/known-findings.txt","w").write("\n".join(out)+"\n")

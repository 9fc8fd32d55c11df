#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
       "why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                  "observe_at":observe or ["standard output and error at each point where the interpreter waits for input"],
                  "hook_needed":hook}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

UT="The unit tests call single functions and the regression tests run whole program files once, non-interactively, fault-free; "

prop("C01","Only BYE or end of input ends an interactive session",
 "An interactive session keeps accepting commands, whatever valid or invalid commands, program lines, statements, programs, input or files it is given, whatever errors they cause, and whenever CTRL-C arrives while something is running; it ends only on BYE, at the end of its input, or when memory is exhausted. Every mistake is reported and followed by a new prompt, within a bounded amount of work unless a program is deliberately looping.",
 ["histories","inputs","fault_sequences"],
 "every sequence of command lines, program lines, statements and program input; every file content met by LOAD; every file-system error; every arrival time of CTRL-C during a run",
 UT+"no test enters the monitor at all, so no sequence of commands, bad line, bad file or interrupt is ever tried.",
 ["Monitor/interactive.c","Basic/run.c","Basic/source.c","Basic/lexer.c","Basic/parse.c"],
 [("command loop","Monitor/interactive.c: interact, interpret, get_line"),("error recovery by longjmp","Basic/run.c: run, run_error; Basic/parse.c: parse_source, parse_error"),("loading reports errors","Basic/source.c: load_source_file")])

prop("C02","The stored program is exactly what the edit history says",
 "At every prompt the stored program is the result of the edits so far: a numbered line adds or replaces that line, a bare number deletes it, NEW empties it, LOAD replaces it, and nothing else changes it. LIST with any range prints exactly the lines of that range in increasing line-number order with their text unchanged, paged when asked, and stops early only when interrupted.",
 ["histories","fault_sequences"],
 "every history of edits, deletions, NEW, LOAD, SAVE, RENUM, runs, errors, immediate statements and CTRL-C, with input arriving in any chunks",
 UT+"editing is only tested as a handful of calls of the line-storage functions, never through the monitor and never interleaved with runs, failures or interrupts.",
 ["Basic/source.c","Monitor/interactive.c","Basic/run.c"],
 [("sorted line store","Basic/source.c: enter_source_line, delete_source_line, clear_source"),("line entry and LIST","Monitor/interactive.c: program_line, list, get_list_numbers")],
 [("stored program source","lines of the current program, by number","Basic/run.c: struct vm stored_program.source")])

prop("C03","What runs is what is listed",
 "RUN, COMPILE, GOTO and GOSUB always execute the stored program as LIST shows it at that moment, including after edits, deletions, LOAD, NEW and RENUM made since the last run, stop or break. After any such change the stopped program can no longer be continued (CONT is refused), no stale line is ever executed, and variables, loops and subroutine returns of the old program are gone as soon as the changed program is next compiled.",
 ["histories","schedules"],
 "every interleaving of edits, LOAD, NEW, RENUM, RUN, STOP, break, CONT, COMPILE, immediate statements and compile errors",
 UT+"the compiled form and its invalidation are never exercised because no test edits a program after compiling it.",
 ["Basic/run.c","Monitor/interactive.c"],
 [("compiled-code invalidation","Basic/run.c: stored_program_changed, ensure_program_compiled"),("CONT guard","Basic/run.c: vm_continue"),("control-state reset","Basic/run.c: reset_control_state")],
 [("compiled program","B-code and line index derived from the source","Basic/run.c: struct vm stored_program")])

prop("C04","RENUM preserves program meaning and is all or nothing",
 "After a successful RENUM the selected lines carry the requested new numbers, the order and number of lines is unchanged, every line number used as a target in GOTO, GOSUB, THEN, ELSE, RESTORE and in every position of an ON list refers to the same line as before (references to lines that do not exist are left as they are), and nothing else in the text changes, so the program behaves as before. A RENUM that cannot be done (it would reorder or duplicate lines) says so and changes nothing.",
 ["histories","programs"],
 "every stored program built by any edit history, every combination of new, old and increment, followed by further edits, runs, SAVE and LOAD",
 UT+"RENUM is not covered by any test.",
 ["Monitor/interactive.c","Basic/linemap.c","Basic/source.c","Basic/lexer.c"],
 [("renumbering","Monitor/interactive.c: renumber, takes_line_number, get_renum_numbers"),("text replacement","Basic/source.c: source_replace")])

prop("C05","SAVE then LOAD restores the same program",
 "When SAVE reports no error, a later LOAD of that name, in the same or any later session, restores exactly the saved program, as long as nothing else wrote the file; running it behaves as the original. A program that LOAD would refuse (a line made too long by RENUM) is refused by SAVE with an error. This holds whatever was saved or loaded in between, and saving under one name never alters a file of another name.",
 ["histories","crash_points"],
 "every program, including lines that RENUM has made longer than a file may hold, every sequence of SAVE, LOAD, NEW, edits and session restarts over several file names, with file data transferred in any block sizes",
 UT+"SAVE is never executed by a test, and loading is only tested on fixed good files.",
 ["Basic/source.c","Monitor/interactive.c","Basic/run.c"],
 [("writing","Basic/source.c: save_source_file"),("reading","Basic/source.c: load_source_file")])

prop("C06","A SAVE that fails is reported and loses nothing in memory",
 "If the file cannot be created, or any part of the program cannot be written out (disk full, I/O error, error on closing), SAVE reports an error; if SAVE reports no error the complete program is in the file. In either case the program in memory, the variables and the session are unaffected and a later SAVE to a healthy disk succeeds.",
 ["fault_sequences","histories"],
 "every position of a write, flush, close or create failure, for every program size, in every session history",
 UT+"no test makes a file operation fail.",
 ["Basic/source.c","Basic/run.c","Monitor/interactive.c"],
 [("write and close error checks","Basic/source.c: save_source_file")])

prop("C07","LOAD takes the whole file or leaves the program alone",
 "LOAD either replaces the stored program with the complete content of the file, or reports an error and leaves the stored program, its variables and the ability to CONTinue as they were. A missing or unreadable file, a read error at any point, and malformed content (missing, zero, unordered or oversized line numbers, blank or overlong lines) are all reported; a truncated read is never taken for a shorter program.",
 ["fault_sequences","inputs","histories"],
 "every file content, every position of a read error, open failure or handle exhaustion, in every session history",
 UT+"loading is only tested with good files and on strings.",
 ["Basic/source.c","Basic/run.c"],
 [("parse then swap","Basic/run.c: vm_load_source"),("validation","Basic/source.c: load_source_file, append, parse_line_number")])

prop("C08","A completed SAVE survives the death of the interpreter",
 "Once SAVE has returned to the prompt without an error, the saved file holds that complete program even if the interpreter is killed at any later instant, including in the middle of a run, a LOAD, or a SAVE to another name. A kill at any instant during a SAVE affects no file other than the one being saved.",
 ["crash_points","histories"],
 "every instant at which the process can die, during and after every command, in every history over several files, with a new session started on what is left on disk",
 UT+"no test kills the interpreter or looks at files after it.",
 ["Basic/source.c","Monitor/interactive.c"],
 [("file closed before the prompt returns","Basic/source.c: save_source_file")])

prop("C09","No file stays open after SAVE or LOAD",
 "Whenever the interpreter waits for a command or for program input, it holds no open files, whatever SAVE and LOAD commands were given and however they succeeded or failed. So any number of them can be done in one session without exhausting file handles.",
 ["histories","fault_sequences"],
 "every history of SAVE and LOAD of good, missing, malformed and failing files",
 UT+"each test process loads one file and exits.",
 ["Basic/source.c"],
 [("closing on every path","Basic/source.c: load_source_file, save_source_file")])

prop("C10","CTRL-C always gets the prompt back promptly",
 "CTRL-C at any instant while a program, an immediate statement or a listing is running stops it within a bounded amount of further work and returns to the prompt, with Break reported if the program had not already finished or failed; if the program is waiting for input at that moment, it stops once that input line is completed. It never ends the session and never leaves the interpreter unable to be interrupted again.",
 ["schedules","programs","histories"],
 "every instruction at which the interrupt can arrive, for every program and statement including endless loops, user-defined functions, long padding, input waits, listing and compilation; repeated any number of times",
 UT+"no test sends an interrupt.",
 ["Basic/run.c","Shared/interrupt.c","Monitor/interactive.c"],
 [("interrupt flag polled between instructions","Basic/run.c: run"),("signal handling","Shared/interrupt.c: trap_interrupt, untrap_interrupt"),("LIST polling","Monitor/interactive.c: list")],
 [("interrupted","CTRL-C has been pressed","Shared/interrupt.c")])

prop("C11","Break and CONT are transparent to the program",
 "A program interrupted by CTRL-C at any instants and continued with CONT each time produces the same output, takes the same input and reaches the same final variables as one uninterrupted run (only spaces still owed by an interrupted SPC or TAB may be dropped). Looking at variables or calculating in immediate mode while it is stopped does not change that.",
 ["schedules","programs"],
 "every set of interrupt instants during the run of any program, with any inspection statements between break and CONT",
 UT+"neither interrupts nor CONT are ever exercised.",
 ["Basic/run.c","Shared/interrupt.c"],
 [("stopped state saved and restored","Basic/run.c: run, vm_continue"),("immediate code shares stacks with the stopped program","Basic/run.c: run_immediate, immediate_state")],
 [("stopped program","where CONT resumes","Basic/run.c: struct vm stopped_program")])

prop("C12","STOP and CONT resume exactly after the STOP",
 "STOP reports the line it is on and returns to the prompt with all variables, loops, subroutine returns and the DATA position intact; CONT resumes with the statement after the STOP, seeing any variable changes made meanwhile. CONT is refused when there is nothing to continue: before any run, after the program ended or failed, after it was changed, and after immediate statements discarded its control state.",
 ["histories","programs"],
 "every program with STOPs anywhere (inside loops, subroutines, multi-statement lines), every sequence of inspection and modification statements, edits, failures and CONTs",
 UT+"one regression program executes STOP once and exits; CONT is never used.",
 ["Basic/run.c","Monitor/interactive.c"],
 [("STOP","Basic/run.c: execute B_STOP, run"),("CONT","Basic/run.c: vm_continue")])

prop("C13","A run-time error is contained and blamed on the right line",
 "A run-time error stops the run at once, reports itself with the number and text of the program line in which it occurred, keeps the output and variable values produced so far, and returns to the prompt. Afterwards everything works as if the failing statement had merely been abandoned: any number of errors of any kind, including inside user-defined functions, never makes a later correct statement fail or alters variables.",
 ["histories","programs"],
 "every program and statement, every kind of run-time error at every depth of expressions, functions, loops and subroutines, in any number and order",
 UT+"each error test checks one error as the last act of a process, so nothing ever runs after an error.",
 ["Basic/run.c"],
 [("error exit","Basic/run.c: run_error, run"),("line tracking","Basic/run.c: execute B_SOURCE_LINE")])

prop("C14","Variables persist and are cleared exactly when documented",
 "Variables, arrays and user-defined functions are shared between programs and immediate statements and keep their values across statements, errors, STOP, break, CONT, LIST, SAVE and failed commands. They are cleared by RUN, CLEAR and NEW, and when a changed program is next compiled, and by nothing else; reading an unset variable gives zero or the empty string, and user-defined functions do not disturb a variable named like their parameter.",
 ["histories","programs"],
 "every interleaving of immediate statements, runs, edits, errors, breaks and commands over any number of variables, arrays and functions",
 UT+"no test executes two statements in one session.",
 ["Basic/run.c","Basic/symbol.c","Basic/arrays.c","Basic/def.c"],
 [("symbol table values and names","Basic/symbol.c: clear_symbol_table_values, clear_symbol_table_names"),("when they are cleared","Basic/run.c: ensure_program_compiled, vm_clear_names; Monitor/interactive.c: command")])

prop("C15","FOR and GOSUB state follows the run across the prompt",
 "Loops and subroutine returns in progress continue correctly across STOP, break, errors, immediate NEXT, GOTO, GOSUB and RETURN, are dropped on RUN, on a program change, and when they would refer to an immediate statement that no longer exists. The nesting limits are enforced with an error, never by corrupting other state, and reusing a loop variable or leaving loops by GOTO any number of times never exhausts them wrongly.",
 ["histories","programs"],
 "every program with loops and subroutines to any depth, entered and left in any way from program and immediate code, in any order with edits and interrupts",
 UT+"the regression programs only run simple loops and subroutines once from start to end.",
 ["Basic/run.c"],
 [("FOR stack","Basic/run.c: execute B_FOR, next, find_for"),("return stack","Basic/run.c: push_return, pop_return"),("discarding immediate references","Basic/run.c: immediate_state, reset_control_state")])

prop("C16","READ delivers each DATA item once, in order",
 "READ takes the DATA items of the program in line order, each once, across any number of runs of statements, GOTOs, STOP, break, CONT, errors and immediate READs, and reports when they are exhausted. RUN, RESTORE and a program change restart at the first item, RESTORE n at the first item at or after line n, and an immediate READ uses the DATA of its own line if it has any without moving the position in the program's DATA.",
 ["histories","programs"],
 "every arrangement of DATA, READ and RESTORE in programs and immediate statements, interleaved with stops, breaks, errors and edits",
 UT+"two regression programs read DATA in one uninterrupted run; immediate READ is never used.",
 ["Basic/run.c","Basic/parse.c","Basic/lexer.c"],
 [("data pointers","Basic/run.c: find_data, execute B_RESTORE, B_RESTORE_LINE")])

prop("C17","INPUT assigns what was typed, however it arrives",
 "INPUT and LINE INPUT assign exactly the items of the line that was entered, reporting and repeating on missing or invalid items and reporting extra items, independently of how the characters are split into reads, of what was entered before, and of the line's length (NUL characters apart). End of input or a read error while a program waits for input stops the program with an error; it never loops, reuses old input, or lets part of one line be taken as the next.",
 ["inputs","schedules","fault_sequences"],
 "every input line content and length, every chunking of the input stream, end of input or a read error at every position, CTRL-C while waiting",
 UT+"no test feeds a program any input.",
 ["Basic/run.c","Monitor/interactive.c"],
 [("input buffer protocol","Basic/run.c: execute B_INPUT_BUF, B_INPUT_NUM, B_INPUT_STR, B_INPUT_SEP, B_INPUT_END, B_INPUT_LINE"),("command lines","Monitor/interactive.c: get_line, line_complete")])

prop("C18","Everything printed is visible before the interpreter waits",
 "Whenever the interpreter waits for a command, for program input or for a page to be acknowledged, everything printed so far, including the prompt, has been delivered to the output in order, whether the output is a terminal or a pipe; at exit nothing is lost. Print positions (comma zones, TAB, SPC, numbers, newlines) are tracked correctly across statements, errors, stops and runs.",
 ["schedules","histories","configurations"],
 "every program and session, with terminal-like and pipe-like buffering, input arriving line by line, split or several lines at once",
 UT+"tests only compare the complete output file after the process has ended.",
 ["Basic/run.c","Monitor/interactive.c"],
 [("flushing","Basic/run.c: execute B_PRINT_*, B_INPUT_BUF; Monitor/interactive.c: get_line, await_newline"),("column tracking","Basic/run.c: struct vm col")])

prop("C19","RND is always in [0,1) and follows its seed",
 "RND always yields a number at least 0 and less than 1, whatever the system random source returns, including its extreme values. RANDOMIZE n makes the following sequence of RND values a function of n alone, repeatable in the same or another session whatever ran before, and without RANDOMIZE each session starts the same sequence.",
 ["histories","fault_sequences","configurations"],
 "every sequence of values the random source can return, every seed, any interleaving with other statements, stops, breaks and restarts",
 UT+"the regression test for RND observes one fixed sequence of one platform.",
 ["Basic/run.c","System/options.c"],
 [("range rejection","Basic/run.c: execute B_RND"),("seeding","Basic/run.c: execute B_SEED, B_RAND")])

prop("C20","TIME$ and RANDOMIZE follow the clock of the moment",
 "TIME$ always gives the local time at the moment it is evaluated, as HH:MM:SS, for every clock value including jumps forwards and backwards between evaluations. RANDOMIZE without a number seeds from the clock, so the sequence is a function of the time at which it is executed.",
 ["schedules","histories"],
 "every clock reading and jump between and during statements, over any session",
 UT+"a test with the real clock can only check the format.",
 ["Basic/run.c"],
 [("clock reads","Basic/run.c: execute B_TIME_STR, B_RAND")])

prop("C21","Running out of memory ends cleanly",
 "When memory cannot be obtained at any point, the interpreter either carries on correctly after reporting an error, or reports that memory is exhausted and exits with a failure status. It never crashes, hangs or prints wrong results, and files saved before stay intact.",
 ["fault_sequences","histories"],
 "every allocation in every history can fail, once or permanently",
 UT+"no test makes an allocation fail.",
 ["Shared/utils.c","Basic/run.c"],
 [("checked allocation","Shared/utils.c: emalloc, ecalloc, erealloc, fatal")])

prop("C22","Every block of memory is released",
 "When a session or a batch run ends normally, every memory block obtained by the interpreter has been released exactly once, whatever the session did: edits, errors at any depth, breaks, failed loads, redefinitions. So sessions of any length do not grow without bound.",
 ["histories","fault_sequences"],
 "every session history, with run-time and syntax errors, breaks and file faults at any point, ended by BYE or end of input",
 UT+"leaks are not checked, and no error or interrupt is followed by more work.",
 ["Shared/utils.c","Basic/run.c","Basic/symbol.c","Basic/source.c","Basic/bcode.c"],
 [("ownership of strings, code, symbols and sources","Basic/run.c: delete_vm, pop_str, set_string_*; Basic/bcode.c: delete_bcode; Basic/symbol.c: undefine_value")])

prop("C23","No input can crash or corrupt the interpreter",
 "No sequence of bytes on its input, in program lines, statements, program input or loaded files makes the interpreter access invalid memory, fail an internal consistency check, execute undefined arithmetic or stop responding. Every such input is either accepted or reported as an error.",
 ["inputs","histories","fault_sequences"],
 "every byte sequence, valid statements with extreme numbers, subscripts, sizes and lengths, garbage, control and non-ASCII characters, at every limit, with interrupts and read errors at any time",
 UT+"they contain almost no invalid programs and no extreme values.",
 ["Basic/lexer.c","Basic/parse.c","Basic/run.c","Basic/arrays.c","Basic/source.c","Monitor/interactive.c"],
 [("limits and checks","Basic/arrays.c: compute_total_elements, compute_element_offset; Basic/run.c: push, pop, push_str, pop_indexes; Basic/lexer.c: append")],
 observe=["process survival under address and undefined-behaviour instrumentation","step count per command"])

prop("C24","A program behaves the same however it is launched",
 "A program file given on the command line behaves exactly as when it is loaded in a session and RUN, and the interpreter then exits. Options that trace line numbers add only the trace marks and change nothing else, and a file that cannot be loaded is reported without running anything.",
 ["configurations","programs","fault_sequences"],
 "every program, program input and option combination, with the same faults and interrupts",
 UT+"the regression tests only use one launch form.",
 ["System/lbasic.c","System/options.c","Basic/run.c","Monitor/interactive.c"],
 [("launch","System/lbasic.c: main, process_file; Monitor/interactive.c: interact")])

prop("C25","Operating-system commands run once, verbatim, in order",
 "A command line starting with * passes the rest of that line, exactly as typed apart from leading blanks, to the operating system once and then returns to the prompt whatever the command's outcome; CLS clears the screen at its place in the output, or prints a separator when that fails. Nothing else ever runs an operating-system command, and none of it changes the program, variables or print position, except that CLS restarts the line.",
 ["histories","fault_sequences"],
 "every session, every exit status or failure of the system call",
 UT+"neither feature is executed by a test.",
 ["Monitor/interactive.c","Shared/os.c","Basic/run.c"],
 [("pass-through","Monitor/interactive.c: oscli"),("clear screen","Shared/os.c: clear_screen")])

prop("C26","Expressions evaluate according to the language rules",
 "Every expression yields the value given by the documented operators, precedence, built-in functions and string rules, or the documented error.",
 ["programs","inputs"],
 "every expression over every operand value",
 UT+"they sample a small number of expressions.",
 ["Basic/parse.c","Basic/run.c","Basic/builtin.c"],
 [("expression compiler and stack machine","Basic/parse.c: expression; Basic/run.c: execute")])

prop("C27","Keywords-anywhere mode reads crunched programs correctly",
 "With the keywords-anywhere option a program without spaces between keywords and names is read as the same program written with spaces, and string, REM and DATA text is never split.",
 ["programs","configurations"],
 "every program text",
 UT+"one crunched program is tested.",
 ["Basic/lexer.c","Basic/token.c"],
 [("keyword prefixes","Basic/lexer.c: lex_next; Basic/token.c: keyword_prefix")])

prop("C28","Listing, parsing and code modes report a program without running it",
 "With the list, list-names, parse or code option and a program file, the interpreter prints a faithful account of the whole file (every line in order; every name used, once; the code of every line, in order), or reports why it cannot (missing or malformed file, read error, syntax error, memory exhausted) and exits with a failure status without passing off part of the file as the whole. It never executes any of the program, reads no input, runs no operating-system command and changes no file.",
 ["configurations","programs","fault_sequences"],
 "every program file, valid or not, every position of a read error, open failure, allocation failure or kill, among sessions that write and rewrite the files",
 UT+"these modes are not covered by the regression tests.",
 ["System/lbasic.c","Basic/bcode.c","Basic/symbol.c","Shared/stringuniq.c"],
 [("non-running modes","System/lbasic.c: process_file, list_file, list_names, print_name"),("code listing","Basic/symbol.c: print_binst"),("set of names","Shared/stringuniq.c")],
 observe=["standard output, standard error and exit status","disk contents and use of input and operating system"])

with open(__file__.rsplit("/",2)[0]+"/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))

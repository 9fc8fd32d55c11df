#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+"/properties.jsonl")]
NA={
"C26":"The value of an expression is a pure function of its text and the variables: no schedule, time, I/O, fault or second party takes part, so there is nothing for a simulator to control. (The reference model does evaluate every expression the other checks run, but that is differential testing of a pure function, not a decision by this technique.)",
"C27":"How crunched text is split into tokens is a pure function of one line of text and one option; no nondeterminism or fault enters.",
}
what={
"C08":"kills at seeded basic blocks, with only closed or flushed file data surviving, and the disk compared after the death and in the next life",
"C09":"open files counted at every wait, with open, read, write and close failures and a small table of handles",
"C10":"CTRL-C at seeded basic blocks, with a bound on the work done after it",
"C11":"CTRL-C at seeded basic blocks and CONT, the effect located by refinement against the model's statement boundaries",
"C21":"allocation failures at seeded allocations, once or from then on",
"C22":"a ledger of all blocks at normal exit, after histories with errors, breaks, failed loads and redefinitions",
"C28":"launches in every reporting mode between sessions, with read errors, open and allocation failures and kills; output, status, disk, input and system calls compared with the model",
"C23":"arbitrary bytes as commands, lines, answers and files under address and undefined-behaviour sanitizers and a step bound, with interrupts",
}
checks=[]
for p in props:
    i=p["id"]
    if i in NA: continue
    checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough",
      "technique":"deterministic simulation with fault injection: seeded search over sessions, schedules and faults"+(" ("+what[i]+")" if i in what else ", each wait checked against an executable reference model"),
      "level":"exploration",
      "level_note":"Every violation reported is a real, exactly repeatable execution of the code in /repo. Absence of violations covers the seeds explored only. Trusted: the reference model of the language and commands (/verif/sim/model.cpp, parser.cpp, lexer.cpp), the simulated environment (world.cpp), the sanitizers; interrupts are delivered between the interpreter's basic blocks, not inside the C library."})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,
 "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
 "notes":"No hooks in /repo: nondeterminism is intercepted by redirecting libc symbols in the compiled objects (sim/build.sh). Replays: bash replay.sh replays/<file>. All commits in /repo are fixes of genuine defects, listed in known-findings.txt."}
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1)
open(here+"/MANIFEST.json","a").write("\n")

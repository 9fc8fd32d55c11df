import os, subprocess, json, sys, shutil
PRE = '''#!/bin/bash
# Exit 0 if the interpreter behaves as it should, nonzero otherwise.
HERE=$(cd "$(dirname "$0")" && pwd)
LB=$PWD/_build/main/Debug/LegacyBasic
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
fail() { echo "FAIL: $*"; exit 1; }
# session LINE...: the output of an interactive session given these lines
session() { printf '%s\\n' "$@" | timeout 20 "$LB" -q 2>&1; }
'''
def make(bug):
    """Write /verif/seeded/<id> from a bug: id, prop, edits [(file, old, new)], needs, breaks, demo, files."""
    d = '/tmp/plant/out/' + bug['id']
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = '/tmp/plant/w'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.check_call(['git', 'clone', '-q', '--shared', '/repo', w])
    for f, old, new in bug['edits']:
        p = w + '/' + f
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit('%s: %s: %d matches of %r' % (bug['id'], f, s.count(old), old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w, 'diff']).decode()
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(PRE + bug['demo'].lstrip('\n'))
    os.chmod(d + '/demo.sh', 0o755)
    for n, t in bug.get('files', {}).items():
        open(d + '/' + n, 'w').write(t)
    json.dump({'property': bug['prop'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    import re
    orig=0; rem=0; f=None; ln=0
    for l in diff.split('\n'):
        if l.startswith('--- '): f=l[6:]
        elif l.startswith('+++ '): pass
        elif l.startswith('@@'): ln=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('-'):
            rem+=1
            b=subprocess.check_output(['git','-C','/repo','blame','-s','-L','%d,%d'%(ln,ln),f]).decode()
            if b.startswith('^'): orig+=1
            ln+=1
        elif l.startswith('+'): pass
        else: ln+=1
    print(bug['id'],'removed',rem,'original',orig, '' if orig else '   <<<<<<')
    return d

#!/usr/bin/env python3
"""mkseed.py [id...]: (re)generates /verif/seeded/<id> from tools/seeds/*.py and confirms each demo
(exit 0 on /repo's HEAD, nonzero with the patch; the patched tree builds)."""
import sys, os, glob, json, shutil, subprocess, importlib.util
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/seedwt'
def sh(c, **k):
    r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k); r.stdout = r.stdout.decode('utf-8', 'surrogateescape'); return r
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo, flags='', files=None): SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags, files=files or {}))
for f in sorted(glob.glob(HERE + '/tools/seeds/*.py')): exec(compile(open(f).read(), f, 'exec'))
want = sys.argv[1:]
if not os.path.isdir(WT): sh('git -C /repo worktree prune; git -C /repo worktree add -f --detach %s HEAD' % WT)
blame = {}
def original(file, lines):
    o = sh('git -C %s blame -s -l HEAD -- %s' % (WT, file)).stdout.split('\n')
    base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.strip()
    return all(o[i - 1].lstrip('^').startswith(base[:30]) for i in lines)
SCRIPT = '''#!/bin/bash
# run with the repository as working directory: exit 0 = the property holds in this demonstration
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; t=$(mktemp -d) || exit 9
trap 'rm -rf -- "$t"' EXIT
inc="-I$d/stubs"; for p in "$r"/ecl_*; do inc="$inc -I$p/include"; done
g++ -std=c++14 -w -I"$r" $inc -I/usr/include/eigen3 %s -o "$t/demo" "$d/demo.cpp" -lpthread -lrt || exit 9
cd "$t" && timeout 100 ./demo
'''
for s in SEEDS:
    if want and s['id'] not in want: continue
    sh('git -C %s checkout -q --detach %s; git -C %s checkout -q -- .; git -C %s clean -fdq' % (WT, sh('git -C /repo rev-parse HEAD').stdout.strip(), WT, WT))
    bad = None
    for file, old, new in s['edits']:
        p = os.path.join(WT, file); t = open(p, encoding='utf-8', errors='surrogateescape', newline='').read()
        import re
        rx = re.compile(re.sub(r'(\\[ \t\n]|\s)+', lambda m: r'\s+', re.escape(old.strip())))
        hits = rx.findall(t)
        if len(hits) != 1: bad = '%s: old text occurs %d times' % (file, len(hits)); break
        old = hits[0]; new = new.strip()
        if '\r\n' in t: new = new.replace('\n', '\r\n')
        open(p, 'w', encoding='utf-8', errors='surrogateescape', newline='').write(t.replace(old, new))
    if bad: print(s['id'], 'BAD', bad); continue
    d = os.path.join(HERE, 'seeded', s['id']); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    diff = sh('git -C %s diff' % WT).stdout; open(d + '/patch.diff', 'w', encoding='utf-8', errors='surrogateescape', newline='').write(diff)
    cur = None; removed = {}
    import re
    for l in diff.split('\n'):
        if l.startswith('--- a/'): cur = l[6:]; removed[cur] = []
        m = re.match(r'@@ -(\d+)', l)
        if m: n = int(m.group(1)); continue
        if cur and l.startswith('-') and not l.startswith('---'): removed[cur].append(n); n += 1
        elif cur and l.startswith(' '): n += 1
    orig = all(original(f, ls) for f, ls in removed.items())
    open(d + '/demo.sh', 'w').write(SCRIPT % s['flags']); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
    for n, c in s['files'].items(): open(d + '/' + n, 'w').write(c)
    shutil.copytree(HERE + '/stubs', d + '/stubs')
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    a = sh('bash %s/demo.sh' % d, cwd='/repo'); b = sh('bash %s/demo.sh' % d, cwd=WT)
    print(s['id'], s['prop'], 'orig-lines' if orig else 'TOUCHES-FIX-LINES', 'demo clean=%d patched=%d' % (a.returncode, b.returncode), 'OK' if a.returncode == 0 and b.returncode not in (0, 9) else 'PROBLEM')
    if a.returncode or b.returncode in (0, 9): print(a.stdout[-1500:], b.stdout[-800:])

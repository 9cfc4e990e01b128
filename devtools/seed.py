#!/usr/bin/env python3
"""seed.py ID...: (re)build /verif/seeded/ID from devtools/seeds/ID.txt (development aid).
ID.txt:  property: / needs: / breaks: lines, then mutant blocks (as for try.py), then '@@@ demo.cpp' and the demo program.
With --test, also verify in /repo: demo 0 on clean, build+tests ok and demo nonzero with the patch (restores /repo)."""
import os, re, subprocess, sys, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the guarantee holds; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$T"' EXIT
L=""; P=""
for m in concurrent data database lang math network system text; do
  L="$L -L$R/build/src/$m -lpficommon_$m"; P="$P:$R/build/src/$m"
done
export LD_LIBRARY_PATH="${P#:}:$LD_LIBRARY_PATH"
cd "$T" || exit 99
g++ -std=c++11 -w -O1 %s -I"$R/src" -I"$R/build/src" "$here/demo.cpp" -o demo -Wl,--no-as-needed $L -lpthread || exit 98
timeout %s ./demo
'''

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)

def load(sid):
    s = open(os.path.join(V, 'devtools/seeds', sid + '.txt')).read()
    head, demo = s.split('@@@ demo.cpp\n', 1)
    meta = {}
    for k in ('property', 'needs', 'breaks', 'flags', 'timeout', 'all'):
        m = re.search(r'^%s: (.*)$' % k, head, re.M)
        meta[k] = m.group(1).strip() if m else ''
    edits = []
    f = None
    for m in re.finditer(r'^--- (\S+)$|^<<<<\n(.*?)^>>>>\n(.*?)^====$', head, re.M | re.S):
        if m.group(1):
            f = m.group(1)
        else:
            edits.append((f, m.group(2), m.group(3)))
    return meta, edits, demo

def make(sid):
    meta, edits, demo = load(sid)
    d = os.path.join(V, 'seeded', sid)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='/tmp/seed.')
    sh('git -C /repo worktree prune; git -C /repo archive HEAD src | tar x -C %s' % t)
    sh('cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x' % t)
    for f, a, b in edits:
        p = os.path.join(t, f)
        s = open(p).read()
        if s.count(a) != 1 and not (meta['all'] and s.count(a)):
            print(sid, 'EDIT DOES NOT APPLY', f, s.count(a)); shutil.rmtree(t); return False
        open(p, 'w').write(s.replace(a, b))
    diff = sh('git -C %s diff' % t).stdout
    shutil.rmtree(t)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.cpp'), 'w').write(demo)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % (meta['flags'], meta['timeout'] or '60'))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump(dict(property=meta['property'], needs=meta['needs'], what_it_breaks=meta['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return True

def test(sid):
    d = os.path.join(V, 'seeded', sid)
    assert not sh('git -C /repo status --short').stdout.strip()
    r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
    out = ['clean demo rc=%d %s' % (r0.returncode, r0.stdout[-300:] if r0.returncode else '')]
    try:
        a = sh('git -C /repo apply %s/patch.diff' % d)
        if a.returncode:
            return print(sid, 'apply failed', a.stdout)
        b = sh('bash /opt/vp/build.sh')
        out.append('build rc=%d %s' % (b.returncode, b.stdout[-600:] if b.returncode else ''))
        if not b.returncode:
            sh('bash /opt/vp/test.sh /tmp/seed-t.json')
            j = json.load(open('/tmp/seed-t.json')); base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            miss = [x for x in base if x not in set(j['passed'])]
            out.append('tests missing=%d %s' % (len(miss), miss[:3]))
            for k in range(2):
                r = sh('bash %s/demo.sh' % d, cwd='/repo')
                out.append('bug demo rc=%d %s' % (r.returncode, r.stdout[-200:].replace('\n', ' ')))
            m = json.load(open(d + '/meta.json'))
            c = sh('python3 engine/run.py %s quick' % m['property'], cwd=V)
            out.append('check %s rc=%d' % (m['property'], c.returncode))
    finally:
        sh('git -C /repo checkout -- .')
    print(sid, ' | '.join(out))

if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    if '--all' in sys.argv:
        ids = sorted(f[:-4] for f in os.listdir(os.path.join(V, 'devtools/seeds')) if f.endswith('.txt'))
    for s in ids:
        ok = make(s)
        if ok and '--test' in sys.argv:
            test(s)
    if '--test' in sys.argv:
        sh('bash /opt/vp/build.sh')

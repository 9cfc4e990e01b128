#!/usr/bin/env python3
"""try.py MUTANTS.txt [CHECK...]: apply each mutant to a scratch copy of /repo
and run the checks on it. Development aid only; no registered check uses it.

MUTANTS.txt holds blocks:
  === name : P01 P02        (checks expected to fire; 'none' for refactorings)
  --- src/file
  <<<<
  old text
  >>>>
  new text
  ====
"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def parse(p):
    out = []
    cur = None
    lines = open(p).read().split('\n')
    k = 0
    while k < len(lines):
        l = lines[k]
        if l.startswith('=== '):
            n, _, c = l[4:].partition(' : ')
            cur = dict(name=n.strip(), expect=c.split(), edits=[])
            out.append(cur)
        elif l.startswith('--- '):
            f = l[4:].strip()
        elif l == '<<<<':
            a = []
            k += 1
            while lines[k] != '>>>>':
                a.append(lines[k]); k += 1
            b = []
            k += 1
            while lines[k] != '====':
                b.append(lines[k]); k += 1
            cur['edits'].append((f, '\n'.join(a), '\n'.join(b)))
        k += 1
    return out

def run(m, checks):
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        shutil.copytree('/repo/src', d + '/src')
        for f, a, b in m['edits']:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(a) < 1:
                return m, 'EDIT-FAILED %s: %d matches' % (f, s.count(a))
            s = s.replace(a, b, 1)
            open(p, 'w').write(s)
        env = dict(os.environ, PFA_REPO=d, PFA_CACHE=d + '/cache')
        os.makedirs(d + '/cache')
        for x in os.listdir(VERIF + '/.cache'):
            if x.startswith('irdump-'):
                shutil.copy(VERIF + '/.cache/' + x, d + '/cache/')
        env['PFA_EVIDENCE'] = d + '/ev'
        res = []
        for c in (checks or [x for x in m['expect'] if x != 'none']):
            r = subprocess.run([sys.executable, VERIF + '/engine/run.py', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            o = r.stdout
            if os.environ.get('UND'):
                try:
                    import json
                    t = open(d + '/ev/%s.json' % c).read()
                    o += ''.join('UND %s\n' % x for x in re.findall(r'"(undecided [^"]*)"', t))
                except OSError:
                    pass
            res.append((c, r.returncode, o))
        return m, res
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    ms = parse(sys.argv[1])
    only = [a[1:] for a in sys.argv[2:] if a.startswith('@')]
    checks = [a for a in sys.argv[2:] if not a.startswith('@')]
    if only:
        ms = [m for m in ms if any(re.search(o, m['name']) for o in only)]
    with ThreadPoolExecutor(4) as ex:
        for m, res in ex.map(lambda m: run(m, checks), ms):
            if isinstance(res, str):
                print('%-40s %s' % (m['name'], res)); continue
            for c, rc, out in res:
                exp = c in m['expect']
                ok = (rc == 1) if exp else (rc == 0)
                u = re.search(r'undecided=(\d+)', out)
                u = ' undecided=' + u.group(1) if u and u.group(1) != '0' else ''
                print('%-40s %s rc=%d%s %s' % (m['name'], c, rc, u, 'ok' if ok else '<<<<<< expected ' + ('alarm' if exp else 'quiet')))
                if not ok or os.environ.get('V'):
                    print('    ' + '\n    '.join(out.strip().split('\n')[-6:]))
main()

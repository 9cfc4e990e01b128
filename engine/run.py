#!/usr/bin/env python3
"""run.py ID [quick|thorough]: decide one property on /repo's current tree.

exit 0  the property's rule holds at every instance
exit 1  a violation that known_findings.txt does not list
exit 2  no verdict (the tree does not compile, an anchor is gone, a rule matched nothing)
"""
import importlib
import json
import os
import sys
import time
import traceback

ENGINE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(ENGINE)
EVID = os.environ.get('PFA_EVIDENCE', os.path.join(VERIF, 'evidence'))
sys.path.insert(0, ENGINE)
sys.path.insert(0, os.path.join(VERIF, 'checks'))
import build      # noqa: E402
import pfa        # noqa: E402


class Ctx(object):
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self._progs = {}
        self.found = []
        self.counts = {}
        self.obligations = 0
        self.samples = []
        self.failed = 0
        self.notes = []
        self.assumptions = []

    def prog(self, cfg='hi'):
        if cfg not in self._progs:
            self._progs[cfg] = pfa.Program(build.dump(cfg))
        return self._progs[cfg]

    def model(self):
        if not hasattr(self, '_model'):
            import conc
            self._model = conc.Model(self.prog('hi'))
        return self._model

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ob(self, what, where='', n=1):
        """one discharged-or-not obligation; `what` describes the instance"""
        self.obligations += n
        if len(self.samples) < 400:
            self.samples.append(('%s: %s' % (where, what)) if where else what)

    def bad(self, rule, func, where, msg):
        """report a violating construct"""
        fn = func if isinstance(func, str) else func.short
        key = '%s %s' % (rule, fn)
        if any(k == key and w == where and m == msg for k, w, m in self.found):
            return
        self.failed += 1
        self.found.append((key, where, msg))

    def need(self, name, n, least):
        self.counts[name] = n
        if n < least:
            raise pfa.AnchorLost('%s: only %d instances, at least %d were confirmed by hand' % (name, n, least))


def known():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('known: '):
                # known: property=<id> key=<rule> <function> | <description>
                a, _, desc = l[7:].partition(' | ')
                pid, _, key = a.partition(' key=')
                out.append((pid.replace('property=', ''), key.strip(), desc))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    ctx = Ctx(pid, tier)
    mod = importlib.import_module(pid.lower())
    status = 0
    try:
        mod.check(ctx)
        if not ctx.obligations:
            raise pfa.AnchorLost('the rule matched nothing')
    except pfa.AnchorLost as e:
        print('NO VERDICT property=%s: %s' % (pid, e))
        status = 2
    except SystemExit as e:
        print('NO VERDICT property=%s: %s' % (pid, e))
        status = 2
    except Exception:
        traceback.print_exc(limit=-6)
        print('NO VERDICT property=%s: analysis error' % pid)
        status = 2
    kn = known()
    new = []
    listed = []
    for key, where, msg in ctx.found:
        hit = [k for k in kn if k[0] == pid and k[1] == key]
        (listed if hit else new).append((key, where, msg))
    os.makedirs(EVID, exist_ok=True)
    cov = dict(ctx.counts)
    cov['obligations'] = ctx.obligations
    cov['discharged'] = max(0, ctx.obligations - ctx.failed)
    cov['rule'] = getattr(mod, 'RULE', '').strip()
    cov['explanation'] = ('static analysis of the normalised LLVM IR of every translation unit in src/ (plus template '
                          'instantiation drivers), rebuilt from the working tree; nothing is executed. ' + (mod.__doc__ or '').strip())
    cov['samples'] = ctx.samples[:60]
    if ctx._progs:
        cov['functions_in_program'] = dict((k, len(p.funcs)) for k, p in ctx._progs.items())
    cov['checker_cmd'] = 'engine/run.py %s %s' % (pid, tier)
    cov['trusted_base'] = ['clang 18 front end', 'LLVM 18 inliner/SROA/SimplifyCFG', 'engine/irdump.cpp', 'engine/pfa.py', 'checks/%s.py' % pid.lower()]
    if listed:
        cov['known_findings'] = [k + ' @ ' + w for k, w, m in listed]
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=int(os.environ.get('VERIF_SEED', '1') or 1),
              level='other', coverage=cov, assumptions=getattr(mod, 'ASSUME', []) + ctx.assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(new))
    evp = os.path.join(EVID, pid + '.json')
    with open(evp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    for k, w, m in listed:
        print('KNOWN-FINDING: property=%s %s at %s: %s' % (pid, k, w, m))
    print('%s: %d obligations, %d violated, %s, %.1fs' % (pid, ctx.obligations, len(new), ' '.join('%s=%s' % kv for kv in sorted(ctx.counts.items())), time.time() - t0))
    if new:
        rp = os.path.join(EVID, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for k, w, m in new:
                f.write('%s\n  at %s\n  %s\n' % (k, w, m))
        for k, w, m in new:
            print('  %s at %s: %s' % (k, w, m))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return status


if __name__ == '__main__':
    sys.exit(main())

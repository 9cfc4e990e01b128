"""What each condition waiter waits for: derived from the branch facts that lead
into the wait (or from the predicate functor)."""
from pfa import *
from conc import *
from p02 import waits, wait_lambda, lambda_reads_guarded


class WaitSite(object):
    def __init__(self, f, i, cls, root):
        self.f = f
        self.i = i
        self.cls = cls
        self.root = root
        self.dirs = set()       # effects that can enable the waiter: grow / shrink / ('eq', const) / any
        self.const_bound = True
        self.consumes = set()


def classify(model, f, accs_of, pred, lhs, rhs):
    """direction that un-blocks a waiter blocked while (pred lhs rhs) holds"""
    def member_read(v):
        v0 = f.strip_casts(v)
        d = f.defs.get(v0)
        if d is None:
            return None
        if d.id in accs_of:
            for a in accs_of[d.id]:
                return (a, d)
        if d.op in ('sub', 'add'):
            for k in (0, 1):
                r = member_read(d.ops[k])
                if r:
                    if d.op == 'sub' and k == 1:
                        return None
                    return r
        if d.op == 'load' and d.ty == 'ptr':
            return None
        return None
    res = set()
    if pred in ('true', 'false'):
        r = member_read(lhs)
        if not r:
            return None
        a, d = r
        last = d.callee.split('::')[-1] if d.iscall else ''
        if last == 'empty':
            res.add('grow' if pred == 'true' else 'shrink')
        elif last == 'operator bool' or 'operator bool' in d.dem:
            res.add('shrink' if pred == 'true' else 'grow')
        elif d.op == 'load':
            res.add('shrink' if pred == 'true' else 'grow')
        elif last in ('count',):
            res.add('shrink' if pred == 'true' else 'grow')
        else:
            res.add('any')
        return res, a, True
    for l, r_, p in ((lhs, rhs, pred), (rhs, lhs, SWAP.get(pred, pred))):
        r = member_read(l)
        if not r:
            continue
        a, d = r
        c = f.const(r_)
        if p in ('ult', 'slt', 'ule', 'sle'):
            return {'grow'}, a, c is not None
        if p in ('ugt', 'sgt', 'uge', 'sge'):
            return {'shrink'}, a, c is not None
        if p == 'eq':
            if c == 0:
                return {'grow'}, a, True
            return {'shrink'} if c is None else {('ne', c)}, a, c is not None
        if p == 'ne':
            if c == 0 and (d.iscall or d.ty == 'ptr'):
                return {'shrink'}, a, True
            return {('eq', c)} if c is not None else {'any'}, a, c is not None
    return None


class Facts(LockExplorer):
    """collects, at each wait, the branch facts on guarded members since the last acquire/wait"""

    def __init__(self, model, f):
        LockExplorer.__init__(self, model, f)
        self.sites = {}
        self.effects = {}

    def init_extra(self):
        return ()

    def on_wait(self, st, e, env):
        s = self.sites.setdefault(e.i.id, dict(e=e, facts=set()))
        s['facts'] |= set(st[2])
        return (st[0], st[1], ())

    def on_acquire(self, st, e, env):
        return st if st[0] else (st[0], st[1], ())

    def assume(self, st, cond, taken, env):
        if not st[0]:
            return st
        out = list(st[2])
        for p, a, b in atoms(self.f, cond, taken):
            k = classify(self.model, self.f, self.acc, p, a, b)
            if k:
                dirs, acc, cb = k
                out.append((tuple(sorted(dirs, key=str)), acc[1], acc[0], acc[2]['n'], cb))
        return (st[0], st[1], tuple(sorted(set(out), key=str)))


def wait_sites(model):
    res = []
    for f, ws in waits(model):
        fx = Facts(model, f).run()
        for i, e in ws:
            cm = model.ty.member(f, e.cond)
            if not cm:
                continue
            w = WaitSite(f, i, cm[0], e.cond[0])
            w.cond = cm[1]['n']
            w.timed = e.timed
            if e.pred:
                lam = wait_lambda(i)
                g = lambda_reads_guarded(model, lam) if lam else None
                w.dirs.add('any')
                if g:
                    accs = dict((x.id, model.accesses(g, x)) for x in g.insts() if model.accesses(g, x))
                    for b in g.blocks:
                        if b[-1].op == 'ret' and b[-1].ops:
                            for p, a, bb in atoms(g, b[-1].ops[0], 0):
                                k = classify(model, g, accs, p, a, bb)
                                if k:
                                    w.dirs = set(k[0])
                                    w.members = {k[1][2]['n']}
            else:
                s = fx.sites.get(i.id)
                w.members = set()
                if s:
                    for dirs, cls, root, mem, cb in s['facts']:
                        if cls == w.cls:
                            w.dirs |= set(dirs)
                            w.members.add(mem)
                            if not cb and 'grow' in dirs:
                                w.const_bound = False
                if not w.dirs:
                    w.dirs = {'any'}
            # does the waiter consume (mutate guarded state of that object itself)?
            for x in f.insts():
                for root, cls, mem, eff in model.accesses(f, x):
                    if cls == w.cls and eff != 'read':
                        w.consumes.add(eff)
            res.append(w)
    return res

"""Typestate of every condition wait: predicate tested under the lock before
blocking and re-tested after every wake-up before acting."""
from pfa import *
from conc import *

RULE = '''At each condition wait: (a) the mutex handed to the wait is held and is the one guarding the tested members of
the same object; (b) a branch on a guarded member, read since that mutex was last acquired, dominates the wait on every path;
(c) after the wait no path mutates guarded state or returns success before a guarded member has been read again and
branched on (a value read before the wait, or before the lock was taken, does not count). Waits taking a predicate functor must read guarded state in the functor.'''
ASSUME = ['std::condition_variable(_any)::wait(lock, pred) loops on pred as the standard requires']


class E(LockExplorer):
    def __init__(self, model, f, ctx):
        LockExplorer.__init__(self, model, f)
        self.ctx = ctx
        self.reads = {}
        for k, accs in self.acc.items():
            self.reads[k] = accs

    def init_extra(self):
        return ('stale', (), False, ())       # phase, what was tested, after-wait, reads since

    def on_acquire(self, st, e, env):
        return st if not isinstance(st[2], tuple) else (st[0], st[1], ('stale', (), st[2][2], ()) if not st[0] else st[2])

    def on_wait(self, st, e, env):
        f = self.f
        where = e.i.where()
        held, guards, (ph, rd, aw, since) = st
        if e.lock is None or not any(l == e.lock for l, n in held):
            self.ctx.bad('wait-without-lock', f, where, 'waits on a condition without holding the mutex it passes')
        if e.pred:
            return (held, guards, ('stale', (), False, ()))
        if ph != 'fresh':
            self.ctx.bad('wait-without-test', f, where, 'blocks on a path where no guarded state was tested since the mutex was acquired (or since the last wake-up)')
        mo = self.model.mutex_of(f, e.lock) if e.lock else None
        if mo and rd:
            ok = any(root == mo[0] and cls == mo[1] for root, cls in rd)
            if not ok:
                self.ctx.bad('wait-wrong-mutex', f, where, 'the mutex released by the wait does not guard the state that was tested')
        return (held, guards, ('stale', (), True, ()))

    def on_release(self, st, lock, e, env):
        held, guards, (ph, rd, aw, since) = st
        if aw:
            return st
        return (held, guards, ('stale', (), aw, ()))

    def on_access(self, st, i, accs, env):
        held, guards, (ph, rd, aw, since) = st
        for root, cls, mem, eff in accs:
            if eff == 'read':
                continue
            if aw and ph != 'fresh' and held:
                self.ctx.bad('stale-after-wait', self.f, i.where(), '%s of %s.%s after a wake-up without re-testing the condition' % (eff, cls, mem['n']))
        if accs and held and ph != 'fresh' and i.id and i.id not in since:
            return (held, guards, (ph, rd, aw, tuple(sorted(since + (i.id,)))))
        return st

    def assume(self, st, cond, taken, env):
        held, guards, (ph, rd, aw, since) = st
        if ph == 'fresh' or not held:
            return st
        hit = []

        def pred(d):
            if d.id not in since:
                return False
            for root, cls, mem, eff in self.acc.get(d.id, []):
                hit.append((root, cls))
                return True
            return False
        if self.f.depends(cond, pred):
            return (held, guards, ('fresh', tuple(sorted(set(hit), key=str)), aw, ()))
        return st

    def exit(self, st, i, env):
        held, guards, (ph, rd, aw, since) = st
        if i.op == 'ret' and aw and ph != 'fresh':
            v = self.ev(i.ops[0], env) if i.ops else None
            if v == 0 and self.f.d['ret'] == 'i1':
                return
            # the result of a timed wait returned as it is
            self.ctx.bad('return-after-wait', self.f, i.where(), 'returns after a wake-up without re-testing the condition')


def lambda_reads_guarded(model, name):
    for g in model.prog.by_dem.values():
        if g.dem.startswith(name + '::operator()('):
            for i in g.insts():
                if model.accesses(g, i):
                    return g
    return None


def waits(model):
    out = []
    for f in model.prog.by_dem.values():
        if not model.entry(f):
            continue
        ev = [(i, event(f, i)) for i in f.calls()]
        ws = [(i, e) for i, e in ev if e is not None and e.kind == 'wait']
        if ws:
            out.append((f, ws))
    return out


def wait_lambda(i):
    m = re.search(r'wait(?:_for|_until)?<std::unique_lock<[^>]*>, (.*)>\(std::unique_lock', i.dem)
    return m.group(1) if m else None


def check(ctx):
    model = ctx.model()
    n = 0
    for f, ws in waits(model):
        for i, e in ws:
            n += 1
            ctx.ob('condition wait re-tests its predicate', '%s (%s)' % (i.where(), f.short))
            if e.pred:
                lam = wait_lambda(i)
                if lam and not lambda_reads_guarded(model, lam):
                    ctx.bad('predicate-not-guarded', f, i.where(), 'the wait predicate does not read mutex-guarded state')
        ex = E(model, f, ctx).run()
        if ex.truncated:
            raise AnchorLost('state space of %s truncated' % f.short)
        ctx.count('functions_analysed')
        ctx.count('states', ex.nstates)
    ctx.need('wait_sites', n, 9)

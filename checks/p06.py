"""Lock discipline: balanced on every exit, no self-deadlock, acyclic order, no
blocking wait while holding a second lock."""
from pfa import *
from conc import *

RULE = '''In every function that locks: at every normal and exceptional exit exactly the locks held on entry are held; a
non-recursive mutex is not locked while already held; nothing is unlocked that is not held; the relation "acquired while
holding" over (class, member) lock names is acyclic (and never relates two objects of one class); a condition wait happens
with only the waited-on mutex held.'''
ASSUME = ['locking an initialised mutex succeeds', 'lock identity is approximated by (object access path, member)']


class E(LockExplorer):
    def __init__(self, model, f, ctx, order):
        LockExplorer.__init__(self, model, f)
        self.ctx = ctx
        self.order = order

    def name(self, lock):
        mo = self.model.mutex_of(self.f, lock)
        if mo:
            return (mo[1], mo[2]['n'], strip_cv(mo[2]['t']))
        return None

    def on_acquire(self, st, e, env):
        nm = self.name(e.lock)
        for l, n in st[0]:
            if l == e.lock:
                if nm and NONREC_T.match(nm[2]):
                    self.ctx.bad('self-deadlock', self.f, e.i.where(), 'locks the non-recursive %s.%s while already holding it' % nm[:2])
                continue
            ln = self.name(l)
            if ln and nm:
                self.order.setdefault((ln[:2], nm[:2]), (self.f, e.i, self.f.path))
        return st

    def on_release(self, st, lock, e, env):
        return st

    def inst(self, st, i, env):
        e = self.events.get(i.id)
        if e is not None and e.kind == 'rel' and not self.held(st, e.lock):
            self.ctx.bad('unlock-not-held', self.f, i.where(), 'unlocks a mutex that is not held on this path')
        return LockExplorer.inst(self, st, i, env)

    def on_wait(self, st, e, env):
        others = [l for l, n in st[0] if l != e.lock]
        if others:
            self.ctx.bad('wait-holding-lock', self.f, e.i.where(), 'blocks in a condition wait while holding another lock (%s)' % ', '.join('%s.%s' % (self.name(l) or ('?', '?'))[:2] for l in others))
        return st

    def exit(self, st, i, env):
        if i.op not in ('ret', 'resume'):
            return
        if st[0]:
            self.ctx.bad('lock-leak', self.f, i.where(), 'leaves (%s) with %s still held' % ('return' if i.op == 'ret' else 'exception', ', '.join('%s.%s' % (self.name(l) or ('lock', '?'))[:2] for l, n in st[0])))


def check(ctx):
    model = ctx.model()
    order = {}
    n = 0
    acq = 0
    for f in model.prog.by_dem.values():
        evs = [e for e in (event(f, i) for i in f.calls()) if e is not None]
        if not any(e.kind in ('acq', 'rel', 'wait') for e in evs):
            continue
        last = f.short.split('::')[-1]
        if f.d.get('cls') and re.match(r'^pfi::concurrent::(mutex_base|mutex|r_mutex|rw_mutex|rlocker|wlocker|rlock_func|wlock_func|scoped_lock|scoped_rwlock|condition|qsem)\b', f.cls) and last in ('lock', 'unlock', 'read_lock', 'write_lock') and 'qsem' not in f.cls:
            continue      # the lock interface itself
        if f.short.startswith('pfi::concurrent::scoped_'):
            continue
        if not model.entry(f):
            continue      # a helper: its body is analysed inlined into every public caller
        n += 1
        for e in evs:
            if e.kind == 'acq':
                acq += 1
                ctx.ob('acquisition is released on every exit', '%s (%s)' % (e.i.where(), f.short))
        ex = E(model, f, ctx, order).run()
        if ex.truncated:
            raise AnchorLost('state space of %s truncated' % f.short)
        ctx.count('states', ex.nstates)
    # cycles
    edges = {}
    for (a, b), w in order.items():
        edges.setdefault(a, {})[b] = w
        ctx.ob('lock order %s.%s before %s.%s' % (a + b))
    for (a, b), w in sorted(order.items(), key=str):
        if a == b:
            # recursive locks of one class on different objects
            ctx.bad('lock-order', w[0], w[1].where(), 'locks %s.%s of one object while holding that of another object of the same class' % a)
            continue
        seen = set()
        st = [b]
        while st:
            x = st.pop()
            if x == a:
                ctx.bad('lock-order', w[0], w[1].where(), 'acquires %s.%s while holding %s.%s; elsewhere the order is reversed' % (b + a))
                break
            if x in seen:
                continue
            seen.add(x)
            st.extend(edges.get(x, {}))
    ctx.counts['order_edges'] = sorted('%s.%s -> %s.%s' % (a + b) for a, b in order)
    ctx.need('locking_functions', n, 25)
    ctx.need('acquisitions', acq, 30)

"""No lost wake-ups: every state change that can un-block a waiter is followed
by a notification that reaches it."""
from pfa import *
from conc import *
from waitinfo import wait_sites
from p01 import constructed_classes

RULE = '''For each condition, the waiters' blocking facts give the direction of change that un-blocks them (container grows,
shrinks, variable takes a value). Every path of every externally callable function on which such a change is made reaches
its exit (normal or exceptional) with a notification of the same object's condition issued after the change or inside the
same critical section; and a single-target notification is accepted only when all waiters wait for the same direction,
each consumes what it waited for, the threshold is fixed, and the change adds a single element.'''


class E(LockExplorer):
    def __init__(self, model, f, ctx, waiters):
        LockExplorer.__init__(self, model, f)
        self.ctx = ctx
        self.w = waiters      # cls -> list of WaitSite
        self.n = 0
        self.built = constructed_classes(model, f)

    def init_extra(self):
        return ((), ())        # pending (root, cls, where, single), notified in this hold

    def enabling(self, i, cls, mem, eff):
        ws = self.w.get(cls, [])
        for w in ws:
            if w.members and mem['n'] not in w.members:
                continue
            for d in w.dirs:
                if d == 'any' or d == eff:
                    return True
                if eff == 'write':
                    if isinstance(d, tuple):
                        c = self.f.const(i.ops[0]) if i.op == 'store' else None
                        if c is None:
                            return True
                        if (d[0] == 'eq' and c == d[1]) or (d[0] == 'ne' and c != d[1]):
                            return True
                        continue
                    # plain store of null/0 empties, of anything else fills
                    if i.op == 'store':
                        c = self.f.const(i.ops[0])
                        if c == 0 and d == 'grow':
                            continue
                    return True
        return False

    def on_access(self, st, i, accs, env):
        held, guards, (pend, noted) = st
        for root, cls, mem, eff in accs:
            if eff == 'read' or cls not in self.w:
                continue
            last = self.f.short.split('::')[-1]
            if last.startswith('~') or (self.f.cls and last == template_base(self.f.cls).split('::')[-1].split('<')[0]):
                continue
            if (root, cls) in self.built:
                continue
            if not self.enabling(i, cls, mem, eff):
                continue
            self.n += 1
            if (root, cls) in noted:
                continue
            single = i.iscall and i.callee.split('::')[-1] in ('push_back', 'push_front', 'emplace_back', 'emplace_front', 'pop_front', 'pop_back') and not self.in_loop(i)
            pend = tuple(sorted(set(pend) | {(root, cls, i.id, single)}, key=str))
        return (held, guards, (pend, noted))

    def in_loop(self, i):
        for h, body in self.f.loops().items():
            if i.blk in body:
                # a loop that only waits does not repeat the insertion
                return True
        return False

    def on_notify(self, st, e, env):
        held, guards, (pend, noted) = st
        m = self.model.ty.member(self.f, e.cond)
        if not m:
            return (held, guards, ((), noted))
        root, cls = e.cond[0], m[0]
        if not e.all:
            self.single_ok(e, cls, [p for p in pend if p[0] == root and p[1] == cls])
        pend = tuple(p for p in pend if not (p[1] == cls and (p[0] == root or self.same(p[0], root))))
        if any((self.model.mutex_of(self.f, l) or (None, None))[:2] == (root, cls) for l, n in held):
            noted = tuple(sorted(set(noted) | {(root, cls)}, key=str))
        return (held, guards, (pend, noted))

    def same(self, a, b):
        return isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'L' and b[0] == 'L' and \
            (self.f.root_is_local(a[1]) or self.f.root_is_local(b[1]))

    def single_ok(self, e, cls, pend):
        ws = self.w.get(cls, [])
        why = None
        dirs = set()
        for w in ws:
            dirs |= w.dirs
            need = {'grow': 'shrink', 'shrink': 'grow'}
            for d in w.dirs:
                if d not in need or need[d] not in w.consumes:
                    why = 'a waiter in %s does not consume what it waits for, so several waiters may be enabled at once' % w.f.short
            if not w.const_bound:
                why = 'waiters in %s wait for different amounts' % w.f.short
        if len(dirs) > 1:
            why = 'waiters for different conditions share it (%s)' % ', '.join(sorted(set(w.f.short for w in ws)))
        for p in pend:
            if not p[3]:
                why = why or 'the change can enable more than one waiter'
        if why:
            self.ctx.bad('single-notify', self.f, e.i.where(), 'wakes one waiter only, but ' + why)

    def on_release(self, st, lock, e, env):
        held, guards, (pend, noted) = st
        if self.held(st, lock) <= 1:
            mo = self.model.mutex_of(self.f, lock)
            if mo:
                noted = tuple(x for x in noted if x != (mo[0], mo[1]))
        return (held, guards, (pend, noted))

    def on_wait(self, st, e, env):
        # the wait releases the mutex: pending changes become visible to others
        held, guards, (pend, noted) = st
        m = self.model.ty.member(self.f, e.cond)
        if m:
            for p in pend:
                if p[0] == e.cond[0] and p[1] == m[0]:
                    self.ctx.bad('lost-wakeup', self.f, e.i.where(), 'waits again before notifying waiters of its own change')
        return st

    def exit(self, st, i, env):
        if i.op not in ('ret', 'resume'):
            return
        held, guards, (pend, noted) = st
        for root, cls, mid, single in pend:
            mi = self.f.defs[mid]
            self.ctx.bad('lost-wakeup', self.f, mi.where(),
                         'changes state that waiters of %s may be blocked on, but leaves through %s (%s) without notifying them'
                         % (cls, i.where(), 'normal return' if i.op == 'ret' else 'exception'))


def check(ctx):
    model = ctx.model()
    ws = wait_sites(model)
    bycls = {}
    for w in ws:
        bycls.setdefault(w.cls, []).append(w)
        ctx.count('wait_sites')
    ctx.counts['waiter_directions'] = dict((c, sorted(set('%s' % (d,) for w in v for d in w.dirs))) for c, v in bycls.items())
    n = 0
    for f in model.prog.by_dem.values():
        if not model.entry(f):
            continue
        if not any(a[3] != 'read' and a[1] in bycls for i in f.insts() for a in model.accesses(f, i)) \
                and not any((event(f, i) or Ev('', i)).kind == 'notify' for i in f.calls()):
            continue
        ex = E(model, f, ctx, bycls).run()
        if ex.truncated:
            raise AnchorLost('state space of %s truncated' % f.short)
        ctx.count('functions_analysed')
        muts = set()
        for i in f.insts():
            for root, cls, mem, eff in model.accesses(f, i):
                if eff != 'read' and cls in bycls and ex.enabling(i, cls, mem, eff) and not f.short.split('::')[-1].startswith('~'):
                    muts.add(i.id)
        for m in muts:
            n += 1
            ctx.ob('un-blocking change is followed by a notification', '%s (%s)' % (f.defs[m].where(), f.short))
    ctx.need('unblocking_changes', n, 15)

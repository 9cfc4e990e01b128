"""Hand-over discipline of the blocking containers: shared engine of P04 / P35."""
from pfa import *
from conc import *
from p01 import constructed_classes

CLASSES = ('pfi::concurrent::pcbuf', 'pfi::concurrent::mvar', 'pfi::concurrent::chan', 'pfi::concurrent::qsem')
INS_BACK = ('push_back', 'emplace_back')
INS_FRONT = ('push_front', 'emplace_front')


def elem_facts(model, f, acc, pred, lhs, rhs):
    """facts about guarded members implied by the comparison atom:
    list of (kind, root, member) with kind in EMPTY NONEMPTY FULL NOTFULL or
    ('GE', amount) / ('LT', amount) for counters"""
    out = []

    def memb(v):
        """v = member-read (+ constant k): (access, inst, k, negated)"""
        v0 = f.strip_casts(v)
        d = f.defs.get(v0)
        if d is None:
            return None
        if d.id in acc:
            for a in acc[d.id]:
                if a[3] == 'read':
                    return (a, d, 0)
        if d.op in ('add', 'sub'):
            c = f.const(d.ops[1])
            if c is not None:
                r = memb(d.ops[0])
                if r:
                    return (r[0], r[1], r[2] + (c if d.op == 'add' else -c))
        return None

    def is_bound(v, root):
        v0 = f.strip_casts(v)
        d = f.defs.get(v0)
        return d is not None and d.op == 'load' and d.id not in acc and f.path(d.ops[0])[0] == root

    if pred in ('true', 'false'):
        r = memb(lhs)
        if r:
            a, d, k = r
            last = d.callee.split('::')[-1] if d.iscall else ''
            t = pred == 'true'
            if last == 'empty':
                out.append(('EMPTY' if t else 'NONEMPTY', a[0], a[2]['n']))
            elif 'operator bool' in d.dem or d.op == 'load':
                out.append(('NONEMPTY' if t else 'EMPTY', a[0], a[2]['n']))
            elif last == 'size':
                out.append(('NONEMPTY' if t else 'EMPTY', a[0], a[2]['n']))
        return out
    # cap - size()  cmp 0
    for l, r_, p in ((lhs, rhs, pred), (rhs, lhs, SWAP[pred])):
        d = f.defs.get(f.strip_casts(l))
        if d is not None and d.op == 'sub' and f.const(r_) is not None:
            m = memb(d.ops[1])
            c = f.const(r_)
            if m and is_bound(d.ops[0], m[0][0]) and c in (0, 1):
                a = m[0]
                if (p in ('ne', 'ugt', 'sgt') and c == 0) or (p in ('uge', 'sge') and c == 1):
                    out.append(('NOTFULL', a[0], a[2]['n']))
                elif (p in ('eq', 'ule', 'sle') and c == 0) or (p in ('ult', 'slt') and c == 1):
                    out.append(('FULL', a[0], a[2]['n']))
                return out
            # quantity - q < 0
            m = memb(d.ops[0])
            if m and c == 0:
                a = m[0]
                amt = f.strip_casts(d.ops[1])
                if p in ('slt',):
                    out.append((('LT', amt), a[0], a[2]['n']))
                elif p in ('sge',):
                    out.append((('GE', amt), a[0], a[2]['n']))
                return out
    for l, r_, p in ((lhs, rhs, pred), (rhs, lhs, SWAP[pred])):
        m = memb(l)
        if not m:
            continue
        a, d, k = m
        c = f.const(r_)
        scalar = d.op == 'load' and d.ty != 'ptr'
        if scalar:
            amt = f.strip_casts(r_) if c is None else 'c:%d' % (c - k)
            if c is None and k:
                return out
            if p in ('sge', 'uge'):
                out.append((('GE', amt), a[0], a[2]['n']))
            elif p in ('sgt', 'ugt'):
                if c is not None:
                    out.append((('GE', 'c:%d' % (c - k + 1)), a[0], a[2]['n']))
                else:
                    out.append((('GE', amt), a[0], a[2]['n']))
            elif p in ('slt', 'ult'):
                out.append((('LT', amt), a[0], a[2]['n']))
            elif p in ('sle', 'ule') and c is not None:
                out.append((('LT', 'c:%d' % (c - k + 1)), a[0], a[2]['n']))
            return out
        if c is not None:
            c -= k
            if c == 0 and p in ('eq', 'ule', 'sle'):
                out.append(('EMPTY', a[0], a[2]['n']))
            elif c == 0 and p in ('ne', 'ugt', 'sgt'):
                out.append(('NONEMPTY', a[0], a[2]['n']))
            elif c == 1 and p in ('ult', 'slt'):
                out.append(('EMPTY', a[0], a[2]['n']))
            elif c >= 1 and p in ('uge', 'sge', 'eq'):
                out.append(('NONEMPTY', a[0], a[2]['n']))
            elif c >= 0 and p in ('ugt', 'sgt'):
                out.append(('NONEMPTY', a[0], a[2]['n']))
            return out
        if is_bound(r_, a[0]):
            if (p in ('ult', 'slt') and k >= 0) or (p in ('ule', 'sle') and k >= 1) or (p == 'ne' and k == 0):
                out.append(('NOTFULL', a[0], a[2]['n']))
            elif (p in ('uge', 'sge', 'eq') and k == 0) or (p in ('ugt', 'sgt') and k == 1):
                out.append(('FULL', a[0], a[2]['n']))
        return out
    return out


NEGF = {'EMPTY': 'NONEMPTY', 'NONEMPTY': 'EMPTY', 'FULL': 'NOTFULL', 'NOTFULL': 'FULL'}


def muts0(st):
    return st[2][1]


class X(LockExplorer):
    """extra = (facts, mutations, copied)"""

    def __init__(self, model, f, cls, bounded, report):
        LockExplorer.__init__(self, model, f)
        self.cls = cls
        self.bounded = bounded
        self.report = report
        self.built = constructed_classes(model, f)
        self.exits = []
        self.mutsites = {}
        # member-derived element pointers: result of front()/back()/get()
        self.elem = {}
        for i in f.insts():
            for root, c, mem, eff in self.acc.get(i.id, []):
                if c != cls:
                    continue
                if i.iscall and i.ty == 'ptr' and i.callee.split('::')[-1] in ('front', 'back', 'operator*', 'get', 'operator->', 'operator[]', 'at'):
                    self.elem[i.id] = (root, mem['n'], 'back' if i.callee.endswith('back') else 'front')
                if i.iscall and i.callee.split('::')[-1] in ('begin', 'cbegin'):
                    its = set(self.f.path(u.ops[1])[0] for u in f.uses.get(i.id, []) if u.op == 'store' and u.ops[0] == i.id)
                    if i.ops and f.root_is_local(f.path(i.ops[0])[0]):
                        its.add(f.path(i.ops[0])[0])
                    for x in f.calls():
                        if x.callee.split('::')[-1] in ('operator*', 'operator->') and x.ops and f.path(x.ops[0])[0] in its and x.ty == 'ptr':
                            self.elem[x.id] = (root, mem['n'], 'front')
                if i.op == 'load' and i.ty == 'ptr':
                    self.elem[('L',) + f.path(i.ops[0])] = (root, mem['n'], 'front')

    def init_extra(self):
        return ((), (), ())

    def drop(self, facts, root, mem):
        return tuple(x for x in facts if not (x[1] == root and x[2] == mem))

    def on_acquire(self, st, e, env):
        if st[0]:
            return st
        return (st[0], st[1], ((),) + st[2][1:])

    def on_release(self, st, lock, e, env):
        held, guards, (facts, muts, cop) = st
        if self.held(st, lock) <= 1:
            mo = self.model.mutex_of(self.f, lock)
            muts = muts + (('rel', mo[0] if mo else None, '', '', ''),) if muts else muts
            return (held, guards, ((), muts, ()))
        return st

    def on_wait(self, st, e, env):
        held, guards, (facts, muts, cop) = st
        if muts:
            muts = muts + (('rel', e.lock[0] if e.lock else None, '', '', ''),)
        return (held, guards, ((), muts, ()))

    def assume(self, st, cond, taken, env):
        held, guards, (facts, muts, cop) = st
        if not held:
            return st
        new = list(facts)
        for p, a, b in atoms(self.f, cond, taken):
            for fact in elem_facts(self.model, self.f, self.acc, p, a, b):
                k = fact[0]
                neg = (NEGF.get(k), fact[1], fact[2]) if isinstance(k, str) else (('LT' if k[0] == 'GE' else 'GE', k[1]), fact[1], fact[2])
                if neg in new:
                    return None
                if fact not in new:
                    new.append(fact)
        return (held, guards, (tuple(sorted(new, key=str)), muts, cop))

    def on_inst(self, st, i, env):
        # copies of an element out of the container
        if i.iscall and not i.callee.startswith('llvm.lifetime') and len(i.ops) >= 2:
            for k, o in enumerate(i.ops):
                if not isptr(o):
                    continue
                r = self.f.path(o)[0]
                if r in self.elem and k >= 1:
                    held, guards, (facts, muts, cop) = st
                    cop = tuple(sorted(set(cop) | {self.elem[r]}, key=str))
                    st = (held, guards, (facts, muts, cop))
                if r in self.elem and len(muts0(st)) < 6:
                    # the element is given a new value in place: the old one goes, the new one comes
                    last = i.callee.split('::')[-1].split('<')[0]
                    if (k == 0 and last == 'operator=') or last == 'swap':
                        held, guards, (facts, muts, cop) = st
                        root, mem, end = self.elem[r]
                        if last == 'swap':
                            # exchanged: copied out, and something else left in its place
                            muts = muts + (('xchg', root, mem, '', i.id),)
                            st = (held, guards, (facts, muts, tuple(sorted(set(cop) | {self.elem[r]}, key=str))))
                            continue
                        if not any(c[0] == root and c[1] == mem for c in cop):
                            self.report('value-dropped', i, 'overwrites an element that was not copied out first (under the same lock)')
                        muts = muts + (('shrink', root, mem, '', i.id), ('grow', root, mem, '', i.id))
                        st = (held, guards, (facts, muts, ()))
        elif i.op == 'load':
            r = self.f.path(i.ops[0])[0]
            if r in self.elem:
                held, guards, (facts, muts, cop) = st
                st = (held, guards, (facts, muts, tuple(sorted(set(cop) | {self.elem[r]}, key=str))))
        return st

    def on_access(self, st, i, accs, env):
        f = self.f
        held, guards, (facts, muts, cop) = st
        for root, cls, mem, eff in accs:
            if cls != self.cls or (root, cls) in self.built:
                continue
            last = i.callee.split('::')[-1] if i.iscall else ''
            if eff == 'read':
                if last in ('front', 'back') and (('NONEMPTY', root, mem['n']) not in facts):
                    self.report('element-of-empty', i, 'reads an element on a path where the container was not shown to be non-empty since the lock was taken')
                continue
            if last == 'clear':
                muts = muts + (('clear', root, mem['n'], '', i.id),)
                facts = self.drop(facts, root, mem['n']) + (('EMPTY', root, mem['n']),)
                continue
            fs = facts
            kind, end = eff, ''
            if i.op == 'store' and i.d.get('vt') != 'ptr':
                # counters: x = x +/- amount
                amt = self.amount(i)
                if amt is None:
                    self.report('counter-update', i, 'updates the counter by something other than the requested amount')
                else:
                    sign, a = amt
                    if sign < 0:
                        kind = 'shrink'
                        if (('GE', a), root, mem['n']) not in fs:
                            self.report('counter-underflow', i, 'takes %s units on a path that did not establish that so many are available' % self.show(a))
                    else:
                        kind = 'grow'
                    end = a
            else:
                if kind == 'write':
                    kind = 'shrink' if (i.op == 'store' and f.const(i.ops[0]) == 0) else 'grow'
                if kind == 'grow' and self.bounded == 'slot' and ('NONEMPTY', root, mem['n']) in fs and any(c[0] == root and c[1] == mem['n'] for c in cop):
                    # replaces a value that was copied out under the same lock
                    muts = muts + (('shrink', root, mem['n'], '', i.id),) if len(muts) < 5 else muts
                    end = ''
                elif kind == 'grow':
                    full_ok = ('NOTFULL', root, mem['n']) in fs or ('EMPTY', root, mem['n']) in fs
                    if self.bounded == 'cap':
                        full_ok = ('NOTFULL', root, mem['n']) in fs
                    if self.bounded and not full_ok:
                        self.report('insert-when-full', i, 'inserts on a path where room was not established since the lock was taken')
                    end = 'back' if last in INS_BACK else 'front' if last in INS_FRONT else ''
                elif kind == 'shrink':
                    if ('NONEMPTY', root, mem['n']) not in fs:
                        self.report('remove-when-empty', i, 'removes on a path where the container was not shown to be non-empty since the lock was taken')
                    end = 'front' if last in ('pop_front',) else 'back' if last == 'pop_back' else ''
                    if not any(c[0] == root and c[1] == mem['n'] and (not end or c[2] == end) for c in cop):
                        self.report('value-dropped', i, 'removes an element that was not copied out first (under the same lock)')
            facts = self.drop(facts, root, mem['n'])
            if kind == 'shrink' and not end and i.op != 'store':
                facts = facts + (('EMPTY', root, mem['n']),)
            elif kind == 'grow':
                facts = facts + (('NONEMPTY', root, mem['n']),) if not (i.op == 'store' and i.d.get('vt') != 'ptr') else facts
            self.mutsites[i.id] = (kind, end)
            if len(muts) < 6:
                muts = muts + ((kind, root, mem['n'], end, i.id),)
            cop = ()
        return (held, guards, (tuple(sorted(facts, key=str)), muts, cop))

    def amount(self, i):
        """(sign, amount value) for x = x +- amount"""
        f = self.f
        tgt = f.path(i.ops[1])
        d = f.defs.get(f.strip_casts(i.ops[0]))
        if d is None or d.op not in ('add', 'sub'):
            return None
        for a, b in ((0, 1), (1, 0)):
            s = f.defs.get(f.strip_casts(d.ops[a]))
            if s is not None and s.op == 'load' and f.path(s.ops[0]) == tgt:
                c = f.const(d.ops[b])
                if c is not None:
                    v = c if d.op == 'add' else -c
                    return (1, 'c:%d' % v) if v > 0 else (-1, 'c:%d' % -v)
                if d.op == 'sub' and a == 1:
                    return None
                return (1 if d.op == 'add' else -1, f.strip_casts(d.ops[b]))
        return None

    def show(self, a):
        return a[2:] if a.startswith('c:') else 'the requested'

    def exit(self, st, i, env):
        v = None
        if i.op == 'ret' and i.ops:
            v = self.ev(i.ops[0], env)
        muts = []
        for m in st[2][1]:
            if m[0] == 'shrink' and muts and muts[-1][0] == 'xchg' and muts[-1][1:3] == m[1:3]:
                muts.pop()
            muts.append(m)
        out = []
        for m in muts:
            out += [('shrink',) + m[1:], ('grow',) + m[1:]] if m[0] == 'xchg' else [m]
        self.exits.append((i, tuple(out), v))


def units(model):
    """(class, function) pairs to analyse"""
    out = []
    for f in model.prog.by_dem.values():
        if not f.cls or not model.entry(f):
            continue
        base = template_base(f.cls)
        if base in CLASSES:
            out.append((f.cls, base, f))
    return out


def is_ctor_dtor(f):
    last = f.short.split('::')[-1]
    return last.startswith('~') or last == template_base(f.cls).split('::')[-1].split('<')[0]


def bounded_kind(model, cls):
    """'cap' when the class has a size bound member, 'slot' for single-slot cells"""
    base = template_base(cls)
    if base == 'pfi::concurrent::pcbuf':
        return 'cap'
    if base == 'pfi::concurrent::mvar':
        return 'slot'
    return None

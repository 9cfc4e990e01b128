"""The lock wrappers tell the truth: finite-domain analysis of every lock,
unlock and wait operation over {recursive/plain} x {owner self/other} x
{count} x {system call outcome}."""
from pfa import *

RULE = '''For each public operation of the mutexes, the read/write mutex, the condition and the scoped guards, the flow graph is
evaluated over a finite abstraction (recursion count negative/1/many/0, owner self/other, each system call succeeding/failing):
an operation reports true exactly when the lock was acquired (released); read operations only take the lock shared, write
operations only exclusively; owner and count are written only while the lock is held, are set on every acquisition and are
saved and restored around a condition wait; a recursive mutex is released only by its owner and only by the last unlock;
a guard releases exactly once, exactly when it acquired.'''
ASSUME = ['pthread primitives behave as POSIX specifies', 'a system thread id is unique among live threads and never 0 or -1']

SELF, OTHER = 1000, 2000
FAILS = (16, 110, 22, 35)


class M(FieldExplorer):
    def __init__(self, prog, ty, f, init, rc):
        FieldExplorer.__init__(self, prog, f, init)
        self.ty = ty
        self.rc = rc

    def cell(self, path):
        m = self.ty.member(self.f, path)
        if m and m[0].endswith('mutex_base::impl'):
            t = strip_cv(m[1]['t'])
            if t in ('long', 'pfi::concurrent::thread::tid_t', 'unsigned long', 'long long'):
                return 'holder'
            if t in ('int', 'unsigned int', 'short'):
                return 'cnt'
        if m and m[0].endswith('rw_mutex::impl') and strip_cv(m[1]['t']) == 'bool':
            return 'valid'
        if m and re.search(r'scoped_(rw)?lock', m[0]) and strip_cv(m[1]['t']) == 'bool':
            return ('need', path[0])
        if m and re.search(r'::[rw]locker$', m[0]) and strip_cv(m[1]['t']) == 'bool':
            return 'use_sec'
        return None

    def call_value(self, i, st):
        c = i.callee
        if c == 'syscall' and self.f.const(i.ops[0]) == 186 or c in ('pthread_self', 'gettid'):
            return SELF
        if c.startswith('pthread_'):
            return self.rc
        return None

    def inst(self, st, i, env):
        out = FieldExplorer.inst(self, st, i, env)
        # while the system mutex was not held another thread may have owned it; its release left no owner and count 0
        if i.iscall and (i.callee in ('pthread_cond_wait', 'pthread_cond_timedwait')
                         or i.callee.startswith('pthread_mutex_') and 'unlock' not in i.callee and 'lock' in i.callee and self.rc == 0):
            out2 = []
            for st in out:
                c = self.get(st, 'cnt')
                st = self.put(st, 'holder', -1)
                if c is not None and c >= 0:
                    st = self.put(st, 'cnt', 0)
                out2.append(st)
            return out2
        return out

    def event(self, i, st, env):
        c = i.callee if i.iscall else ''
        if re.match(r'^pthread_(mutex|rwlock|cond)_', c):
            return (c, self.get(st, 'holder'), self.get(st, 'cnt'))
        return None


def run(prog, ty, f, init, rc):
    m = M(prog, ty, f, init, rc)
    m.run()
    if m.truncated:
        raise AnchorLost('state space of %s truncated' % f.short)
    return m


def calls(tr):
    return [e[0] for e in tr if e[0].startswith('pthread_')]


def check(ctx):
    prog = ctx.prog('lo')
    ty = Typer(prog)
    check_mutex(ctx, prog, ty)
    check_condition(ctx, prog, ty)
    check_rw(ctx, prog, ty)
    check_guards(ctx, prog, ty)


def one(prog, name, pred=lambda f: True):
    r = [f for f in prog.need(name) if pred(f)]
    if not r:
        raise AnchorLost('no function %s of the expected signature' % name)
    return r


def case(ctx, f, what):
    ctx.ob(what, '%s:%d (%s)' % (f.file, f.line, f.short))


def check_mutex(ctx, prog, ty):
    for f in one(prog, 'pfi::concurrent::mutex_base::lock'):
        bad = lambda i, msg: ctx.bad('lock', f, i.where(), msg)
        ncall = 0
        for cnt, holder in ((-1, OTHER), (0, OTHER), (0, -1), (1, OTHER), (1, SELF), (3, SELF)):
            for rc in (0,) + FAILS:
                m = run(prog, ty, f, {'cnt': cnt, 'holder': holder}, rc)
                recursive = cnt >= 0
                case(ctx, f, 'lock: count %d, owner %s, system call %s' % (cnt, 'self' if holder == SELF else 'other', 'ok' if rc == 0 else 'error %d' % rc))
                if not m.results:
                    bad(f.blocks[0][0], 'no return')
                for i, st, v in m.results:
                    if i.op != 'ret':
                        continue
                    tr = st[1]
                    cs = calls(tr)
                    h, c = m.get(st, 'holder'), m.get(st, 'cnt')
                    if recursive and holder == SELF:
                        if cs:
                            bad(i, 'a recursive mutex is locked again at system level by the thread that owns it (deadlock)')
                        if v != 1:
                            bad(i, 'locking a recursive mutex again does not report success')
                        if c != cnt + 1 or h != SELF:
                            bad(i, 'locking a recursive mutex again does not count the extra lock')
                        continue
                    got = [x for x in cs if x in ('pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_timedlock')]
                    ncall += len(got)
                    if len(got) != 1 or len(cs) != 1:
                        bad(i, 'acquires the system mutex %d times' % len(got))
                        continue
                    pos = [k for k, e in enumerate(tr) if e[0] == got[0]][0]
                    if any(e[0] == 'set' for e in tr[:pos]):
                        bad(i, 'owner/count are written before the lock is held')
                    if rc == 0:
                        if v != 1:
                            bad(i, 'reports %s although the lock was acquired' % ('failure' if v == 0 else 'an undetermined result'))
                        if h != SELF:
                            bad(i, 'the owner is not recorded on a successful lock')
                        if recursive and c != 1:
                            bad(i, 'the recursion count is not 1 after the first lock')
                        if not recursive and c != cnt:
                            bad(i, 'a plain mutex becomes recursive by locking')
                    else:
                        if v != 0:
                            bad(i, 'reports success although the lock was not acquired')
                        if any(e[0] == 'set' for e in tr):
                            bad(i, 'owner/count are written although the lock was not acquired')
        if not ncall:
            raise AnchorLost('no system lock call in mutex_base::lock')
    for f in one(prog, 'pfi::concurrent::mutex_base::unlock'):
        bad = lambda i, msg: ctx.bad('unlock', f, i.where(), msg)
        for cnt, holder in ((-1, SELF), (1, SELF), (2, SELF), (5, SELF), (1, OTHER), (0, -1)):
            for rc in (0, 1):
                m = run(prog, ty, f, {'cnt': cnt, 'holder': holder}, rc)
                case(ctx, f, 'unlock: count %d, owner %s, system call %s' % (cnt, 'self' if holder == SELF else 'other', rc))
                for i, st, v in m.results:
                    if i.op != 'ret':
                        continue
                    tr = st[1]
                    cs = calls(tr)
                    h, c = m.get(st, 'holder'), m.get(st, 'cnt')
                    if cnt >= 0 and holder != SELF:
                        if cs or v != 0 or any(e[0] == 'set' for e in tr):
                            bad(i, 'a recursive mutex can be unlocked by a thread that does not own it')
                        continue
                    if cnt >= 2:
                        if cs:
                            bad(i, 'a recursive mutex is released before its last unlock')
                        if c != cnt - 1 or h != SELF or v != 1:
                            bad(i, 'an inner unlock of a recursive mutex does not count down and report success')
                        continue
                    if cs != ['pthread_mutex_unlock']:
                        bad(i, 'the system mutex is released %d times' % cs.count('pthread_mutex_unlock'))
                        continue
                    pos = [k for k, e in enumerate(tr) if e[0] == 'pthread_mutex_unlock'][0]
                    if any(e[0] == 'set' for e in tr[pos + 1:]):
                        bad(i, 'owner/count are written after the lock was released')
                    if tr[pos][1] == SELF:
                        bad(i, 'the lock is released while the caller is still recorded as owner')
                    if cnt >= 0 and tr[pos][2] != 0:
                        bad(i, 'the lock is released with a non-zero recursion count')
                    if cnt < 0 and (c is None or c >= 0):
                        bad(i, 'a plain mutex becomes recursive by unlocking')
                    if v != (1 if rc == 0 else 0):
                        bad(i, 'the reported result is not the outcome of the release')
    # constructors: plain mutex is plain, recursive is recursive
    for nm, rec in (('pfi::concurrent::mutex::mutex', False), ('pfi::concurrent::r_mutex::r_mutex', True)):
        for f in prog.named(nm):
            if '&' in f.dem:
                continue
            m = run(prog, ty, f, {}, 0)
            case(ctx, f, 'construction sets owner none and count %s' % ('0' if rec else 'negative'))
            for i, st, v in m.results:
                if i.op != 'ret':
                    continue
                c, h = m.get(st, 'cnt'), m.get(st, 'holder')
                if c is None or (rec and c != 0) or (not rec and c >= 0):
                    ctx.bad('construct', f, i.where(), 'a %s mutex starts with recursion count %s' % ('recursive' if rec else 'plain', c))
                if h is None or h > 0:
                    ctx.bad('construct', f, i.where(), 'a mutex starts with an owner')


def check_condition(ctx, prog, ty):
    ws = one(prog, 'pfi::concurrent::condition::wait')
    for f in ws:
        timed = any(a['t'] == 'double' for a in f.args)
        bad = lambda i, msg: ctx.bad('wait', f, i.where(), msg)
        want = 'pthread_cond_timedwait' if timed else 'pthread_cond_wait'
        for cnt, holder in ((-1, SELF), (1, SELF), (3, SELF), (1, OTHER), (0, -1), (-1, OTHER)):
            for rc in ((0, 110) if timed else (0,)):
                m = run(prog, ty, f, {'cnt': cnt, 'holder': holder}, rc)
                case(ctx, f, 'wait: count %d, owner %s, outcome %d' % (cnt, 'self' if holder == SELF else 'other', rc))
                for i, st, v in m.results:
                    if i.op != 'ret':
                        continue
                    tr = st[1]
                    cs = calls(tr)
                    h, c = m.get(st, 'holder'), m.get(st, 'cnt')
                    if holder != SELF:
                        if cs or any(e[0] == 'set' for e in tr):
                            bad(i, 'waits (or changes the mutex) although the caller does not hold it')
                        if timed and v != 0:
                            bad(i, 'reports a wake-up although it did not wait')
                        continue
                    if cs != [want]:
                        bad(i, 'calls %s instead of exactly one %s' % (cs or 'nothing', want))
                        continue
                    pos = [k for k, e in enumerate(tr) if e[0] == want][0]
                    if cnt >= 0 and (tr[pos][1] == SELF or tr[pos][2] != 0):
                        bad(i, 'a recursive mutex is released to other threads with its owner/count still set')
                    if h != SELF or c != cnt:
                        bad(i, 'owner and count are not restored after the wait')
                    if timed and v != (1 if rc == 0 else 0):
                        bad(i, 'the result does not distinguish a wake-up from a time-out')
        # the mutex handed to the system wait is the argument's
        for i in f.calls():
            if i.callee == want:
                r = f.path(i.ops[1])[0]
                rr = r
                while isinstance(rr, tuple):
                    rr = rr[1]
                if rr != 'a1':
                    bad(i, 'releases a mutex other than the caller\'s')
    for nm, want in (('notify', 'pthread_cond_signal'), ('notify_all', 'pthread_cond_broadcast')):
        for f in one(prog, 'pfi::concurrent::condition::' + nm):
            m = run(prog, ty, f, {}, 0)
            case(ctx, f, '%s calls %s on every path' % (nm, want))
            for i, st, v in m.results:
                cs = calls(st[1])
                if i.op == 'ret' and (cs != [want] and not (nm == 'notify' and cs == ['pthread_cond_broadcast'])):
                    ctx.bad('notify', f, i.where(), 'a path calls %s instead of %s' % (cs or 'nothing', want))


KINDS = {'read': ('pthread_rwlock_rdlock', 'pthread_rwlock_tryrdlock', 'pthread_rwlock_timedrdlock', 'pthread_rwlock_clockrdlock'),
         'write': ('pthread_rwlock_wrlock', 'pthread_rwlock_trywrlock', 'pthread_rwlock_timedwrlock', 'pthread_rwlock_clockwrlock')}


def check_rw(ctx, prog, ty):
    todo = []
    for k in ('read', 'write'):
        for f in one(prog, 'pfi::concurrent::rw_mutex::%s_lock' % k):
            todo.append((f, k, any(a['t'] == 'double' for a in f.args)))
    for nm, k in (('rlocker', 'read'), ('wlocker', 'write')):
        for f in one(prog, 'pfi::concurrent::%s::lock' % nm):
            todo.append((f, k, None))
    for f, k, timed in todo:
        bad = lambda i, msg: ctx.bad('rw-lock', f, i.where(), msg)
        ok = 0
        for valid in (0, 1):
            for rc in (0,) + FAILS:
                m = run(prog, ty, f, {'valid': valid}, rc)
                case(ctx, f, '%s lock, mutex %s, system call %d' % (k, 'usable' if valid else 'unusable', rc))
                for i, st, v in m.results:
                    if i.op != 'ret':
                        continue
                    cs = calls(st[1])
                    if not valid:
                        if v != 0 or cs:
                            bad(i, 'an unusable lock reports success')
                        continue
                    if len(cs) != 1 or cs[0] not in KINDS[k]:
                        bad(i, 'a %s lock calls %s' % (k, cs or 'nothing'))
                        continue
                    if timed and cs[0] in ('pthread_rwlock_rdlock', 'pthread_rwlock_wrlock'):
                        bad(i, 'a timed lock blocks without limit')
                    if timed is False and cs[0] not in ('pthread_rwlock_rdlock', 'pthread_rwlock_wrlock'):
                        bad(i, 'a blocking lock can give up')
                    if v != (1 if rc == 0 else 0):
                        bad(i, 'reports %s although the lock was %sacquired' % ('success' if v else 'failure' if v == 0 else 'an undetermined result', '' if rc == 0 else 'not '))
                    ok += 1
        if not ok:
            raise AnchorLost('no lock call reached in %s' % f.short)
    us = one(prog, 'pfi::concurrent::rw_mutex::unlock')
    for nm in ('rlocker', 'wlocker'):
        us += one(prog, 'pfi::concurrent::%s::unlock' % nm)
    for f in us:
        for rc in (0, 1):
            m = run(prog, ty, f, {'valid': 1}, rc)
            case(ctx, f, 'unlock releases once, outcome %d' % rc)
            for i, st, v in m.results:
                if i.op == 'ret' and (calls(st[1]) != ['pthread_rwlock_unlock'] or v != (1 if rc == 0 else 0)):
                    ctx.bad('rw-unlock', f, i.where(), 'does not release exactly once and report the outcome')


def check_guards(ctx, prog, ty):
    """scoped guards: flag set iff the underlying lock() reported success; destructor releases iff the flag is set"""
    n = 0
    for f in prog.by_dem.values():
        last = f.short.split('::')[-1]
        if last in ('scoped_lock', '~scoped_lock') and f.short.startswith('pfi::concurrent::scoped_lock::'):
            n += 1
            guard_virtual(ctx, prog, ty, f, last.startswith('~'))
        elif f.short.startswith('pfi::concurrent::scoped_rwlock::') and last in ('scoped_rwlock', '~scoped_rwlock'):
            n += 1
            guard_rw(ctx, prog, ty, f, last.startswith('~'))
    ctx.need('guard_functions', n, 6)


class G(M):
    """virtual calls on the lockable: slot 2 = lock, slot 3 = unlock (after the two destructors)"""

    def vslot(self, i):
        cv = i.d.get('cv')
        if not cv:
            return None
        d = self.f.defs.get(cv)
        if d is None or d.op != 'load':
            return None
        r, o = self.f.path(d.ops[0])
        return o // 8 if isinstance(r, tuple) and r[0] == 'L' else None

    def call_value(self, i, st):
        s = self.vslot(i) if i.iscall else None
        if s in (2, 3):
            return self.rc
        return M.call_value(self, i, st)

    def load_value(self, i, st):
        if i.ty == 'ptr':
            m = self.ty.member(self.f, self.f.path(i.ops[0]))
            if m and 'lockable' in m[1]['t'] and m[1]['t'].endswith('*'):
                return self.init_cells.get('hasptr')
            return None
        return M.load_value(self, i, st)

    def event(self, i, st, env):
        s = self.vslot(i) if i.iscall else None
        if s == 2:
            return ('lock',)
        if s == 3:
            return ('unlock',)
        return M.event(self, i, st, env)


def guard_virtual(ctx, prog, ty, f, dtor):
    for rc in (0, 1):
        for has in ((None,) if not dtor else (0, 1)):
            init = {('need', 'a0'): rc} if dtor else {}
            if has is not None:
                init['hasptr'] = has
            g = G(prog, ty, f, init, rc)
            g.run()
            case(ctx, f, '%s with %s' % ('guard destructor' if dtor else 'guard constructor', 'lock taken' if rc else 'lock not taken'))
            for i, st, v in g.results:
                if i.op != 'ret':
                    continue
                ev = [e[0] for e in st[1] if e[0] in ('lock', 'unlock')]
                flag = g.get(st, ('need', 'a0'))
                if not dtor:
                    if ev != ['lock']:
                        ctx.bad('guard', f, i.where(), 'the guard performs %s' % (ev or 'nothing'))
                    if flag != rc:
                        ctx.bad('guard', f, i.where(), 'the guard says %s although locking %s' % ('locked' if flag else 'not locked', 'succeeded' if rc else 'failed'))
                else:
                    if ev != (['unlock'] if rc else []):
                        ctx.bad('guard', f, i.where(), 'a guard that %s performs %s on destruction' % ('holds the lock' if rc else 'does not hold the lock', ev or 'nothing'))


def guard_rw(ctx, prog, ty, f, dtor):
    copy = not dtor and 'rw_mutex' not in f.dem.split('(', 1)[1]
    kind = 'read' if 'rlock' in f.dem else 'write'
    for rc in (0, 16):
        if dtor:
            m = run(prog, ty, f, {('need', 'a0'): 1 if rc == 0 else 0, 'valid': 1}, 0)
        elif copy:
            m = run(prog, ty, f, {('need', 'a1'): 1 if rc == 0 else 0}, 0)
        else:
            m = run(prog, ty, f, {'valid': 1}, rc)
        case(ctx, f, '%s guard: %s, case %d' % (kind, 'destructor' if dtor else 'transfer' if copy else 'constructor', rc))
        for i, st, v in m.results:
            if i.op != 'ret':
                continue
            cs = calls(st[1])
            if dtor:
                if cs != (['pthread_rwlock_unlock'] if rc == 0 else []):
                    ctx.bad('guard', f, i.where(), 'a guard that %s performs %s on destruction' % ('holds the lock' if rc == 0 else 'does not hold it', cs or 'nothing'))
            elif copy:
                a, b = m.get(st, ('need', 'a0')), m.get(st, ('need', 'a1'))
                if cs or b != 0 or a != (1 if rc == 0 else 0):
                    ctx.bad('guard', f, i.where(), 'copying a guard does not move the obligation to unlock (old %s, new %s)' % (b, a))
            else:
                if len(cs) != 1 or cs[0] not in KINDS[kind]:
                    ctx.bad('guard', f, i.where(), 'a %s guard calls %s' % (kind, cs or 'nothing'))
                if m.get(st, ('need', 'a0')) != (1 if rc == 0 else 0):
                    ctx.bad('guard', f, i.where(), 'the guard says %s although the lock was %sacquired' % (m.get(st, ('need', 'a0')), '' if rc == 0 else 'not '))
